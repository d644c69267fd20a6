//@ include mat.rs
//@ veq data
verus! {
// ---- the dense matrix: equality, and what is refused
pub open spec fn flat_at<M: MatSpec>(m: &M, k: int) -> real { m.at(k / m.nc(), k % m.nc()) }
pub proof fn lem_flatten<M: MatSpec>(a: &M, b: &M)
    requires a.nr() == b.nr(), a.nc() == b.nc(), a.nr() >= 0, a.nc() >= 0,
    ensures same_mat(a, b) <==> forall|k: int| 0 <= k < a.nr() * a.nc() ==> #[trigger] flat_at(a, k) == flat_at(b, k),
{
    let (nr, nc) = (a.nr(), a.nc());
    if forall|k: int| 0 <= k < nr * nc ==> #[trigger] flat_at(a, k) == flat_at(b, k) {
        assert forall|r: int, c: int| inr(a, r, c) implies #[trigger] a.at(r, c) == b.at(r, c) by {
            lem_idx(r, c, nr, nc); lem_at(nc * r + c, r, c, nr, nc); assert(flat_at(a, nc * r + c) == flat_at(b, nc * r + c)); }
    }
    if same_mat(a, b) {
        assert forall|k: int| 0 <= k < nr * nc implies #[trigger] flat_at(a, k) == flat_at(b, k) by { lem_divmod(k, nr, nc); }
    }
}
pub open spec fn same_buf(a: &LinearMatrix, b: &LinearMatrix) -> bool { a.data@.len() == b.data@.len() && forall|k: int| 0 <= k < a.data@.len() ==> #[trigger] a.data@[k].r() == b.data@[k].r() }
pub proof fn lem_buf(a: &LinearMatrix, b: &LinearMatrix)
    requires a.wf(), b.wf(), a.dims == b.dims, a.row_maj == b.row_maj,
    ensures same_mat(a, b) <==> same_buf(a, b),
{
    let (nr, nc) = (a.nr(), a.nc());
    lem_flat(nr, nc); lem_flat(nc, nr);
    assert(nr * nc == nc * nr) by (nonlinear_arith);
    if same_mat(a, b) {
        assert forall|k: int| 0 <= k < a.data@.len() implies #[trigger] a.data@[k].r() == b.data@[k].r() by {
            if a.row_maj { lem_divmod(k, nr, nc); assert(inr(a, k / nc, k % nc)); assert(a.at(k / nc, k % nc) == b.at(k / nc, k % nc)); }
            else { lem_divmod(k, nc, nr); assert(inr(a, k % nr, k / nr)); assert(a.at(k % nr, k / nr) == b.at(k % nr, k / nr)); }
        }
    }
}
impl LinearMatrix {
//@ fn PartialEq for LinearMatrix::eq
//@ sig
    pub fn v_eq(&self, other: &LinearMatrix) -> (res: bool)
//@ requires
    self.wf(), other.wf(),
//@ ensures
    res == same_mat(self, other),
//@ start
    proof {
        assert(self.data@.len() == self.data.len() as int);
        if self.nr() == other.nr() && self.nc() == other.nc() { lem_flatten(self, other); if self.row_maj == other.row_maj { lem_buf(self, other); } } }
//@ loop 0
    len0 == self.nr() * self.nc(), self.nr() == other.nr(), self.nc() == other.nc(), self.wf(), other.wf(), fits(self.nr(), self.nc()),
    acc0 ==> forall|k: int| 0 <= k < k0 ==> #[trigger] flat_at(self, k) == flat_at(other, k),
    !acc0 ==> exists|k: int| 0 <= k < k0 && #[trigger] flat_at(self, k) != flat_at(other, k),
//@ loop 0 end
    assert(flat_at(self, i0 as int) == e3.r() && flat_at(other, i0 as int) == e4.r());
//@ end
// reading and writing outside the shape, and lists of the wrong length, do not give an answer
//@ fn Index<(usize,usize)> for LinearMatrix::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for LinearMatrix::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int),
    final(self).wf(), same_shape(final(self), old(self)),
//@ start
    proof { lem_flat(self.nr(), self.nc()); lem_flat(self.nc(), self.nr()); }
//@ end
//@ fn MatrixLike for LinearMatrix::from_flat -> res
//@ opt hidden
//@ diverge
//@ sig
    fn from_flat_any<S: VIntoShape>(shape: S, data: Vec<R>) -> (res: Self)
//@ ensures
    shape.sr() * shape.sc() == data@.len(),
    res.dims.0 == shape.sr(), res.dims.1 == shape.sc(), res.data@.len() == data@.len(),
//@ start
    let ghost d0 = data@;
//@ loop 0
    acc0@.len() == k0, data@ == d0,
//@ end
//@ fn MatrixLike for LinearMatrix::zeros -> res
//@ opt hidden
//@ diverge
//@ sig
    fn zeros_any<S: VIntoShape>(shape: S) -> (res: Self)
//@ ensures
    shape.sr() * shape.sc() <= usize::MAX, res.dims.0 == shape.sr(), res.dims.1 == shape.sc(), res.data@.len() == shape.sr() * shape.sc(),
//@ end
//@ fn trait MatrixLike::set_row
//@ opt hidden
//@ diverge
//@ opt index-any
//@ as set_row_any
//@ requires
    old(self).wf(),
//@ ensures
    new@.len() == old(self).nc(), old(self).nc() > 0 ==> i < old(self).nr(),
//@ loop 0
    self.wf(), same_shape(self, old(self)), k0 > 0 ==> i < old(self).nr(),
//@ end
//@ fn trait MatrixLike::swap_rows
//@ opt hidden
//@ diverge
//@ opt index-any
//@ as swap_rows_any
//@ requires
    old(self).wf(),
//@ ensures
    old(self).nc() > 0 ==> i < old(self).nr() && j < old(self).nr(),
//@ loop 0
    self.wf(), same_shape(self, old(self)), k0 > 0 ==> i < old(self).nr() && j < old(self).nr(),
//@ end
//@ fn trait MatrixLike::swap_cols
//@ opt hidden
//@ diverge
//@ opt index-any
//@ as swap_cols_any
//@ requires
    old(self).wf(),
//@ ensures
    old(self).nr() > 0 ==> i < old(self).nc() && j < old(self).nc(),
//@ loop 0
    self.wf(), same_shape(self, old(self)), k0 > 0 ==> i < old(self).nc() && j < old(self).nc(),
//@ end
//@ fn trait MatrixLike::set_col
//@ opt hidden
//@ diverge
//@ opt index-any
//@ as set_col_any
//@ requires
    old(self).wf(),
//@ ensures
    new@.len() == old(self).nr(), old(self).nr() > 0 ==> i < old(self).nc(),
//@ loop 0
    self.wf(), same_shape(self, old(self)), k0 > 0 ==> i < old(self).nc(),
//@ end
}
}
