//@ include mat.rs
//@ include tri.rs
verus! {
//@ struct LowerTriangular
impl MatSpec for LowerTriangular {
    open spec fn wf(&self) -> bool { tri_fits(self.dim as int) && self.data@.len() >= tri(self.dim as int) }
    open spec fn nr(&self) -> int { self.dim as int }
    open spec fn nc(&self) -> int { self.dim as int }
    open spec fn at(&self, r: int, c: int) -> real { if c <= r { self.data@[tri(r) + c].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { c <= r }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { tri_fits(if nr >= nc { nr } else { nc }) }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { let n = if nr >= nc { nr } else { nc }; (n, n) }
    open spec fn zwr(r: int, c: int) -> bool { c <= r }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { false }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) { lem_tri(self.dim as int); lem_tri_fits_n(self.dim as int); }
}
impl LowerTriangular {
//@ fn LowerTriangular::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        None => !(inr(self, loc.0 as int, loc.1 as int) && loc.1 <= loc.0),
        Some(i) => inr(self, loc.0 as int, loc.1 as int) && loc.1 <= loc.0 && i < self.data@.len() && i == tri(loc.0 as int) + loc.1 },
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) && loc.1 <= loc.0 { lem_tri_fits(loc.0 as int, loc.1 as int, self.dim as int); lem_tri(loc.0 as int); lem_tri_mono(loc.0 as int, self.dim as int); } }
//@ end
}
impl MatrixLike for LowerTriangular {
//@ fn MatrixLike for LowerTriangular::shape
//@ end
//@ fn MatrixLike for LowerTriangular::get
//@ end
//@ fn MatrixLike for LowerTriangular::get_mut
//@ start
    proof { lem_pack(self.dim as int); }
//@ end
//@ fn Index<(usize,usize)> for LowerTriangular::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for LowerTriangular::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { lem_pack(self.dim as int); }
//@ end
//@ fn MatrixLike for LowerTriangular::transpose
//@ end
//@ fn MatrixLike for LowerTriangular::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ before let len
    proof { lem_tri_fits_n(dim as int); let d = dim + 2; assert(d * (d - 1) == (dim + 2) * (dim + 1)) by (nonlinear_arith) requires d == dim + 2;
        assert(dim as int == if shape.r() >= shape.c() { shape.r() } else { shape.c() }); assert(tri_fits(dim as int)); }
//@ tail
    proof { lem_pack(ret_.dim as int); lem_tri_fits_n(ret_.dim as int); }
//@ end
//@ fn MatrixLike for LowerTriangular::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(_shape: S, _data: Vec<R>) -> (res: Self)
//@ end
}
impl LowerTriangular {
//@ fn Index<(usize,usize)> for LowerTriangular::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for LowerTriangular::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
//@ start
    proof { lem_pack(self.dim as int); }
//@ end
//@ fn MatrixLike for LowerTriangular::zeros -> res
//@ opt hidden
//@ diverge
//@ sig
    fn zeros_any<S: VIntoShape>(shape: S) -> (res: Self)
//@ requires
    shape.s_ok(),
//@ ensures
    res.wf(), res.dim == if shape.sr() >= shape.sc() { shape.sr() } else { shape.sc() },
//@ tail
    proof { lem_tri_fits_n(ret_.dim as int); }
//@ end
}
//@ struct UpperTriangular
impl MatSpec for UpperTriangular {
    open spec fn wf(&self) -> bool { tri_fits(self.dim as int) && self.data@.len() >= tri(self.dim as int) }
    open spec fn nr(&self) -> int { self.dim as int }
    open spec fn nc(&self) -> int { self.dim as int }
    open spec fn at(&self, r: int, c: int) -> real { if r <= c { self.data@[tri(c) + r].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { r <= c }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { tri_fits(if nr >= nc { nr } else { nc }) }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { let n = if nr >= nc { nr } else { nc }; (n, n) }
    open spec fn zwr(r: int, c: int) -> bool { r <= c }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { false }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) { lem_tri(self.dim as int); lem_tri_fits_n(self.dim as int); }
}
impl UpperTriangular {
//@ fn UpperTriangular::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        None => !(inr(self, loc.0 as int, loc.1 as int) && loc.0 <= loc.1),
        Some(i) => inr(self, loc.0 as int, loc.1 as int) && loc.0 <= loc.1 && i < self.data@.len() && i == tri(loc.1 as int) + loc.0 },
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) && loc.0 <= loc.1 { lem_tri_fits(loc.1 as int, loc.0 as int, self.dim as int); lem_tri(loc.1 as int); lem_tri_mono(loc.1 as int, self.dim as int); } }
//@ end
}
impl MatrixLike for UpperTriangular {
//@ fn MatrixLike for UpperTriangular::shape
//@ end
//@ fn MatrixLike for UpperTriangular::get
//@ end
//@ fn MatrixLike for UpperTriangular::get_mut
//@ start
    proof { lem_pack(self.dim as int); }
//@ end
//@ fn Index<(usize,usize)> for UpperTriangular::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for UpperTriangular::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { lem_pack(self.dim as int); }
//@ end
//@ fn MatrixLike for UpperTriangular::transpose
//@ end
//@ fn MatrixLike for UpperTriangular::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ before let len
    proof { lem_tri_fits_n(dim as int); let d = dim + 2; assert(d * (d - 1) == (dim + 2) * (dim + 1)) by (nonlinear_arith) requires d == dim + 2;
        assert(dim as int == if shape.r() >= shape.c() { shape.r() } else { shape.c() }); assert(tri_fits(dim as int)); }
//@ tail
    proof { lem_pack(ret_.dim as int); lem_tri_fits_n(ret_.dim as int); }
//@ end
//@ fn MatrixLike for UpperTriangular::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(_shape: S, _data: Vec<R>) -> (res: Self)
//@ end
}
impl UpperTriangular {
//@ fn Index<(usize,usize)> for UpperTriangular::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for UpperTriangular::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
//@ start
    proof { lem_pack(self.dim as int); }
//@ end
//@ fn MatrixLike for UpperTriangular::zeros -> res
//@ opt hidden
//@ diverge
//@ sig
    fn zeros_any<S: VIntoShape>(shape: S) -> (res: Self)
//@ requires
    shape.s_ok(),
//@ ensures
    res.wf(), res.dim == if shape.sr() >= shape.sc() { shape.sr() } else { shape.sc() },
//@ tail
    proof { lem_tri_fits_n(ret_.dim as int); }
//@ end
}
//@ struct Diagonal
impl MatSpec for Diagonal {
    open spec fn wf(&self) -> bool { self.data@.len() < usize::MAX }
    open spec fn nr(&self) -> int { self.data@.len() as int }
    open spec fn nc(&self) -> int { self.data@.len() as int }
    open spec fn at(&self, r: int, c: int) -> real { if r == c { self.data@[r].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { r == c }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { nr == nc && nr < usize::MAX }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { r == c }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { false }
    open spec fn can_transpose() -> bool { true }
    proof fn lem_dims(&self) {}
}
impl MatrixLike for Diagonal {
//@ fn MatrixLike for Diagonal::shape
//@ end
//@ fn MatrixLike for Diagonal::get
//@ end
//@ fn MatrixLike for Diagonal::get_mut
//@ end
//@ fn Index<(usize,usize)> for Diagonal::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for Diagonal::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ end
//@ fn MatrixLike for Diagonal::transpose
//@ end
//@ fn MatrixLike for Diagonal::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ end
//@ fn MatrixLike for Diagonal::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(_shape: S, _data: Vec<R>) -> (res: Self)
//@ end
}
impl Diagonal {
//@ fn Index<(usize,usize)> for Diagonal::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for Diagonal::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), loc.0 == loc.1,
//@ end
//@ fn Index<usize> for Diagonal::index -> res
//@ diverge
//@ sig
    fn v_index1(&self, loc: usize) -> (res: &R)
//@ ensures
    loc < self.data@.len(), *res == self.data@[loc as int],
//@ end
//@ fn IndexMut<usize> for Diagonal::index_mut -> res
//@ diverge
//@ sig
    fn v_index1_mut(&mut self, loc: usize) -> (res: &mut R)
//@ ensures
    loc < old(self).data@.len(), *res == old(self).data@[loc as int], final(self).data@ == old(self).data@.update(loc as int, *final(res)),
//@ end
//@ fn MatrixLike for Diagonal::zeros -> res
//@ opt hidden
//@ diverge
//@ sig
    fn zeros_any<S: VIntoShape>(shape: S) -> (res: Self)
//@ ensures
    shape.sr() == shape.sc(), res.data@.len() == shape.sr(),
//@ end
//@ fn From<Vec<f64>> for Diagonal::from -> res
//@ sig
    fn v_from_vec(data: Vec<R>) -> (res: Self)
//@ ensures
    res.data@ == data@,
//@ end
}
//@ struct ConstMatrix
impl<const SIZE: usize> MatSpec for ConstMatrix<SIZE> {
    open spec fn wf(&self) -> bool { SIZE == self.dims.0 * self.dims.1 && self.dims.0 < usize::MAX && self.dims.1 < usize::MAX }
    open spec fn nr(&self) -> int { self.dims.0 as int }
    open spec fn nc(&self) -> int { self.dims.1 as int }
    open spec fn at(&self, r: int, c: int) -> real { self.data@[self.dims.1 * r + c].r() }
    open spec fn writable(&self, r: int, c: int) -> bool { true }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { nr * nc == SIZE && fits(nr, nc) }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { true }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { nr * nc == SIZE && fits(nr, nc) && len == SIZE }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) {}
}
impl<const SIZE: usize> ConstMatrix<SIZE> {
//@ fn ConstMatrix<SIZE>::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        None => !inr(self, loc.0 as int, loc.1 as int),
        Some(i) => inr(self, loc.0 as int, loc.1 as int) && i < SIZE && i == self.dims.1 * loc.0 + loc.1 },
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) { lem_idx(loc.0 as int, loc.1 as int, self.nr(), self.nc()); } }
//@ end
//@ fn ConstMatrix<SIZE>::from_flat_array -> res
//@ sig
    pub fn from_flat_array<S: VIntoShape>(shape: S, data: [R; SIZE]) -> (res: Self)
//@ requires
    shape.sr() * shape.sc() == SIZE, fits(shape.sr(), shape.sc()),
//@ ensures
    res.wf(), res.dims.0 == shape.sr(), res.dims.1 == shape.sc(), res.data == data,
//@ end
//@ fn ConstMatrix<SIZE>::from_flat_array -> res
//@ opt hidden
//@ diverge
//@ sig
    pub fn from_flat_array_any<S: VIntoShape>(shape: S, data: [R; SIZE]) -> (res: Self)
//@ ensures
    shape.sr() * shape.sc() == SIZE, res.dims.0 == shape.sr(), res.dims.1 == shape.sc(), res.data == data,
//@ end
}
impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
//@ fn MatrixLike for ConstMatrix<SIZE>::shape
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::get
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::get_mut
//@ start
    proof { lem_flat(self.nr(), self.nc()); }
//@ end
//@ fn Index<(usize,usize)> for ConstMatrix<SIZE>::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for ConstMatrix<SIZE>::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { lem_flat(self.nr(), self.nc()); }
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::transpose
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ tail
    proof { lem_flat(ret_.nr(), ret_.nc()); }
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(shape: S, data: Vec<R>) -> (res: Self)
//@ start
    let ghost d0 = data@;
//@ loop 0
    len == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] arr_data@[k] == d0[k], data@ == d0,
//@ tail
    proof { lem_flat(ret_.nr(), ret_.nc()); }
//@ end
}
impl<const SIZE: usize> ConstMatrix<SIZE> {
//@ fn Index<(usize,usize)> for ConstMatrix<SIZE>::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for ConstMatrix<SIZE>::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int),
//@ start
    proof { lem_flat(self.nr(), self.nc()); }
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::zeros -> res
//@ opt hidden
//@ diverge
//@ sig
    fn zeros_any<S: VIntoShape>(shape: S) -> (res: Self)
//@ ensures
    shape.sr() * shape.sc() == SIZE, res.dims.0 == shape.sr(), res.dims.1 == shape.sc(),
//@ end
//@ fn MatrixLike for ConstMatrix<SIZE>::from_flat -> res
//@ opt hidden
//@ diverge
//@ sig
    fn from_flat_any<S: VIntoShape>(shape: S, data: Vec<R>) -> (res: Self)
//@ ensures
    shape.sr() * shape.sc() == SIZE, data@.len() == SIZE, res.dims.0 == shape.sr(), res.dims.1 == shape.sc(),
//@ start
    let ghost d0 = data@;
//@ loop 0
    len == k0, k0 > 0 ==> k0 <= SIZE, data@ == d0,
//@ end
}
}
