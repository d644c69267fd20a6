//@ include dict.rs
//@ include dense.rs
//@ include kinds.rs
//@ include la.rs
verus!{
// ---- arithmetic
pub open spec fn fsq<M: MatSpec>(m: &M) -> spec_fn(int) -> real { |k: int| flat_at(m, k) * flat_at(m, k) }
pub proof fn lem_sq(n: int, f: spec_fn(int) -> real)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) >= 0real,
    ensures rsum(f, n) >= 0real,
    decreases n,
{ if n > 0 { lem_sq(n - 1, f); assert(f(n - 1) >= 0real); } }
impl LinearMatrix {
//@ fn Add<&LinearMatrix> for &LinearMatrix::add
//@ sig
    fn v_add(&self, rhs: &LinearMatrix) -> (res: LinearMatrix)
//@ let acc0 : Vec<R>
//@ requires
    self.wf(), rhs.wf(), self.dims == rhs.dims,
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); }
//@ ensures
    res.wf(), same_shape(&res, self), forall|r: int, c: int| inr(self, r, c) ==> #[trigger] res.at(r, c) == self.at(r, c) + rhs.at(r, c),
//@ loop 0
    acc0@.len() == k0, len0 == self.nr() * self.nc(),
    forall|k: int| 0 <= k < k0 ==> (#[trigger] acc0@[k]).r() == flat_at(self, k) + flat_at(rhs, k),
//@ tail
    proof { lem_flat(self.nr(), self.nc());
        assert forall|r: int, c: int| inr(self, r, c) implies #[trigger] ret_.at(r, c) == self.at(r, c) + rhs.at(r, c) by {
            assert(inr(&ret_, r, c)); lem_idx(r, c, self.nr(), self.nc()); lem_at(self.nc() * r + c, r, c, self.nr(), self.nc()); } }
//@ end
//@ fn Sub<&LinearMatrix> for &LinearMatrix::sub
//@ sig
    fn v_sub_m(&self, rhs: &LinearMatrix) -> (res: LinearMatrix)
//@ let acc0 : Vec<R>
//@ requires
    self.wf(), rhs.wf(), self.dims == rhs.dims,
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); }
//@ ensures
    res.wf(), same_shape(&res, self), forall|r: int, c: int| inr(self, r, c) ==> #[trigger] res.at(r, c) == self.at(r, c) - rhs.at(r, c),
//@ loop 0
    acc0@.len() == k0, len0 == self.nr() * self.nc(),
    forall|k: int| 0 <= k < k0 ==> (#[trigger] acc0@[k]).r() == flat_at(self, k) - flat_at(rhs, k),
//@ tail
    proof { lem_flat(self.nr(), self.nc());
        assert forall|r: int, c: int| inr(self, r, c) implies #[trigger] ret_.at(r, c) == self.at(r, c) - rhs.at(r, c) by {
            assert(inr(&ret_, r, c)); lem_idx(r, c, self.nr(), self.nc()); lem_at(self.nc() * r + c, r, c, self.nr(), self.nc()); } }
//@ end
//@ fn AddAssign<f64> for LinearMatrix::add_assign
//@ sig
    fn v_add_f(&mut self, other: R)
//@ requires
    old(self).wf(),
//@ ensures
    final(self).wf(), same_shape(final(self), old(self)), forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) + other.r(),
//@ loop 0
    self.dims == old(self).dims, self.row_maj == old(self).row_maj, self.data@.len() == old(self).data@.len(), len0 == self.data@.len(),
    forall|k: int| 0 <= k < len0 ==> (#[trigger] self.data@[k]).r() == if k < k0 { old(self).data@[k].r() + other.r() } else { old(self).data@[k].r() },
//@ finish
    proof { assert forall|r: int, c: int| inr(old(self), r, c) implies #[trigger] self.at(r, c) == old(self).at(r, c) + other.r() by { lem_idx(r, c, self.nr(), self.nc()); lem_idx(c, r, self.nc(), self.nr()); assert(self.nr() * self.nc() == self.nc() * self.nr()) by (nonlinear_arith); } }
//@ end
//@ fn MulAssign<f64> for LinearMatrix::mul_assign
//@ sig
    fn v_mul_f(&mut self, other: R)
//@ requires
    old(self).wf(),
//@ ensures
    final(self).wf(), same_shape(final(self), old(self)), forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) * other.r(),
//@ loop 0
    self.dims == old(self).dims, self.row_maj == old(self).row_maj, self.data@.len() == old(self).data@.len(), len0 == self.data@.len(),
    forall|k: int| 0 <= k < len0 ==> (#[trigger] self.data@[k]).r() == if k < k0 { old(self).data@[k].r() * other.r() } else { old(self).data@[k].r() },
//@ finish
    proof { assert forall|r: int, c: int| inr(old(self), r, c) implies #[trigger] self.at(r, c) == old(self).at(r, c) * other.r() by { lem_idx(r, c, self.nr(), self.nc()); lem_idx(c, r, self.nc(), self.nr()); assert(self.nr() * self.nc() == self.nc() * self.nr()) by (nonlinear_arith); } }
//@ end
//@ fn AddAssign<Self> for LinearMatrix::add_assign
//@ sig
    fn v_add_m(&mut self, other: LinearMatrix)
//@ requires
    old(self).wf(), other.wf(), old(self).dims == other.dims,
//@ ensures
    final(self).wf(), same_shape(final(self), old(self)), forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) + other.at(r, c),
//@ loop 0
    self.dims == old(self).dims, self.row_maj == old(self).row_maj, self.data@.len() == old(self).data@.len(), len0 == self.data@.len(),
    forall|k: int| 0 <= k < len0 ==> (#[trigger] self.data@[k]).r() == if k < k0 { old(self).data@[k].r() + other.data@[k].r() } else { old(self).data@[k].r() },
//@ loop 0 before
    proof { assert(self.data@.len() == self.data.len() as int && other.data@.len() == other.data.len() as int); }
//@ loop 0 after
    proof { assert forall|r: int, c: int| inr(old(self), r, c) implies #[trigger] self.at(r, c) == old(self).at(r, c) + other.at(r, c) by { lem_idx(r, c, self.nr(), self.nc()); lem_idx(c, r, self.nc(), self.nr()); assert(self.nr() * self.nc() == self.nc() * self.nr()) by (nonlinear_arith); } }
//@ end
// operands whose shapes differ give no result
//@ fn Add<&LinearMatrix> for &LinearMatrix::add
//@ opt hidden
//@ refusal self.nr() == rhs.nr() && self.nc() == rhs.nc()
//@ sig
    fn v_add_any(&self, rhs: &LinearMatrix) -> (res: LinearMatrix)
//@ let acc0 : Vec<R>
//@ requires
    self.wf(), rhs.wf(),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); }
//@ ensures
    self.nr() == rhs.nr() && self.nc() == rhs.nc(),
//@ end
//@ fn Sub<&LinearMatrix> for &LinearMatrix::sub
//@ opt hidden
//@ refusal self.nr() == rhs.nr() && self.nc() == rhs.nc()
//@ sig
    fn v_sub_any(&self, rhs: &LinearMatrix) -> (res: LinearMatrix)
//@ let acc0 : Vec<R>
//@ requires
    self.wf(), rhs.wf(),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); }
//@ ensures
    self.nr() == rhs.nr() && self.nc() == rhs.nc(),
//@ end
//@ fn AddAssign<Self> for LinearMatrix::add_assign
//@ opt hidden
//@ refusal old(self).nr() == other.nr() && old(self).nc() == other.nc()
//@ sig
    fn v_add_m_any(&mut self, other: LinearMatrix)
//@ requires
    old(self).wf(), other.wf(),
//@ ensures
    old(self).nr() == other.nr() && old(self).nc() == other.nc(),
//@ end
}
pub trait MatrixArith: MatrixLike {
    fn v_frobenius(&self) -> (res: R)
        requires self.wf(), fits(self.nr(), self.nc()),
        ensures res.r() >= 0real, res.r() * res.r() == rsum(fsq(self), self.nr() * self.nc());
    fn v_mul_any<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> (res: U)
        requires self.wf(), other.wf(), fits(self.nr(), other.nc()), U::flat_ok(self.nr(), other.nc(), self.nr() * other.nc()),
        ensures self.nc() == other.nr();
    fn v_add_ass_any(&mut self, other: &Self)
        requires old(self).wf(), other.wf(), dense(old(self)),
        ensures old(self).nr() == other.nr(), old(self).nc() == other.nc();
    fn v_sub_ass_any(&mut self, other: &Self)
        requires old(self).wf(), other.wf(), dense(old(self)),
        ensures old(self).nr() == other.nr(), old(self).nc() == other.nc();
}
impl<M_: MatrixLike> MatrixArith for M_ {
//@ fn Norm for T::frobenius
//@ as v_frobenius
//@ sig
    fn v_frobenius(&self) -> (res: R)
//@ loop 0
    len0 == self.nr() * self.nc(), acc0.r() == rsum(fsq(self), k0 as int),
//@ after let sum
    proof { assert forall|k: int| #[trigger] fsq(self)(k) >= 0real by { let x = flat_at(self, k); assert(x * x >= 0real) by (nonlinear_arith); } lem_sq(self.nr() * self.nc(), fsq(self)); }
//@ end
//@ fn trait MatrixLike::mul
//@ opt hidden
//@ refusal self.nc() == other.nr()
//@ sig
    fn v_mul_any<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> (res: U)
//@ let res_vals : Vec<R>
//@ let acc2 : Vec<&R>
//@ let acc3 : Vec<&R>
//@ end
//@ fn trait MatrixLike::add_ass
//@ opt hidden
//@ refusal old(self).nr() == other.nr() && old(self).nc() == other.nc()
//@ as v_add_ass_any
//@ end
//@ fn trait MatrixLike::sub_ass
//@ opt hidden
//@ refusal old(self).nr() == other.nr() && old(self).nc() == other.nc()
//@ as v_sub_ass_any
//@ end
}
// ---- diagonal matrices
pub open spec fn nneg(d: &Diagonal, k: int) -> int decreases k { if k <= 0 { 0 } else { nneg(d, k - 1) + if d.at(k - 1, k - 1) < 0real { 1int } else { 0 } } }
impl Diagonal {
    pub open spec fn dv(&self) -> spec_fn(int) -> real { |k: int| self.at(k, k) }
//@ fn Diagonal::product -> res
//@ requires
   self.wf(),
//@ ensures
   res.r() == rprod(self.dv(), self.nr()),
//@ loop 0
    acc0.r() == rprod(self.dv(), k0 as int), len0 == self.data@.len(),
//@ end
//@ fn Diagonal::mean -> res
//@ requires
   self.wf(), self.nr() > 0,
//@ ensures
   res.r() * (self.nr() as real) == rsum(self.dv(), self.nr()),
//@ tail
    proof { let (x, y) = (acc0.r(), self.nr() as real); assert((x / y) * y == x) by (nonlinear_arith) requires y != 0real; }
//@ loop 0
    acc0.r() == rsum(self.dv(), k0 as int), len0 == self.data@.len(),
//@ end
//@ fn Diagonal::num_neg -> res
//@ requires
   self.wf(),
//@ ensures
   res == nneg(self, self.nr()),
//@ loop 0
    acc0 == nneg(self, k0 as int), len0 == self.data@.len(), acc0 <= k0,
//@ end
}
impl LowerRowEnvelope {
//@ fn LowerRowEnvelope::add_scaled_bienv
//@ requires
    old(self).wf(), bmat.wf(), old(self).n == bmat.n, forall|r: int| 0 <= r < bmat.n ==> #[trigger] bmat.sc(r) >= old(self).sc(r),
//@ ensures
    final(self).wf(), same_shape(final(self), old(self)), final(self).row_nnz == old(self).row_nnz,
    forall|r: int, c: int| inr(old(self), r, c) && c <= r ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) + bmat.at(r, c) * scale.r(),
//@ loop 0
    self.wf(), same_shape(self, old(self)), self.row_nnz == old(self).row_nnz, len0 == self.n,
    forall|r: int, c: int| inr(old(self), r, c) && c <= r ==> #[trigger] self.at(r, c) == old(self).at(r, c) + if r < k0 { bmat.at(r, c) * scale.r() } else { 0real },
//@ loop 0 start
    let ghost s0 = *self;
    proof { assert(bmat.sc(i0 as int) >= old(self).sc(i0 as int)); self.lem_in(i0 as int); bmat.lem_in(i0 as int); }
//@ before let offset
    let ghost r0 = s_row@;
//@ loop 1
    s_row@.len() == r0.len(), forall|k: int| 0 <= k < r0.len() ==> (#[trigger] s_row@[k]).r() == r0[k].r() + if offset <= k < offset + k1 { b_row@[k - offset].r() * scale.r() } else { 0real },
//@ loop 0 end
    proof {
        assert(0real * scale.r() == 0real) by (nonlinear_arith);
        assert forall|r: int, c: int| inr(old(self), r, c) && c <= r implies #[trigger] self.at(r, c) == old(self).at(r, c) + if r < k0 { bmat.at(r, c) * scale.r() } else { 0real } by {
            assert(s0.at(r, c) == old(self).at(r, c) + if r < i0 { bmat.at(r, c) * scale.r() } else { 0real });
            if r == i0 {
                if s0.has(r, c) {
                    let k = c - s0.sc(r);
                    assert(r0[k].r() == s0.at(r, c));
                    assert(bmat.ec(r) <= bmat.n);
                    if bmat.has(r, c) { assert(b_row@[k - offset].r() == bmat.at(r, c)); }
                } else { assert(!bmat.has(r, c)); assert(self.sc(r) == s0.sc(r)); assert(!self.has(r, c)); }
            }
        }
    }
//@ end
}
impl BiEnvelope {
    pub open spec fn rowdot(&self, x: Seq<R>, r: int) -> spec_fn(int) -> real { |j: int| self.at(r, j) * x[j].r() }
    pub proof fn lem_zero(&self, x: Seq<R>, r: int, a: int, b: int)
        requires 0 <= a <= b, forall|j: int| a <= j < b ==> !self.has(r, j),
        ensures rsum(self.rowdot(x, r), b) == rsum(self.rowdot(x, r), a),
        decreases b - a,
    { if a < b { self.lem_zero(x, r, a, b - 1); assert(self.at(r, b - 1) == 0real); let y = x[b - 1].r(); assert(0real * y == 0real) by (nonlinear_arith); } }
    pub proof fn lem_zero0(&self, x: Seq<R>, r: int, a: int)
        requires 0 <= a, forall|j: int| 0 <= j < a ==> !self.has(r, j),
        ensures rsum(self.rowdot(x, r), a) == 0real,
    { self.lem_zero(x, r, 0, a); }
//@ fn BiEnvelope::mul_vec
//@ requires
    self.wf(), x@.len() == self.n, old(y)@.len() == self.n,
//@ ensures
    final(y)@.len() == self.n, forall|r: int| 0 <= r < self.n ==> (#[trigger] final(y)@[r]).r() == rsum(self.rowdot(x@, r), self.n as int),
//@ start
    let ghost xs = x@;
//@ loop 0
    y@.len() == self.n, len0 == self.n, forall|r: int| 0 <= r < k0 ==> (#[trigger] y@[r]).r() == rsum(self.rowdot(xs, r), self.n as int),
//@ loop 0 start
    proof { self.lem_in(i0 as int); self.lem_zero0(xs, i0 as int, self.sc(i0 as int)); }
//@ loop 1
    acc1.r() == rsum(self.rowdot(xs, row as int), start_col + k1), len1 == self.ec(row as int) - start_col,
//@ loop 1 end
    proof { assert(b.r() == self.at(row as int, start_col + i1)); assert(x.r() == xs[start_col + i1].r()); let (p, q) = (x.r(), b.r()); assert(p * q == q * p) by (nonlinear_arith); }
//@ loop 1 after
    proof { self.lem_zero(xs, row as int, self.ec(row as int), self.n as int); }
//@ end
}
impl CompressedRow {
    pub open spec fn seen_c(&self, r: int, j: int, i: int) -> bool { exists|q: int| self.st(r) <= q < i && #[trigger] self.col_indices@[q] == j }
    pub open spec fn cterm<T: MatSpec>(&self, o: &T, r: int, c: int, i: int) -> spec_fn(int) -> real { |j: int| if self.seen_c(r, j, i) { self.at(r, j) * o.at(j, c) } else { 0real } }
    pub proof fn lem_c0<T: MatSpec>(&self, o: &T, r: int, c: int, n: int)
        ensures rsum(self.cterm(o, r, c, self.st(r)), n) == 0real,
        decreases n,
    { if n > 0 { self.lem_c0(o, r, c, n - 1); assert(!self.seen_c(r, n - 1, self.st(r))); } }
    pub proof fn lem_c1<T: MatSpec>(&self, o: &T, r: int, c: int, i: int)
        requires self.wf(), 0 <= r < self.nr(), self.st(r) <= i < self.en(r),
        ensures rsum(self.cterm(o, r, c, i + 1), self.nc()) == rsum(self.cterm(o, r, c, i), self.nc()) + self.data@[i].r() * o.at(self.col_indices@[i] as int, c),
    {
        let jj = self.col_indices@[i] as int;
        assert(self.is_at(r, jj, i)); self.lem_only(r, jj, i);
        let f = self.cterm(o, r, c, i); let g = self.cterm(o, r, c, i + 1);
        if self.seen_c(r, jj, i) { let q = choose|q: int| self.st(r) <= q < i && #[trigger] self.col_indices@[q] == jj; assert(self.st(r) <= q < i); assert(self.col_indices@[q] != self.col_indices@[i]); }
        assert forall|j: int| 0 <= j < self.nc() implies #[trigger] g(j) == if j == jj { f(j) + self.data@[i].r() * o.at(jj, c) } else { f(j) } by {
            if self.seen_c(r, j, i) { let q = choose|q: int| self.st(r) <= q < i && #[trigger] self.col_indices@[q] == j; assert(self.seen_c(r, j, i + 1)); }
            else if self.seen_c(r, j, i + 1) { let q = choose|q: int| self.st(r) <= q < i + 1 && #[trigger] self.col_indices@[q] == j; assert(q == i); }
            if j == jj { assert(self.seen_c(r, j, i + 1)) by { assert(self.col_indices@[i] == j); } }
        }
        lem_rsum_bump(f, g, self.nc(), jj, self.data@[i].r() * o.at(jj, c));
    }
    pub proof fn lem_c2<T: MatSpec>(&self, o: &T, r: int, c: int)
        requires self.wf(), 0 <= r < self.nr(),
        ensures rsum(self.cterm(o, r, c, self.en(r)), self.nc()) == mat_dot(self, o, r, c),
    {
        let f = self.cterm(o, r, c, self.en(r)); let g = |j: int| self.at(r, j) * o.at(j, c);
        assert forall|j: int| 0 <= j < self.nc() implies f(j) == #[trigger] g(j) by {
            if self.seen_c(r, j, self.en(r)) { } else {
                if self.has(r, j) { let i = self.idx(r, j); assert(self.is_at(r, j, i)); }
                let y = o.at(j, c); assert(0real * y == 0real) by (nonlinear_arith); }
        }
        rsum_eq(f, g, self.nc());
    }
//@ fn MatrixLike for CompressedRow::mul
//@ sig
    fn v_mul<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> (res: U)
//@ let res_vals : Vec<R>
//@ requires
    self.wf(), other.wf(), self.nc() == other.nr(), fits(self.nr(), other.nc()), U::flat_ok(self.nr(), other.nc(), self.nr() * other.nc()),
//@ ensures
    res.wf(), res.nr() == self.nr(), res.nc() == other.nc(),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == mat_dot(self, other, r, c),
//@ loop 0
    self.wf(), other.wf(), res_shape.0 == self.nr(), res_shape.1 == other.nc(),
    res_vals@.len() == k0 * res_shape.1,
    forall|r: int, c: int| 0 <= r < k0 && 0 <= c < res_shape.1 ==> #[trigger] res_vals@[res_shape.1 * r + c].r() == mat_dot(self, other, r, c),
//@ loop 0 start
    let ghost v0 = res_vals@;
    proof { assert(self.data@.len() == self.data.len() as int); assert(0 <= self.st(i0 as int) <= self.en(i0 as int) <= self.nz_count); lem_flat(k0 as int, other.nc()); assert(i0 * res_shape.1 + res_shape.1 == k0 * res_shape.1) by (nonlinear_arith) requires k0 == i0 + 1; assert(i0 * res_shape.1 == res_shape.1 * i0) by (nonlinear_arith); }
//@ loop 1
    self.wf(), other.wf(), res_shape.0 == self.nr(), res_shape.1 == other.nc(),
    res_vals@.len() == i0 * res_shape.1 + k1,
    forall|k: int| 0 <= k < v0.len() ==> #[trigger] res_vals@[k] == v0[k],
    forall|c: int| 0 <= c < k1 ==> #[trigger] res_vals@[res_shape.1 * i0 + c].r() == mat_dot(self, other, i0 as int, c),
//@ loop 1 start
    proof { self.lem_c0(other, i0 as int, i1 as int, self.nc()); self.lem_c2(other, i0 as int, i1 as int); }
//@ loop 2
    len2 == self.en(i0 as int) - self.st(i0 as int), row_begin == self.st(i0 as int), row_end == self.en(i0 as int),
    acc2.r() == rsum(self.cterm(other, i0 as int, i1 as int, row_begin + k2), self.nc()),
//@ loop 2 start
    proof { self.lem_c1(other, i0 as int, i1 as int, row_begin + i2); }
//@ loop 0 end
    proof { assert forall|r: int, c: int| 0 <= r < k0 && 0 <= c < res_shape.1 implies #[trigger] res_vals@[res_shape.1 * r + c].r() == mat_dot(self, other, r, c) by {
        if r < i0 { assert(res_shape.1 * r + c < v0.len()) by { lem_idx(r, c, i0 as int, res_shape.1 as int); } assert(res_vals@[res_shape.1 * r + c] == v0[res_shape.1 * r + c]); } } }
//@ tail
    proof { lem_flat(self.nr(), other.nc()); }
//@ end
//@ fn MatrixLike for CompressedRow::mul
//@ opt hidden
//@ refusal self.nc() == other.nr()
//@ sig
    fn v_mul_any<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> (res: U)
//@ let res_vals : Vec<R>
//@ requires
    self.wf(), other.wf(), fits(self.nr(), other.nc()), U::flat_ok(self.nr(), other.nc(), self.nr() * other.nc()),
//@ ensures
    self.nc() == other.nr(),
//@ end
}
impl Dictionary {
//@ fn Dictionary::mul_dict -> res
//@ opt hidden
//@ refusal self.nc() == other.nr()
//@ as mul_dict_any
//@ let other_row_slices : Vec<&[((usize, usize), R)]>
//@ let cur_start : usize
//@ let sort0 : |q0: &((usize, usize), R)| -> (o: usize) ensures o == q0.0.0
//@ requires
    self.wf(), other.wf(),
//@ ensures
    self.nc() == other.nr(),
//@ loop 2
    true,
    decreases 0int,
//@ end
}
}
