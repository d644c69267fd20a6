//@ include prelude.rs
verus! {
// ---- shapes
//@ struct MatrixShape #[derive(Clone, Copy)]
pub open spec fn sq(n: int) -> (int, int) { (n, n) }
impl MatrixShape {
    pub open spec fn r(&self) -> int { self.nrow as int }
    pub open spec fn c(&self) -> int { self.ncol as int }
    pub open spec fn ok(&self) -> bool { self.max_dim as int == if self.nrow >= self.ncol { self.nrow as int } else { self.ncol as int } }
//@ fn MatrixShape::to_rc -> res
//@ ensures
    res.0 == self.nrow, res.1 == self.ncol,
//@ end
}
// s_ok: the larger dimension is recorded right, as every shape the code builds has it
pub trait VIntoShape: Sized { spec fn sr(self) -> int; spec fn sc(self) -> int; spec fn s_ok(self) -> bool;
    fn v_into(self) -> (res: MatrixShape) ensures self.s_ok() ==> res.ok(), res.r() == self.sr(), res.c() == self.sc(); }
//@ call max vmax_
pub fn vmax_(a: usize, b: usize) -> (res: usize) ensures res == if a >= b { a } else { b } { if a >= b { a } else { b } }
impl VIntoShape for (usize, usize) {
    open spec fn sr(self) -> int { self.0 as int }
    open spec fn sc(self) -> int { self.1 as int }
    open spec fn s_ok(self) -> bool { true }
//@ fn From<(usize,usize)> for MatrixShape::from
//@ sig
    fn v_into(self) -> (res: MatrixShape)
//@ start
    let dims = self;
//@ end
}
impl VClone for MatrixShape { fn v_clone(&self) -> (res: Self) { *self } }
impl VIntoShape for MatrixShape {
    open spec fn sr(self) -> int { self.nrow as int }
    open spec fn sc(self) -> int { self.ncol as int }
    open spec fn s_ok(self) -> bool { self.ok() }
    fn v_into(self) -> (res: MatrixShape) { self }
}
impl VIntoShape for usize {
    open spec fn sr(self) -> int { self as int }
    open spec fn sc(self) -> int { self as int }
    open spec fn s_ok(self) -> bool { true }
//@ fn From<usize> for MatrixShape::from
//@ sig
    fn v_into(self) -> (res: MatrixShape)
//@ start
    let dim = self;
//@ end
}
// ---- what a matrix is: a shape, a value at every position of it, and which positions can be written
pub trait MatSpec: Sized {
    spec fn wf(&self) -> bool;
    spec fn nr(&self) -> int;
    spec fn nc(&self) -> int;
    spec fn at(&self, r: int, c: int) -> real;
    spec fn writable(&self, r: int, c: int) -> bool;
    // which shapes the kind can have, and which lists of values
    spec fn zeros_ok(nr: int, nc: int) -> bool;
    spec fn zdim(nr: int, nc: int) -> (int, int);
    spec fn zwr(r: int, c: int) -> bool;
    spec fn flat_ok(nr: int, nc: int, len: int) -> bool;
    spec fn can_transpose() -> bool;
    proof fn lem_dims(&self)
        requires self.wf(),
        ensures 0 <= self.nr() < usize::MAX, 0 <= self.nc() < usize::MAX;
}
pub open spec fn inr<M: MatSpec>(m: &M, r: int, c: int) -> bool { 0 <= r < m.nr() && 0 <= c < m.nc() }
pub open spec fn same_shape<M: MatSpec>(a: &M, b: &M) -> bool { a.nr() == b.nr() && a.nc() == b.nc() && (forall|r: int, c: int| inr(a, r, c) ==> #[trigger] a.writable(r, c) == b.writable(r, c)) }
pub open spec fn framed<M: MatSpec>(a: &M, b: &M, r0: int, c0: int) -> bool {
    forall|r: int, c: int| (r != r0 || c != c0) && inr(a, r, c) ==> #[trigger] a.at(r, c) == b.at(r, c)
}
pub open spec fn dense<M: MatSpec>(m: &M) -> bool { forall|r: int, c: int| inr(m, r, c) ==> #[trigger] m.writable(r, c) }
pub open spec fn same_mat<A: MatSpec, B: MatSpec>(a: &A, b: &B) -> bool { a.nr() == b.nr() && a.nc() == b.nc() && forall|r: int, c: int| inr(a, r, c) ==> #[trigger] a.at(r, c) == b.at(r, c) }
pub open spec fn fits(nr: int, nc: int) -> bool { nr * nc <= usize::MAX && nr < usize::MAX && nc < usize::MAX }

pub trait MatrixLike: MatSpec {
    fn shape(&self) -> (res: (usize, usize))
        requires self.wf(),
        ensures res.0 == self.nr(), res.1 == self.nc();
    fn get(&self, loc: (usize, usize)) -> (res: Option<&R>)
        requires self.wf(),
        ensures match res {
            Some(x) => inr(self, loc.0 as int, loc.1 as int) && x.r() == self.at(loc.0 as int, loc.1 as int),
            None => !inr(self, loc.0 as int, loc.1 as int) };
    fn get_mut(&mut self, loc: (usize, usize)) -> (res: Option<&mut R>)
        requires old(self).wf(),
        ensures final(self).wf(), same_shape(final(self), old(self)), framed(final(self), old(self), loc.0 as int, loc.1 as int),
            match res {
                Some(x) => inr(old(self), loc.0 as int, loc.1 as int) && old(self).writable(loc.0 as int, loc.1 as int)
                    && x.r() == old(self).at(loc.0 as int, loc.1 as int) && final(x).r() == final(self).at(loc.0 as int, loc.1 as int),
                None => !(inr(old(self), loc.0 as int, loc.1 as int) && old(self).writable(loc.0 as int, loc.1 as int))
                    && final(self).at(loc.0 as int, loc.1 as int) == old(self).at(loc.0 as int, loc.1 as int) };
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
        requires self.wf(), inr(self, loc.0 as int, loc.1 as int),
        ensures res.r() == self.at(loc.0 as int, loc.1 as int);
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
        requires old(self).wf(), inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
        ensures final(self).wf(), same_shape(final(self), old(self)), framed(final(self), old(self), loc.0 as int, loc.1 as int),
            res.r() == old(self).at(loc.0 as int, loc.1 as int), final(res).r() == final(self).at(loc.0 as int, loc.1 as int);
    fn transpose(&mut self)
        requires old(self).wf(), Self::can_transpose(),
        ensures final(self).wf(), final(self).nr() == old(self).nc(), final(self).nc() == old(self).nr(),
            forall|r: int, c: int| inr(final(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(c, r) && final(self).writable(r, c) == old(self).writable(c, r);
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
        requires shape.s_ok(), Self::zeros_ok(shape.sr(), shape.sc()),
        ensures res.wf(), (res.nr(), res.nc()) == Self::zdim(shape.sr(), shape.sc()),
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == 0real,
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.writable(r, c) == Self::zwr(r, c);
    fn from_flat<S: VIntoShape>(shape: S, data: Vec<R>) -> (res: Self)
        requires shape.s_ok(), Self::flat_ok(shape.sr(), shape.sc(), data@.len() as int),
        ensures res.wf(), res.nr() == shape.sr(), res.nc() == shape.sc(),
            forall|r: int, c: int| inr(&res, r, c) ==> 0 <= res.nc() * r + c < data@.len() && #[trigger] res.at(r, c) == data@[res.nc() * r + c].r();
}

// ---- positions in a flat list
pub proof fn lem_idx(r: int, c: int, nr: int, nc: int) by (nonlinear_arith) requires 0 <= r < nr, 0 <= c < nc ensures 0 <= nc * r, 0 <= nc * r + c < nr * nc {}
pub proof fn lem_inj(r: int, c: int, r2: int, c2: int, nc: int)
    requires 0 <= c < nc, 0 <= c2 < nc, nc * r + c == nc * r2 + c2,
    ensures r == r2, c == c2,
{
    if r < r2 { assert(nc * r2 >= nc * r + nc) by (nonlinear_arith) requires r + 1 <= r2, nc > 0; }
    if r2 < r { assert(nc * r >= nc * r2 + nc) by (nonlinear_arith) requires r2 + 1 <= r, nc > 0; }
}
pub proof fn lem_flat(nr: int, nc: int)
    ensures
        forall|r: int, c: int| 0 <= r < nr && 0 <= c < nc ==> 0 <= #[trigger] (nc * r + c) < nr * nc,
        forall|r: int, c: int, r2: int, c2: int| 0 <= c < nc && 0 <= c2 < nc && (r != r2 || c != c2) ==> #[trigger] (nc * r + c) != #[trigger] (nc * r2 + c2),
{
    assert forall|r: int, c: int| 0 <= r < nr && 0 <= c < nc implies 0 <= #[trigger] (nc * r + c) < nr * nc by { lem_idx(r, c, nr, nc); }
    assert forall|r: int, c: int, r2: int, c2: int| 0 <= c < nc && 0 <= c2 < nc && (r != r2 || c != c2) implies #[trigger] (nc * r + c) != #[trigger] (nc * r2 + c2) by {
        if nc * r + c == nc * r2 + c2 { lem_inj(r, c, r2, c2, nc); }
    }
}

// ---- the dense matrix
//@ struct LinearMatrix
impl MatSpec for LinearMatrix {
    open spec fn wf(&self) -> bool { self.data@.len() == self.dims.0 * self.dims.1 && self.dims.0 < usize::MAX && self.dims.1 < usize::MAX }
    open spec fn nr(&self) -> int { self.dims.0 as int }
    open spec fn nc(&self) -> int { self.dims.1 as int }
    open spec fn at(&self, r: int, c: int) -> real { if self.row_maj { self.data@[self.dims.1 * r + c].r() } else { self.data@[self.dims.0 * c + r].r() } }
    open spec fn writable(&self, r: int, c: int) -> bool { true }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { fits(nr, nc) }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { true }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { nr * nc == len && fits(nr, nc) }
    open spec fn can_transpose() -> bool { true }
    proof fn lem_dims(&self) {}
}
impl LinearMatrix {
//@ fn LinearMatrix::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        None => !inr(self, loc.0 as int, loc.1 as int),
        Some(i) => inr(self, loc.0 as int, loc.1 as int) && i < self.data@.len()
            && i == (if self.row_maj { self.dims.1 * loc.0 + loc.1 } else { self.dims.0 * loc.1 + loc.0 }) },
//@ start
    proof { assert(self.data@.len() == self.data.len() as int);
        if inr(self, loc.0 as int, loc.1 as int) { lem_idx(loc.0 as int, loc.1 as int, self.nr(), self.nc()); lem_idx(loc.1 as int, loc.0 as int, self.nc(), self.nr()); }
        assert(self.dims.0 * self.dims.1 == self.dims.1 * self.dims.0) by (nonlinear_arith); }
//@ end
}
impl MatrixLike for LinearMatrix {
//@ fn MatrixLike for LinearMatrix::shape
//@ end
//@ fn MatrixLike for LinearMatrix::get
//@ end
//@ fn MatrixLike for LinearMatrix::get_mut
//@ start
    proof { lem_flat(self.nr(), self.nc()); lem_flat(self.nc(), self.nr()); }
//@ end
//@ fn Index<(usize,usize)> for LinearMatrix::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for LinearMatrix::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { lem_flat(self.nr(), self.nc()); lem_flat(self.nc(), self.nr()); }
//@ end
//@ fn MatrixLike for LinearMatrix::transpose
//@ start
    proof { assert(self.dims.0 * self.dims.1 == self.dims.1 * self.dims.0) by (nonlinear_arith); }
//@ end
//@ fn MatrixLike for LinearMatrix::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ tail
    proof { lem_flat(ret_.nr(), ret_.nc()); }
//@ end
//@ fn MatrixLike for LinearMatrix::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(shape: S, data: Vec<R>) -> (res: Self)
//@ ensures
    res.row_maj,
//@ start
    let ghost d0 = data@;
//@ loop 0
    acc0@.len() == k0, forall|k: int| 0 <= k < k0 ==> acc0@[k] == data@[k], data@ == d0,
//@ tail
    proof { lem_flat(ret_.nr(), ret_.nc()); }
//@ end
}
}
verus! {
// ---- iteration: what each call of next gives
//@ struct MatrixRow
//@ struct MatrixCol
//@ struct MatrixDiag
//@ struct MatrixAll
//@ struct MatrixIndices

pub open spec fn opt_at<M: MatSpec>(m: &M, r: int, c: int, x: Option<&R>) -> bool {
    match x { Some(v) => inr(m, r, c) && v.r() == m.at(r, c), None => !inr(m, r, c) }
}
impl<'a, T: MatrixLike> MatrixRow<'a, T> {
//@ fn Iterator for MatrixRow<T>::next -> res
//@ requires
    old(self).source.wf(), old(self).pos < usize::MAX,
//@ ensures
    final(self).source == old(self).source, final(self).row == old(self).row, final(self).pos == old(self).pos + 1,
    opt_at(old(self).source, old(self).row as int, old(self).pos as int, res),
//@ end
}
impl<'a, T: MatrixLike> MatrixCol<'a, T> {
//@ fn Iterator for MatrixCol<T>::next -> res
//@ requires
    old(self).source.wf(), old(self).pos < usize::MAX,
//@ ensures
    final(self).source == old(self).source, final(self).col == old(self).col, final(self).pos == old(self).pos + 1,
    opt_at(old(self).source, old(self).pos as int, old(self).col as int, res),
//@ end
}
impl<'a, T: MatrixLike> MatrixDiag<'a, T> {
//@ fn Iterator for MatrixDiag<T>::next -> res
//@ requires
    old(self).source.wf(), old(self).pos < usize::MAX,
//@ ensures
    final(self).source == old(self).source, final(self).pos == old(self).pos + 1,
    opt_at(old(self).source, old(self).pos as int, old(self).pos as int, res),
//@ end
}
impl<'a, T: MatrixLike> MatrixAll<'a, T> {
//@ fn MatrixAll<T>::new -> res
//@ ensures
    res.source == source, res.row == 0, res.col == 0,
//@ end
//@ fn Iterator for MatrixAll<T>::next -> res
//@ requires
    old(self).source.wf(), old(self).row < usize::MAX, old(self).col == 0 || old(self).col < old(self).source.nc(),
//@ ensures
    final(self).source == old(self).source,
    opt_at(old(self).source, old(self).row as int, old(self).col as int, res),
    final(self).row as int == if old(self).col + 1 >= old(self).source.nc() { old(self).row + 1 } else { old(self).row as int },
    final(self).col as int == if old(self).col + 1 >= old(self).source.nc() { 0 } else { old(self).col + 1 },
//@ start
    proof { self.source.lem_dims(); }
//@ end
}
impl MatrixIndices {
    pub open spec fn ok(&self) -> bool { self.r < self.rows && self.cols > 0 ==> self.c < self.cols }
//@ fn MatrixIndices::new -> res
//@ requires
    source.wf(),
//@ ensures
    res.rows == source.nr(), res.cols == source.nc(), res.r == 0, res.c == 0,
//@ end
//@ fn Iterator for MatrixIndices::next -> res
//@ sig
    fn next(&mut self) -> (res: Option<(usize, usize)>)
//@ requires
    old(self).ok(),
//@ ensures
    final(self).ok(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
    old(self).r < old(self).rows && old(self).cols > 0 ==> {
        &&& res == Some((old(self).r, old(self).c))
        &&& final(self).r as int == if old(self).c + 1 >= old(self).cols { old(self).r + 1 } else { old(self).r as int }
        &&& final(self).c as int == if old(self).c + 1 >= old(self).cols { 0 } else { old(self).c + 1 }
    },
    !(old(self).r < old(self).rows && old(self).cols > 0) ==> res is None && *final(self) == *old(self),
//@ end
}

// ---- sums
pub trait VList<'a>: Sized { spec fn rv(&self) -> Seq<real>;
    fn v_list(self) -> (res: Vec<&'a R>) ensures res@.len() == self.rv().len(), forall|k: int| 0 <= k < res@.len() ==> (#[trigger] res@[k]).r() == self.rv()[k]; }
impl<'a> VList<'a> for Vec<&'a R> {
    open spec fn rv(&self) -> Seq<real> { Seq::new(self@.len(), |k: int| self@[k].r()) }
    fn v_list(self) -> (res: Vec<&'a R>) { self }
}
impl<'a> VList<'a> for &'a Vec<R> {
    open spec fn rv(&self) -> Seq<real> { Seq::new(self@.len(), |k: int| self@[k].r()) }
    fn v_list(self) -> (res: Vec<&'a R>) {
        let mut v: Vec<&R> = Vec::new();
        let mut i = 0;
        while i < self.len() invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).r() == self.rv()[k], decreases self@.len() - i { v.push(&self[i]); i = i + 1; }
        v
    }
}
impl<'a> VList<'a> for &'a [R] {
    open spec fn rv(&self) -> Seq<real> { Seq::new(self@.len(), |k: int| self@[k].r()) }
    fn v_list(self) -> (res: Vec<&'a R>) {
        let mut v: Vec<&R> = Vec::new();
        let mut i = 0;
        while i < self.len() invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).r() == self.rv()[k], decreases self@.len() - i { v.push(&self[i]); i = i + 1; }
        v
    }
}
//@ fn matrix::dot -> res
//@ sig
pub fn dot<'a, T: VList<'a>, U: VList<'a>>(x: T, y: U) -> (res: R)
//@ ensures
    res.r() == rsum(|k: int| x.rv()[k] * y.rv()[k], if x.rv().len() <= y.rv().len() { x.rv().len() as int } else { y.rv().len() as int }),
//@ start
    let ghost gx = x.rv(); let ghost gy = y.rv();
    let x = x.v_list();
    let y = y.v_list();
//@ loop 0
    acc0.r() == rsum(|k: int| gx[k] * gy[k], k0 as int),
//@ end
pub open spec fn mat_dot<A: MatSpec, B: MatSpec>(a: &A, b: &B, r: int, c: int) -> real { rsum(|j: int| a.at(r, j) * b.at(j, c), a.nc()) }
pub open spec fn nz_ok<M: MatSpec>(m: &M, e: ((usize, usize), R)) -> bool { inr(m, e.0.0 as int, e.0.1 as int) && e.1.r() == m.at(e.0.0 as int, e.0.1 as int) && e.1.r() != 0real }
pub open spec fn listed(s: Seq<((usize, usize), R)>, r: int, c: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.0 == r && s[k].0.1 == c }
// every nonzero entry exactly once, with its value
pub open spec fn nz_list<M: MatSpec>(m: &M, s: Seq<((usize, usize), R)>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] nz_ok(m, s[k])
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> #[trigger] s[k].0 != #[trigger] s[l].0
    &&& forall|r: int, c: int| inr(m, r, c) && #[trigger] m.at(r, c) != 0real ==> listed(s, r, c)
}
pub proof fn lem_divmod(i: int, nr: int, nc: int)
    requires 0 <= i < nr * nc, nr >= 0, nc >= 0,
    ensures nc > 0, 0 <= i / nc < nr, 0 <= i % nc < nc, nc * (i / nc) + i % nc == i,
{
    assert(nc > 0) by (nonlinear_arith) requires i < nr * nc, nc >= 0, i >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, nc);
    vstd::arithmetic::div_mod::lemma_mod_bound(i, nc);
    assert(i / nc >= 0) by (nonlinear_arith) requires i >= 0, nc > 0;
    assert(i / nc < nr) by (nonlinear_arith) requires nc * (i / nc) + i % nc == i, i % nc >= 0, i < nr * nc, nc > 0;
}

pub proof fn lem_neg(s: real)
    ensures forall|x: R| #![trigger x.r()] x.r() == -1real ==> x.r() * s == -s && s * x.r() == -s,
{
    assert forall|x: R| #![trigger x.r()] x.r() == -1real implies x.r() * s == -s && s * x.r() == -s by { let y = x.r(); assert(y * s == -s && s * y == -s) by (nonlinear_arith) requires y == -1real; }
}
// ---- everything a matrix can do once it can be read and written
//@ overrides Dictionary::nzs CompressedRow::mul
//@ seq row ref
//@ seq col ref
//@ seq diag ref
//@ seq flat ref
//@ seq indices val
pub trait MatrixOps: MatrixLike {
    fn put(&mut self, loc: (usize, usize), val: R)
        requires old(self).wf(),
        ensures final(self).wf(), same_shape(final(self), old(self)), framed(final(self), old(self), loc.0 as int, loc.1 as int),
            final(self).at(loc.0 as int, loc.1 as int) == if inr(old(self), loc.0 as int, loc.1 as int) && old(self).writable(loc.0 as int, loc.1 as int) { val.r() } else { old(self).at(loc.0 as int, loc.1 as int) };
    fn add_ass(&mut self, other: &Self)
        requires old(self).wf(), other.wf(), old(self).nr() == other.nr(), old(self).nc() == other.nc(), dense(old(self)),
        ensures final(self).wf(), same_shape(final(self), old(self)),
            forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) + other.at(r, c);
    fn sub_ass(&mut self, other: &Self)
        requires old(self).wf(), other.wf(), old(self).nr() == other.nr(), old(self).nc() == other.nc(), dense(old(self)),
        ensures final(self).wf(), same_shape(final(self), old(self)),
            forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c) - other.at(r, c);
    fn row(&self, i: usize) -> (res: MatrixRow<Self>)
        requires self.wf(), i < self.nr(),
        ensures res.source == self, res.row == i, res.pos == 0;
    fn col(&self, i: usize) -> (res: MatrixCol<Self>)
        requires self.wf(), i < self.nc(),
        ensures res.source == self, res.col == i, res.pos == 0;
    fn diag(&self) -> (res: MatrixDiag<Self>)
        requires self.wf(),
        ensures res.source == self, res.pos == 0;
    fn flat(&self) -> (res: MatrixAll<Self>)
        requires self.wf(),
        ensures res.source == self, res.row == 0, res.col == 0;
    fn indices(&self) -> (res: MatrixIndices)
        requires self.wf(),
        ensures res.rows == self.nr(), res.cols == self.nc(), res.r == 0, res.c == 0;
    fn set_row(&mut self, i: usize, new: Vec<R>)
        requires old(self).wf(), new@.len() == old(self).nc(), old(self).nc() > 0 ==> i < old(self).nr(), dense(old(self)),
        ensures final(self).wf(), same_shape(final(self), old(self)),
            forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == if r == i { new@[c].r() } else { old(self).at(r, c) };
    fn set_col(&mut self, i: usize, new: Vec<R>)
        requires old(self).wf(), new@.len() == old(self).nr(), old(self).nr() > 0 ==> i < old(self).nc(), dense(old(self)),
        ensures final(self).wf(), same_shape(final(self), old(self)),
            forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == if c == i { new@[r].r() } else { old(self).at(r, c) };
    fn swap_rows(&mut self, i: usize, j: usize)
        requires old(self).wf(), old(self).nc() > 0 ==> i < old(self).nr() && j < old(self).nr(), dense(old(self)),
        ensures final(self).wf(), same_shape(final(self), old(self)),
            forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(if r == i { j as int } else if r == j { i as int } else { r }, c);
    fn swap_cols(&mut self, i: usize, j: usize)
        requires old(self).wf(), old(self).nr() > 0 ==> i < old(self).nc() && j < old(self).nc(), dense(old(self)),
        ensures final(self).wf(), same_shape(final(self), old(self)),
            forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] final(self).at(r, c) == old(self).at(r, if c == i { j as int } else if c == j { i as int } else { c });
    fn eye<S: VIntoShape>(dim: S) -> (res: Self)
        requires dim.s_ok(), ({ let n = if dim.sr() >= dim.sc() { dim.sr() } else { dim.sc() }; Self::zeros_ok(n, n) && Self::zdim(n, n) == (n, n) }), forall|i: int| #[trigger] Self::zwr(i, i),
        ensures res.wf(), res.nr() == if dim.sr() >= dim.sc() { dim.sr() } else { dim.sc() }, res.nc() == res.nr(),
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if r == c { 1real } else { 0real },
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.writable(r, c) == Self::zwr(r, c);
    fn rotation(n: usize, a_idx: usize, b_idx: usize, theta: R) -> (res: Self)
        requires a_idx < n, b_idx < n, a_idx != b_idx, Self::zeros_ok(n as int, n as int), Self::zdim(n as int, n as int) == (n as int, n as int), forall|i: int, j: int| #[trigger] Self::zwr(i, j),
        ensures res.wf(), res.nr() == n, res.nc() == n,
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == (
                if r == a_idx && c == a_idx || r == b_idx && c == b_idx { rcos(theta.r()) }
                else if r == a_idx && c == b_idx { -rsin(theta.r()) }
                else if r == b_idx && c == a_idx { rsin(theta.r()) }
                else if r == c { 1real } else { 0real });
    fn row_vec(data: Vec<R>) -> (res: Self)
        requires Self::flat_ok(1, data@.len() as int, data@.len() as int),
        ensures res.wf(), res.nr() == 1, res.nc() == data@.len(), forall|c: int| 0 <= c < data@.len() ==> #[trigger] res.at(0, c) == data@[c].r();
    fn col_vec(data: Vec<R>) -> (res: Self)
        requires Self::flat_ok(1, data@.len() as int, data@.len() as int), Self::can_transpose(),
        ensures res.wf(), res.nc() == 1, res.nr() == data@.len(), forall|r: int| 0 <= r < data@.len() ==> #[trigger] res.at(r, 0) == data@[r].r();
    fn from_rows(data: Vec<Vec<R>>) -> (res: Self)
        requires data@.len() > 0, forall|r: int| 0 <= r < data@.len() ==> (#[trigger] data@[r])@.len() == data@[0]@.len(),
            data@.len() * data@[0]@.len() <= usize::MAX,
            Self::flat_ok(data@.len() as int, data@[0]@.len() as int, (data@.len() * data@[0]@.len()) as int),
        ensures res.wf(), res.nr() == data@.len(), res.nc() == data@[0]@.len(),
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == data@[r]@[c].r();
    fn nzs(&self) -> (res: Vec<((usize, usize), R)>)
        requires self.wf(), fits(self.nr(), self.nc()),
        ensures nz_list(self, res@);
    fn mul<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> (res: U)
        requires self.wf(), other.wf(), self.nc() == other.nr(), fits(self.nr(), other.nc()), U::flat_ok(self.nr(), other.nc(), self.nr() * other.nc()),
        ensures res.wf(), res.nr() == self.nr(), res.nc() == other.nc(),
            forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == mat_dot(self, other, r, c);
    // the iterators, as the code that consumes them sees them
    fn row_len(&self, i: usize) -> (res: usize) requires self.wf(), i < self.nr(), ensures res == self.nc();
    fn row_nth(&self, i: usize, k: usize) -> (res: &R) requires self.wf(), i < self.nr(), k < self.nc(), ensures res.r() == self.at(i as int, k as int);
    fn col_len(&self, i: usize) -> (res: usize) requires self.wf(), i < self.nc(), ensures res == self.nr();
    fn col_nth(&self, i: usize, k: usize) -> (res: &R) requires self.wf(), i < self.nc(), k < self.nr(), ensures res.r() == self.at(k as int, i as int);
    fn diag_len(&self) -> (res: usize) requires self.wf(), ensures res == if self.nr() <= self.nc() { self.nr() } else { self.nc() };
    fn diag_nth(&self, k: usize) -> (res: &R) requires self.wf(), k < self.nr(), k < self.nc(), ensures res.r() == self.at(k as int, k as int);
    fn flat_len(&self) -> (res: usize) requires self.wf(), fits(self.nr(), self.nc()), ensures res == self.nr() * self.nc();
    fn flat_nth(&self, k: usize) -> (res: &R) requires self.wf(), k < self.nr() * self.nc(), fits(self.nr(), self.nc()),
        ensures self.nc() > 0, inr(self, k as int / self.nc(), k as int % self.nc()), res.r() == self.at(k as int / self.nc(), k as int % self.nc());
    fn indices_len(&self) -> (res: usize) requires self.wf(), fits(self.nr(), self.nc()), ensures res == self.nr() * self.nc();
    fn indices_nth(&self, k: usize) -> (res: (usize, usize)) requires self.wf(), k < self.nr() * self.nc(), fits(self.nr(), self.nc()),
        ensures self.nc() > 0, inr(self, res.0 as int, res.1 as int), res.0 == k as int / self.nc(), res.1 == k as int % self.nc();
}
pub proof fn lem_at(k: int, r: int, c: int, nr: int, nc: int)
    requires k == nc * r + c, c == 0 || c < nc, r >= 0, c >= 0, k < nr * nc, nr >= 0, nc >= 0,
    ensures nc > 0, r == k / nc, c == k % nc, r < nr,
{
    assert(nc * r >= 0) by (nonlinear_arith) requires r >= 0, nc >= 0;
    assert(nc > 0) by (nonlinear_arith) requires k < nr * nc, k >= 0, nc >= 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, nc, r, c);
    assert(r < nr) by (nonlinear_arith) requires nc * r + c < nr * nc, c >= 0, nc > 0;
}
impl<M_: MatrixLike> MatrixOps for M_ {
    fn row_len(&self, i: usize) -> (res: usize) {
        proof { self.lem_dims(); }
        let mut it = self.row(i);
        let mut n: usize = 0;
        let mut done = false;
        while !done
            invariant self.wf(), i < self.nr(), self.nr() < usize::MAX, self.nc() < usize::MAX, it.source == self, it.row == i, it.pos <= n + 1, !done ==> it.pos == n, n <= self.nc(), done ==> n == self.nc(),
            decreases self.nc() - n + if done { 0int } else { 1int },
        { if it.next().is_some() { n = n + 1; } else { done = true; } }
        n
    }
    fn row_nth(&self, i: usize, k: usize) -> (res: &R) {
        proof { self.lem_dims(); }
        let mut it = self.row(i);
        let mut n: usize = 0;
        while n < k
            invariant self.wf(), i < self.nr(), self.nr() < usize::MAX, self.nc() < usize::MAX, it.source == self, it.row == i, it.pos == n, n <= k < self.nc(),
            decreases k - n,
        { it.next(); n = n + 1; }
        it.next().unwrap()
    }
    fn col_len(&self, i: usize) -> (res: usize) {
        proof { self.lem_dims(); }
        let mut it = self.col(i);
        let mut n: usize = 0;
        let mut done = false;
        while !done
            invariant self.wf(), i < self.nc(), self.nr() < usize::MAX, self.nc() < usize::MAX, it.source == self, it.col == i, it.pos <= n + 1, !done ==> it.pos == n, n <= self.nr(), done ==> n == self.nr(),
            decreases self.nr() - n + if done { 0int } else { 1int },
        { if it.next().is_some() { n = n + 1; } else { done = true; } }
        n
    }
    fn col_nth(&self, i: usize, k: usize) -> (res: &R) {
        proof { self.lem_dims(); }
        let mut it = self.col(i);
        let mut n: usize = 0;
        while n < k
            invariant self.wf(), i < self.nc(), self.nr() < usize::MAX, self.nc() < usize::MAX, it.source == self, it.col == i, it.pos == n, n <= k < self.nr(),
            decreases k - n,
        { it.next(); n = n + 1; }
        it.next().unwrap()
    }
    fn diag_len(&self) -> (res: usize) {
        proof { self.lem_dims(); }
        let mut it = self.diag();
        let mut n: usize = 0;
        let mut done = false;
        while !done
            invariant self.wf(),  self.nr() < usize::MAX, self.nc() < usize::MAX, it.source == self, true, it.pos <= n + 1, !done ==> it.pos == n, n <= (if self.nr() <= self.nc() { self.nr() } else { self.nc() }), done ==> n == (if self.nr() <= self.nc() { self.nr() } else { self.nc() }),
            decreases (if self.nr() <= self.nc() { self.nr() } else { self.nc() }) - n + if done { 0int } else { 1int },
        { if it.next().is_some() { n = n + 1; } else { done = true; } }
        n
    }
    fn diag_nth(&self, k: usize) -> (res: &R) {
        proof { self.lem_dims(); }
        let mut it = self.diag();
        let mut n: usize = 0;
        while n < k
            invariant self.wf(),  self.nr() < usize::MAX, self.nc() < usize::MAX, it.source == self, true, it.pos == n, n <= k < (if self.nr() <= self.nc() { self.nr() } else { self.nc() }),
            decreases k - n,
        { it.next(); n = n + 1; }
        it.next().unwrap()
    }
    fn flat_len(&self) -> (res: usize) {
        proof { self.lem_dims(); }
        let mut it = self.flat();
        let mut n: usize = 0;
        let mut done = false;
        proof { assert(self.nr() * self.nc() >= 0) by (nonlinear_arith) requires self.nr() >= 0, self.nc() >= 0; }
        while !done
            invariant self.wf(), fits(self.nr(), self.nc()), self.nr() >= 0, self.nc() >= 0, it.source == self, n <= self.nr() * self.nc(), it.row <= self.nr() + 1,
                !done ==> n == self.nc() * it.row + it.col && (it.col == 0 || it.col < self.nc()) && it.row <= self.nr() && (it.row > 0 ==> self.nc() > 0) && (it.row == self.nr() ==> it.col == 0),
                done ==> n == self.nr() * self.nc(),
            decreases self.nr() * self.nc() - n + if done { 0int } else { 1int },
        {
            let ghost (r, c) = (it.row as int, it.col as int);
            proof {
                assert(self.nc() * (r + 1) == self.nc() * r + self.nc()) by (nonlinear_arith);
                if inr(self, r, c) { lem_idx(r, c, self.nr(), self.nc()); }
                else { assert(self.nc() * r + c == self.nr() * self.nc()) by (nonlinear_arith) requires c == 0, r == self.nr() || self.nc() == 0; }
            }
            if it.next().is_some() { n = n + 1; } else { done = true; }
        }
        n
    }
    fn flat_nth(&self, k: usize) -> (res: &R) {
        proof { self.lem_dims(); }
        let mut it = self.flat();
        let mut n: usize = 0;
        while n < k
            invariant self.wf(), fits(self.nr(), self.nc()), self.nr() >= 0, self.nc() >= 0, it.source == self, n <= k, k < self.nr() * self.nc(),
                n == self.nc() * it.row + it.col, it.col == 0 || it.col < self.nc(),
            decreases k - n,
        {
            let ghost (r, c) = (it.row as int, it.col as int);
            proof { lem_at(n as int, r, c, self.nr(), self.nc()); assert(self.nc() * (r + 1) == self.nc() * r + self.nc()) by (nonlinear_arith); }
            it.next();
            n = n + 1;
        }
        proof { lem_at(k as int, it.row as int, it.col as int, self.nr(), self.nc()); }
        it.next().unwrap()
    }
    fn indices_len(&self) -> (res: usize) {
        proof { self.lem_dims(); }
        let mut it = self.indices();
        let mut n: usize = 0;
        let mut done = false;
        proof { assert(self.nr() * self.nc() >= 0) by (nonlinear_arith) requires self.nr() >= 0, self.nc() >= 0; }
        while !done
            invariant self.wf(), fits(self.nr(), self.nc()), self.nr() >= 0, self.nc() >= 0, it.ok(), it.rows == self.nr(), it.cols == self.nc(), n <= self.nr() * self.nc(),
                !done ==> n == self.nc() * it.r + it.c && (it.c == 0 || it.c < self.nc()) && it.r <= self.nr() && (it.r == self.nr() ==> it.c == 0),
                done ==> n == self.nr() * self.nc(),
            decreases self.nr() * self.nc() - n + if done { 0int } else { 1int },
        {
            let ghost (r, c) = (it.r as int, it.c as int);
            proof {
                assert(self.nc() * (r + 1) == self.nc() * r + self.nc()) by (nonlinear_arith);
                if inr(self, r, c) { lem_idx(r, c, self.nr(), self.nc()); }
                else { assert(self.nc() * r + c == self.nr() * self.nc()) by (nonlinear_arith) requires c == 0, r == self.nr() || self.nc() == 0; }
            }
            if it.next().is_some() { n = n + 1; } else { done = true; }
        }
        n
    }
    fn indices_nth(&self, k: usize) -> (res: (usize, usize)) {
        proof { self.lem_dims(); }
        let mut it = self.indices();
        let mut n: usize = 0;
        while n < k
            invariant self.wf(), fits(self.nr(), self.nc()), self.nr() >= 0, self.nc() >= 0, it.ok(), it.rows == self.nr(), it.cols == self.nc(), n <= k, k < self.nr() * self.nc(),
                n == self.nc() * it.r + it.c, it.c == 0 || it.c < self.nc(),
            decreases k - n,
        {
            let ghost (r, c) = (it.r as int, it.c as int);
            proof { lem_at(n as int, r, c, self.nr(), self.nc()); assert(self.nc() * (r + 1) == self.nc() * r + self.nc()) by (nonlinear_arith); }
            it.next();
            n = n + 1;
        }
        proof { lem_at(k as int, it.r as int, it.c as int, self.nr(), self.nc()); }
        it.next().unwrap()
    }
//@ fn trait MatrixLike::put
//@ end
//@ fn trait MatrixLike::add_ass
//@ loop 0
    self.wf(), same_shape(self, old(self)), dense(old(self)), other.wf(), old(self).nr() == other.nr(), old(self).nc() == other.nc(),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if r < k0 { old(self).at(r, c) + other.at(r, c) } else { old(self).at(r, c) },
//@ loop 1
    self.wf(), same_shape(self, old(self)), dense(old(self)), other.wf(), old(self).nr() == other.nr(), old(self).nc() == other.nc(),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if r < i0 || (r == i0 && c < k1) { old(self).at(r, c) + other.at(r, c) } else { old(self).at(r, c) },
//@ end
//@ fn trait MatrixLike::sub_ass
//@ loop 0
    self.wf(), same_shape(self, old(self)), dense(old(self)), other.wf(), old(self).nr() == other.nr(), old(self).nc() == other.nc(),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if r < k0 { old(self).at(r, c) - other.at(r, c) } else { old(self).at(r, c) },
//@ loop 1
    self.wf(), same_shape(self, old(self)), dense(old(self)), other.wf(), old(self).nr() == other.nr(), old(self).nc() == other.nc(),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if r < i0 || (r == i0 && c < k1) { old(self).at(r, c) - other.at(r, c) } else { old(self).at(r, c) },
//@ end
//@ fn trait MatrixLike::row
//@ end
//@ fn trait MatrixLike::col
//@ end
//@ fn trait MatrixLike::diag
//@ end
//@ fn trait MatrixLike::flat
//@ end
//@ fn trait MatrixLike::indices
//@ end
//@ fn trait MatrixLike::set_row
//@ loop 0
    self.wf(), same_shape(self, old(self)), dense(old(self)),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if r == i && c < k0 { new@[c].r() } else { old(self).at(r, c) },
//@ end
//@ fn trait MatrixLike::set_col
//@ loop 0
    self.wf(), same_shape(self, old(self)), dense(old(self)),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if c == i && r < k0 { new@[r].r() } else { old(self).at(r, c) },
//@ end
//@ fn trait MatrixLike::swap_rows
//@ loop 0
    self.wf(), same_shape(self, old(self)), dense(old(self)),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if c < k0 { old(self).at(if r == i { j as int } else if r == j { i as int } else { r }, c) } else { old(self).at(r, c) },
//@ end
//@ fn trait MatrixLike::swap_cols
//@ loop 0
    self.wf(), same_shape(self, old(self)), dense(old(self)),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] self.at(r, c) == if r < k0 { old(self).at(r, if c == i { j as int } else if c == j { i as int } else { c }) } else { old(self).at(r, c) },
//@ end
//@ fn trait MatrixLike::eye
//@ sig
    fn eye<S: VIntoShape>(dim: S) -> (res: Self)
//@ loop 0
    res.wf(), res.nr() == shape.max_dim, res.nc() == shape.max_dim, forall|i: int| #[trigger] Self::zwr(i, i),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if r == c && r < k0 { 1real } else { 0real },
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.writable(r, c) == Self::zwr(r, c),
//@ loop 0 start
    assert(Self::zwr(i0 as int, i0 as int));
//@ end
//@ fn trait MatrixLike::from_rows
//@ opt clone-vals
//@ let total : Vec<R>
//@ start
    let ghost d0 = data@;
//@ loop 0
    data@ == d0, total@.len() == k0 * ncol,
    forall|r: int, c: int| 0 <= r < k0 && 0 <= c < ncol ==> #[trigger] total@[ncol * r + c] == d0[r]@[c],
//@ loop 0 start
    let ghost t0 = total@;
    proof { assert(d0[i0 as int]@.len() == d0[0]@.len()); lem_flat(i0 as int, ncol as int); assert(ncol * i0 == i0 * ncol && i0 * ncol + ncol == k0 * ncol) by (nonlinear_arith) requires k0 == i0 + 1; }
//@ loop 1
    total@.len() == i0 * ncol + k1,
    forall|k: int| 0 <= k < t0.len() ==> #[trigger] total@[k] == t0[k],
    forall|c: int| 0 <= c < k1 ==> #[trigger] total@[i0 * ncol + c] == d0[i0 as int]@[c],
//@ loop 0 end
    proof { assert forall|r: int, c: int| 0 <= r < k0 && 0 <= c < ncol implies #[trigger] total@[ncol * r + c] == d0[r]@[c] by {
        if r < i0 { assert(total@[ncol * r + c] == t0[ncol * r + c]); } else { assert(r == i0); } } }
//@ tail
    proof { lem_flat(nrow as int, ncol as int); assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == d0[r]@[c].r() by { let x = ncol * r + c; } }
//@ end
//@ fn trait MatrixLike::nzs
//@ sig
    fn nzs(&self) -> (res: Vec<((usize, usize), R)>)
//@ opt collect
//@ let acc0 : Vec<((usize, usize), R)>
//@ loop 0
    len0 == rows * cols, rows == self.nr(), cols == self.nc(), self.wf(),
    forall|k: int| 0 <= k < acc0@.len() ==> #[trigger] nz_ok(self, acc0@[k]) && cols * acc0@[k].0.0 + acc0@[k].0.1 < k0,
    forall|k: int, l: int| 0 <= k < l < acc0@.len() ==> #[trigger] acc0@[k].0 != #[trigger] acc0@[l].0,
    forall|r: int, c: int| inr(self, r, c) && #[trigger] self.at(r, c) != 0real && cols * r + c < k0 ==> listed(acc0@, r, c),
//@ loop 0 start
    let ghost a0 = acc0@;
    proof { lem_divmod(i0 as int, rows as int, cols as int); }
//@ loop 0 end
    proof {
        let fr = i0 as int / cols as int; let fc = i0 as int % cols as int;
        assert(inr(self, fr, fc));
        assert forall|k: int| 0 <= k < acc0@.len() implies #[trigger] nz_ok(self, acc0@[k]) && cols * acc0@[k].0.0 + acc0@[k].0.1 < k0 by {
            if k < a0.len() { assert(acc0@[k] == a0[k]); assert(nz_ok(self, a0[k])); }
            else { assert(acc0@[k].0.0 as int == fr && acc0@[k].0.1 as int == fc); assert(cols * acc0@[k].0.0 == cols * fr); }
        }
        assert forall|r: int, c: int| inr(self, r, c) && #[trigger] self.at(r, c) != 0real && cols * r + c < k0 implies listed(acc0@, r, c) by {
            if cols * r + c < i0 { assert(listed(a0, r, c)); let k = choose|k: int| 0 <= k < a0.len() && (#[trigger] a0[k]).0.0 == r && a0[k].0.1 == c; assert(acc0@[k] == a0[k]); }
            else { lem_inj(r, c, fr, fc, cols as int); let k = acc0@.len() - 1; assert(acc0@[k].0.0 == r); }
        }
        assert forall|k: int, l: int| 0 <= k < l < acc0@.len() implies #[trigger] acc0@[k].0 != #[trigger] acc0@[l].0 by {
            if l == a0.len() { assert(nz_ok(self, a0[k])); assert(cols * a0[k].0.0 + a0[k].0.1 < i0); }
        }
    }
//@ tail
    proof { lem_flat(rows as int, cols as int);
        assert forall|r: int, c: int| inr(self, r, c) && #[trigger] self.at(r, c) != 0real implies listed(ret_@, r, c) by { assert(cols * r + c < rows * cols); } }
//@ end
//@ fn trait MatrixLike::mul
//@ sig
    fn mul<T: MatrixLike, U: MatrixLike>(&self, other: &T) -> (res: U)
//@ let res_vals : Vec<R>
//@ let acc2 : Vec<&R>
//@ let acc3 : Vec<&R>
//@ loop 0
    self.wf(), other.wf(), res_shape.0 == self.nr(), res_shape.1 == other.nc(),
    res_vals@.len() == k0 * res_shape.1,
    forall|r: int, c: int| 0 <= r < k0 && 0 <= c < res_shape.1 ==> #[trigger] res_vals@[res_shape.1 * r + c].r() == mat_dot(self, other, r, c),
//@ loop 0 start
    let ghost v0 = res_vals@;
    proof { lem_flat(k0 as int, other.nc()); assert(i0 * res_shape.1 + res_shape.1 == k0 * res_shape.1) by (nonlinear_arith) requires k0 == i0 + 1; assert(i0 * res_shape.1 == res_shape.1 * i0) by (nonlinear_arith); }
//@ loop 1
    self.wf(), other.wf(), res_shape.0 == self.nr(), res_shape.1 == other.nc(),
    res_vals@.len() == i0 * res_shape.1 + k1,
    forall|k: int| 0 <= k < v0.len() ==> #[trigger] res_vals@[k] == v0[k],
    forall|c: int| 0 <= c < k1 ==> #[trigger] res_vals@[res_shape.1 * i0 + c].r() == mat_dot(self, other, i0 as int, c),
//@ loop 2
    acc2@.len() == k2, forall|j: int| 0 <= j < k2 ==> (#[trigger] acc2@[j]).r() == self.at(i0 as int, j),
//@ loop 3
    acc3@.len() == k3, forall|j: int| 0 <= j < k3 ==> (#[trigger] acc3@[j]).r() == other.at(j, i1 as int),
//@ loop 1 end
    proof { let x = res_vals@[res_vals@.len() - 1];
        rsum_eq(|k: int| acc2.rv()[k] * acc3.rv()[k], |j: int| self.at(i0 as int, j) * other.at(j, i1 as int), self.nc()); }
//@ loop 0 end
    proof { assert forall|r: int, c: int| 0 <= r < k0 && 0 <= c < res_shape.1 implies #[trigger] res_vals@[res_shape.1 * r + c].r() == mat_dot(self, other, r, c) by {
        if r < i0 { assert(res_shape.1 * r + c < v0.len()) by { lem_idx(r, c, i0 as int, res_shape.1 as int); } assert(res_vals@[res_shape.1 * r + c] == v0[res_shape.1 * r + c]); } } }
//@ tail
    proof { lem_flat(self.nr(), other.nc()); }
//@ end
//@ fn trait MatrixLike::rotation
//@ after let mut res =
    proof { lem_neg(rsin(theta.r())); }
//@ finish
    proof { assert(res.at(a_idx as int, b_idx as int) == -rsin(theta.r())); assert(res.at(b_idx as int, a_idx as int) == rsin(theta.r()));
        assert(res.at(a_idx as int, a_idx as int) == rcos(theta.r())); assert(res.at(b_idx as int, b_idx as int) == rcos(theta.r())); }
//@ end
//@ fn trait MatrixLike::row_vec
//@ start
    let ghost d0 = data@;
//@ tail
    proof { assert forall|c: int| 0 <= c < d0.len() implies #[trigger] ret_.at(0, c) == d0[c].r() by { assert(inr(&ret_, 0, c)); } }
//@ end
//@ fn trait MatrixLike::col_vec
//@ start
    let ghost d0 = data@;
//@ finish
    proof { assert forall|r: int| 0 <= r < d0.len() implies #[trigger] res.at(r, 0) == d0[r].r() by { assert(inr(&res, r, 0)); } }
//@ end
}
}
