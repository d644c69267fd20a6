//@ include conv.rs
//@ include dict.rs
//@ include graph.rs
//@ include chol.rs
//@ include gauss.rs
verus! {
//@ struct System
//@ struct DenseGaussSolver
//@ struct CholeskyEnvelopeSolver
// ---- sums do not depend on the numbering
pub open spec fn renum(f: A1, p: Seq<usize>) -> A1 { |j: int| f(p[j] as int) }
pub proof fn lem_renum(f: A1, p: &Permutation)
    requires p.wf(),
    ensures rsum(renum(f, p.forward@), p.n() as int) == rsum(f, p.n() as int),
{
    let n = p.n() as int; let g = |j: int, k: int| if p.forward@[j] == k { f(k) } else { 0real };
    rs_swap(g, n, n);
    let fa = renum(f, p.forward@); let ra = |j: int| rsum(|k: int| g(j, k), n);
    assert forall|j: int| 0 <= j < n implies fa(j) == #[trigger] ra(j) by { rs_one(|k: int| g(j, k), n, p.forward@[j] as int); }
    rsum_eq(fa, ra, n);
    let rb = |k: int| rsum(|j: int| g(j, k), n);
    assert forall|k: int| 0 <= k < n implies f(k) == #[trigger] rb(k) by { let h = |j: int| g(j, k); assert(p.forward@[p.back@[k] as int] == k); assert forall|j: int| 0 <= j < n && j != p.back@[k] implies #[trigger] h(j) == 0real by { assert(p.back@[p.forward@[j] as int] == j); } rs_one(h, n, p.back@[k] as int); }
    rsum_eq(f, rb, n);
}
pub open spec fn renum2(a: A2, p: Seq<usize>) -> A2 { |i: int, j: int| a(p[i] as int, p[j] as int) }
pub proof fn lem_mv_renum(a: A2, x: A1, p: &Permutation, i: int)
    requires p.wf(), 0 <= i < p.n(),
    ensures mv(renum2(a, p.forward@), renum(x, p.forward@), p.n() as int, i) == mv(a, x, p.n() as int, p.forward@[i] as int),
{
    let f = mvt(a, x, p.forward@[i] as int); lem_renum(f, p); rsum_eq(mvt(renum2(a, p.forward@), renum(x, p.forward@), i), renum(f, p.forward@), p.n() as int);
}
pub proof fn lem_solves_renum(a: A2, x: A1, b: A1, p: &Permutation)
    requires p.wf(), solves(a, x, b, p.n() as int),
    ensures solves(renum2(a, p.forward@), renum(x, p.forward@), renum(b, p.forward@), p.n() as int),
{
    assert forall|i: int| 0 <= i < p.n() implies #[trigger] mv(renum2(a, p.forward@), renum(x, p.forward@), p.n() as int, i) == renum(b, p.forward@)(i) by { lem_mv_renum(a, x, p, i); assert(p.forward@[i] < p.n()); assert(mv(a, x, p.n() as int, p.forward@[i] as int) == b(p.forward@[i] as int)); }
}
pub proof fn lem_quad_renum(a: A2, x: A1, p: &Permutation)
    requires p.wf(),
    ensures quad(renum2(a, p.forward@), renum(x, p.forward@), p.n() as int) == quad(a, x, p.n() as int),
{
    let n = p.n() as int; let f = |i: int| x(i) * mv(a, x, n, i); let r = renum(x, p.forward@); let g = |i: int| r(i) * mv(renum2(a, p.forward@), r, n, i);
    assert forall|i: int| 0 <= i < n implies renum(f, p.forward@)(i) == #[trigger] g(i) by { lem_mv_renum(a, x, p, i); }
    lem_renum(f, p); rsum_eq(renum(f, p.forward@), g, n);
}
// renumbering keeps a matrix symmetric and positive definite
pub proof fn lem_spd_renum(a: A2, p: &Permutation)
    requires p.wf(), spd(renum2(a, p.forward@), p.n() as int),
    ensures spd(a, p.n() as int),
{
    let n = p.n() as int; let s = renum2(a, p.forward@);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] a(i, j) == a(j, i) by { let (k, l) = (p.back@[i] as int, p.back@[j] as int); assert(p.forward@[k] == i && p.forward@[l] == j); assert(s(k, l) == s(l, k)); }
    assert forall|x: A1| !nil(x, n) implies #[trigger] quad(a, x, n) > 0real by {
        let y = renum(x, p.forward@);
        assert(!nil(y, n)) by { if nil(y, n) { assert forall|i: int| 0 <= i < n implies #[trigger] x(i) == 0real by { let k = p.back@[i] as int; assert(p.forward@[k] == i); assert(y(k) == 0real); } } }
        lem_quad_renum(a, x, p); assert(quad(s, y, n) > 0real);
    }
}
pub proof fn lem_quad_same(s: A2, t: A2, x: A1, n: int)
    requires forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] s(i, j) == t(i, j),
    ensures quad(s, x, n) == quad(t, x, n), forall|i: int| 0 <= i < n ==> #[trigger] mv(s, x, n, i) == mv(t, x, n, i),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] mv(s, x, n, i) == mv(t, x, n, i) by { rsum_eq(mvt(s, x, i), mvt(t, x, i), n); }
    rsum_eq(|i: int| x(i) * mv(s, x, n, i), |i: int| x(i) * mv(t, x, n, i), n);
}
pub proof fn lem_spd_same(s: A2, t: A2, n: int)
    requires spd(s, n), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] s(i, j) == t(i, j),
    ensures spd(t, n),
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] t(i, j) == t(j, i) by { assert(s(i, j) == s(j, i)); assert(s(i, j) == t(i, j)); }
    assert forall|x: A1| !nil(x, n) implies #[trigger] quad(t, x, n) > 0real by { lem_quad_same(s, t, x, n); assert(quad(s, x, n) > 0real); }
}
pub proof fn lem_solves_same(s: A2, t: A2, x: A1, b: A1, n: int)
    requires solves(s, x, b, n), forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] s(i, j) == t(i, j),
    ensures solves(t, x, b, n),
{ lem_quad_same(s, t, x, n); assert forall|i: int| 0 <= i < n implies #[trigger] mv(t, x, n, i) == b(i) by { assert(mv(s, x, n, i) == b(i)); } }
// a positive definite system has at most one solution, so any two solvers agree on it
pub proof fn lem_agree(s: A2, x: A1, y: A1, b: A1, n: int)
    requires spd(s, n), solves(s, x, b, n), solves(s, y, b, n), n >= 0,
    ensures forall|i: int| 0 <= i < n ==> #[trigger] x(i) == y(i),
{
    let d = |i: int| x(i) - y(i);
    let q = |i: int| d(i) * mv(s, d, n, i);
    assert forall|i: int| 0 <= i < n implies #[trigger] q(i) == 0real by {
        let ny = |j: int| (-1real) * mvt(s, y, i)(j); rs_scale(-1real, mvt(s, y, i), ny, n);
        assert forall|j: int| 0 <= j < n implies #[trigger] mvt(s, d, i)(j) == mvt(s, x, i)(j) + ny(j) by { assert(s(i, j) * (x(j) - y(j)) == s(i, j) * x(j) - s(i, j) * y(j)) by (nonlinear_arith); }
        rs_add(mvt(s, x, i), ny, mvt(s, d, i), n); assert(mv(s, x, n, i) == b(i) && mv(s, y, n, i) == b(i));
        let t = d(i); assert(t * 0real == 0real) by (nonlinear_arith);
    }
    rs_zero(q, n);
    if !nil(d, n) { assert(quad(s, d, n) > 0real); }
    assert forall|i: int| 0 <= i < n implies #[trigger] x(i) == y(i) by { assert(d(i) == 0real); }
}
// ---- conversions
pub trait VFromDict: Sized { spec fn dict_ok(d: Dictionary) -> bool; spec fn of_dict(d: Dictionary, res: Self) -> bool;
    fn v_of_dict(d: Dictionary) -> (res: Self) requires Self::dict_ok(d), ensures Self::of_dict(d, res); }
pub trait VFromVec: Sized { spec fn vec_ok(v: Vec<R>) -> bool; spec fn of_vec(v: Vec<R>, res: Self) -> bool;
    fn v_of_vec(v: Vec<R>) -> (res: Self) requires Self::vec_ok(v), ensures Self::of_vec(v, res); }
pub trait MatrixNzs: MatrixLike { fn nzs_any(&self) -> (res: Vec<((usize, usize), R)>) requires self.wf(), fits(self.nr(), self.nc()), ensures nz_any(self, res@); }
// at least every nonzero entry, each once, with its value
pub open spec fn nz_any<M: MatSpec>(m: &M, s: Seq<((usize, usize), R)>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> inr(m, (#[trigger] s[k]).0.0 as int, s[k].0.1 as int) && s[k].1.r() == m.at(s[k].0.0 as int, s[k].0.1 as int)
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> #[trigger] s[k].0 != #[trigger] s[l].0
    &&& forall|r: int, c: int| inr(m, r, c) && #[trigger] m.at(r, c) != 0real ==> listed(s, r, c)
}
pub proof fn lem_nz_any<M: MatSpec>(m: &M, s: Seq<((usize, usize), R)>) requires nz_list(m, s), ensures nz_any(m, s), { assert forall|k: int| 0 <= k < s.len() implies inr(m, (#[trigger] s[k]).0.0 as int, s[k].0.1 as int) && s[k].1.r() == m.at(s[k].0.0 as int, s[k].0.1 as int) by { assert(nz_ok(m, s[k])); } }
impl MatrixNzs for LinearMatrix { fn nzs_any(&self) -> (res: Vec<((usize, usize), R)>) { let res = self.nzs(); proof { lem_nz_any(self, res@); } res } }
impl MatrixNzs for CompressedRow { fn nzs_any(&self) -> (res: Vec<((usize, usize), R)>) { let res = self.nzs(); proof { lem_nz_any(self, res@); } res } }
impl MatrixNzs for LowerRowEnvelope { fn nzs_any(&self) -> (res: Vec<((usize, usize), R)>) { let res = self.nzs(); proof { lem_nz_any(self, res@); } res } }
impl MatrixNzs for Dictionary { fn nzs_any(&self) -> (res: Vec<((usize, usize), R)>) { let res = self.v_nzs(); proof { let s = res@; lem_entries(self, s);
    assert forall|k: int| 0 <= k < s.len() implies inr(self, (#[trigger] s[k]).0.0 as int, s[k].0.1 as int) && s[k].1.r() == self.at(s[k].0.0 as int, s[k].0.1 as int) by { assert(self.data@.dom().contains(s[k].0)); let (r, c) = (s[k].0.0 as int, s[k].0.1 as int); assert(key(r, c) == s[k].0); }
    assert forall|r: int, c: int| inr(self, r, c) && #[trigger] self.at(r, c) != 0real implies listed(s, r, c) by { assert(self.data@.dom().contains(key(r, c))); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 == key(r, c); assert(s[k].0.0 == r && s[k].0.1 == c); } } res } }
pub open spec fn in_nz(s: Seq<((usize, usize), R)>, k: int, r: int, c: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] s[j]).0.0 == r && s[j].0.1 == c }
pub open spec fn copied<M: MatSpec>(m: &M, s: Seq<((usize, usize), R)>, k: int, d: &Dictionary) -> bool { forall|r: int, c: int| inr(d, r, c) ==> #[trigger] d.at(r, c) == if in_nz(s, k, r, c) { m.at(r, c) } else { 0real } }
pub proof fn lem_in_nz(s: Seq<((usize, usize), R)>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|r: int, c: int| #[trigger] in_nz(s, k + 1, r, c) == (in_nz(s, k, r, c) || (s[k].0.0 == r && s[k].0.1 == c)),
{
    assert forall|r: int, c: int| #[trigger] in_nz(s, k + 1, r, c) == (in_nz(s, k, r, c) || (s[k].0.0 == r && s[k].0.1 == c)) by {
        if in_nz(s, k + 1, r, c) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] s[j]).0.0 == r && s[j].0.1 == c; if j < k { assert(s[j].0.0 == r); } }
        if in_nz(s, k, r, c) { let j = choose|j: int| 0 <= j < k && (#[trigger] s[j]).0.0 == r && s[j].0.1 == c; assert(s[j].0.0 == r); }
    }
}
pub proof fn lem_copied<M: MatSpec>(m: &M, s: Seq<((usize, usize), R)>, d: &Dictionary)
    requires nz_any(m, s), copied(m, s, s.len() as int, d), d.nr() == m.nr(), d.nc() == m.nc(),
    ensures forall|r: int, c: int| inr(m, r, c) ==> #[trigger] d.at(r, c) == m.at(r, c),
{
    assert forall|r: int, c: int| inr(m, r, c) implies #[trigger] d.at(r, c) == m.at(r, c) by { assert(inr(d, r, c)); if m.at(r, c) != 0real { assert(listed(s, r, c)); let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.0 == r && s[k].0.1 == c; assert(in_nz(s, s.len() as int, r, c)); } }
}
//@ method nzs nzs_any
impl VFromDict for LinearMatrix { open spec fn dict_ok(d: Dictionary) -> bool { d.wf() && fits(d.nr(), d.nc()) } open spec fn of_dict(d: Dictionary, res: Self) -> bool { res.wf() && same_mat(&res, &d) }
    fn v_of_dict(d: Dictionary) -> (res: Self) { LinearMatrix::v_from_dict(d) } }
impl VFromDict for CompressedRow { open spec fn dict_ok(d: Dictionary) -> bool { d.wf() } open spec fn of_dict(d: Dictionary, res: Self) -> bool { res.wf() && same_mat(&res, &d) }
    fn v_of_dict(d: Dictionary) -> (res: Self) { CompressedRow::v_from_dict(d) } }
impl VFromDict for LowerRowEnvelope { open spec fn dict_ok(d: Dictionary) -> bool { d.wf() && d.nr() == d.nc() && tri_fits(d.nr()) && forall|r: int| 0 <= r < d.nr() ==> #[trigger] d.has_lower(r) }
    open spec fn of_dict(d: Dictionary, res: Self) -> bool { res.wf() && res.nr() == d.nr() && res.nc() == d.nc() && forall|r: int, c: int| inr(&d, r, c) ==> #[trigger] res.at(r, c) == if c <= r { d.at(r, c) } else { 0real } }
    fn v_of_dict(d: Dictionary) -> (res: Self) { LowerRowEnvelope::v_from_dict(d) } }
impl LinearMatrix {
//@ fn From<Vec<f64>> for LinearMatrix::from -> res
//@ sig
    pub fn v_from_vec(v: Vec<R>) -> (res: Self)
//@ requires
    v@.len() < usize::MAX,
//@ ensures
    res.wf(), res.nr() == v@.len(), res.nc() == 1, forall|i: int| 0 <= i < v@.len() ==> #[trigger] res.at(i, 0) == v@[i].r(),
//@ end
}
impl VFromVec for LinearMatrix { open spec fn vec_ok(v: Vec<R>) -> bool { v@.len() < usize::MAX } open spec fn of_vec(v: Vec<R>, res: Self) -> bool { res.wf() && res.nr() == v@.len() && res.nc() == 1 && forall|i: int| 0 <= i < v@.len() ==> #[trigger] res.at(i, 0) == v@[i].r() }
    fn v_of_vec(v: Vec<R>) -> (res: Self) { LinearMatrix::v_from_vec(v) } }
impl VFromVec for Vec<R> { open spec fn vec_ok(v: Vec<R>) -> bool { true } open spec fn of_vec(v: Vec<R>, res: Self) -> bool { res == v }
    fn v_of_vec(v: Vec<R>) -> (res: Self) { v } }
impl Dictionary { fn v_into<T: VFromDict>(self) -> (res: T) requires T::dict_ok(self), ensures T::of_dict(self, res) { T::v_of_dict(self) } }
pub trait VVecInto: Sized { spec fn me(self) -> Vec<R>; fn v_into<T: VFromVec>(self) -> (res: T) requires T::vec_ok(self.me()), ensures T::of_vec(self.me(), res); }
impl VVecInto for Vec<R> { open spec fn me(self) -> Vec<R> { self } fn v_into<T: VFromVec>(self) -> (res: T) { T::v_of_vec(self) } }
pub trait VAsMutSlice<T> { spec fn amv(&self) -> Seq<T>; fn v_as_mut_slice(&mut self) -> (res: &mut [T]) ensures res@ == old(self).amv(), final(res)@.len() == res@.len(), final(self).amv() == final(res)@; }
impl<T> VAsMutSlice<T> for Vec<T> { open spec fn amv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_as_mut_slice(&mut self) -> (res: &mut [T]) { self.as_mut_slice() } }
//@ method as_mut_slice v_as_mut_slice
// ---- systems
impl System {
    pub open spec fn n(&self) -> int { self.dofs as int }
    pub open spec fn wf(&self) -> bool {
        &&& self.dofs < usize::MAX && fits(self.dofs as int, self.dofs as int) && tri_fits(self.dofs as int)
        &&& self.k_mat matches Some(k) ==> k.wf() && k.nr() == self.dofs && k.nc() == self.dofs
        &&& self.m_mat matches Some(m) ==> m.wf() && m.nr() == self.dofs && m.nc() == self.dofs
        &&& self.rhs matches Some(r) ==> r@.len() == self.dofs
        &&& self.perm matches Some(p) ==> p.wf() && p.n() == self.dofs
    }
    // the system as it was described, in the original numbering
    pub open spec fn to(&self, i: int) -> int { match self.perm { Some(p) => p.forward@[i] as int, None => i } }
    pub open spec fn k(&self) -> A2 { |i: int, j: int| match self.k_mat { Some(k) => k.at(self.to(i), self.to(j)), None => 0real } }
    pub open spec fn m(&self) -> A2 { |i: int, j: int| match self.m_mat { Some(m) => m.at(self.to(i), self.to(j)), None => 0real } }
    pub open spec fn r(&self) -> A1 { |i: int| match self.rhs { Some(r) => r@[self.to(i)].r(), None => 0real } }
    // the same system in the caller's terms
    pub open spec fn same(&self, o: &System) -> bool {
        self.dofs == o.dofs && self.k_mat is Some == o.k_mat is Some && self.m_mat is Some == o.m_mat is Some && self.rhs is Some == o.rhs is Some
        && (forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() ==> #[trigger] self.k()(i, j) == o.k()(i, j) && self.m()(i, j) == o.m()(i, j)) && forall|i: int| 0 <= i < self.n() ==> #[trigger] self.r()(i) == o.r()(i)
    }
//@ fn System::new -> res
//@ requires
    dofs < usize::MAX, fits(dofs as int, dofs as int), tri_fits(dofs as int),
//@ ensures
    res.wf(), res.n() == dofs, res.k_mat is None && res.m_mat is None && res.rhs is None && res.perm is None,
//@ end
//@ fn System::dofs -> res
//@ ensures
    res == self.dofs,
//@ end
//@ fn System::add_k_coefficient
//@ tupleidx k
//@ requires
    old(self).wf(), old(self).perm is None, loc.0 < old(self).dofs, loc.1 < old(self).dofs,
//@ ensures
    final(self).wf(), final(self).n() == old(self).n(), final(self).perm is None, final(self).k_mat is Some, final(self).m_mat == old(self).m_mat, final(self).rhs == old(self).rhs,
    forall|i: int, j: int| 0 <= i < old(self).n() && 0 <= j < old(self).n() ==> #[trigger] final(self).k()(i, j) == old(self).k()(i, j) + if i == loc.0 && j == loc.1 { val.r() } else { 0real },
//@ end
//@ fn System::add_m_coefficient
//@ tupleidx m
//@ requires
    old(self).wf(), old(self).perm is None, loc.0 < old(self).dofs, loc.1 < old(self).dofs,
//@ ensures
    final(self).wf(), final(self).n() == old(self).n(), final(self).perm is None, final(self).m_mat is Some, final(self).k_mat == old(self).k_mat, final(self).rhs == old(self).rhs,
    forall|i: int, j: int| 0 <= i < old(self).n() && 0 <= j < old(self).n() ==> #[trigger] final(self).m()(i, j) == old(self).m()(i, j) + if i == loc.0 && j == loc.1 { val.r() } else { 0real },
//@ end
//@ fn System::add_rhs_val
//@ requires
    old(self).wf(), old(self).perm is None, loc < old(self).dofs,
//@ ensures
    final(self).wf(), final(self).n() == old(self).n(), final(self).perm is None, final(self).rhs is Some, final(self).k_mat == old(self).k_mat, final(self).m_mat == old(self).m_mat,
    forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).r()(i) == old(self).r()(i) + if i == loc { val.r() } else { 0real },
//@ end
//@ fn System::reduce_envelope
//@ opt no-seq-vars
//@ requires
    old(self).wf(), old(self).perm is None, old(self).k_mat is Some, old(self).dofs > 0,
//@ ensures
    final(self).wf(), final(self).perm is Some, final(self).same(old(self)),
//@ end
//@ fn System::from_kr -> res
//@ tupleidx r k_mat
//@ sig
    pub fn from_kr<T: MatrixNzs, U: MatrixLike>(k: &T, r: &U) -> (res: Self)
//@ requires
    k.wf(), r.wf(), k.nr() == k.nc(), r.nr() == k.nr(), r.nc() == 1, k.nr() < usize::MAX, fits(k.nr(), k.nc()), tri_fits(k.nr()),
//@ ensures
    res.wf(), res.n() == k.nr(), res.perm is None, res.k_mat is Some, res.m_mat is None, res.rhs is Some,
    forall|i: int, j: int| 0 <= i < res.n() && 0 <= j < res.n() ==> #[trigger] res.k()(i, j) == k.at(i, j), forall|i: int| 0 <= i < res.n() ==> #[trigger] res.r()(i) == r.at(i, 0),
//@ loop 0
    len0 == dofs, dofs == r.nr(), r.wf(), r.nc() == 1, r_vec@.len() == dofs, forall|i: int| 0 <= i < k0 ==> (#[trigger] r_vec@[i]).r() == r.at(i, 0),
//@ loop 1
    len1 == s1@.len(), nz_any(k, s1@), k.nr() == dofs, k.nc() == dofs, k_mat.wf(), k_mat.nr() == dofs, k_mat.nc() == dofs, copied(k, s1@, k1 as int, &k_mat),
//@ loop 1 start
    proof { lem_in_nz(s1@, i1 as int); }
//@ loop 1 after
    proof { lem_copied(k, s1@, &k_mat); }
//@ end
//@ fn System::from_km -> res
//@ tupleidx k_mat m_mat
//@ sig
    pub fn from_km<T: MatrixNzs, U: MatrixNzs>(k: &T, m: &U) -> (res: Self)
//@ requires
    k.wf(), m.wf(), k.nr() == k.nc(), m.nr() == k.nr(), m.nc() == k.nr(), k.nr() < usize::MAX, fits(k.nr(), k.nc()), tri_fits(k.nr()),
//@ ensures
    res.wf(), res.n() == k.nr(), res.perm is None, res.k_mat is Some, res.m_mat is Some, res.rhs is None,
    forall|i: int, j: int| 0 <= i < res.n() && 0 <= j < res.n() ==> #[trigger] res.k()(i, j) == k.at(i, j) && res.m()(i, j) == m.at(i, j),
//@ loop 0
    len0 == s0@.len(), nz_any(k, s0@), k.nr() == dofs, k.nc() == dofs, k_mat.wf(), k_mat.nr() == dofs, k_mat.nc() == dofs, copied(k, s0@, k0 as int, &k_mat),
//@ loop 0 start
    proof { lem_in_nz(s0@, i0 as int); }
//@ loop 0 after
    proof { lem_copied(k, s0@, &k_mat); }
//@ loop 1
    len1 == s4@.len(), nz_any(m, s4@), m.nr() == dofs, m.nc() == dofs, m_mat.wf(), m_mat.nr() == dofs, m_mat.nc() == dofs, copied(m, s4@, k1 as int, &m_mat),
//@ loop 1 start
    proof { lem_in_nz(s4@, i1 as int); }
//@ loop 1 after
    proof { lem_copied(m, s4@, &m_mat); }
//@ end
//@ fn System::into_krp -> res
//@ sig
    fn into_krp<T: VFromDict, U: VFromVec>(self) -> (res: (T, U, Option<Permutation>))
//@ requires
    self.wf(), self.k_mat is Some, self.rhs is Some, T::dict_ok(self.k_mat->0), U::vec_ok(self.rhs->0),
//@ ensures
    T::of_dict(self.k_mat->0, res.0), U::of_vec(self.rhs->0, res.1), res.2 is Some == self.perm is Some,
    res.2 matches Some(p) ==> p.wf() && p.forward@ == self.perm->0.back@ && p.back@ == self.perm->0.forward@,
//@ end
//@ fn System::into_parts -> res
//@ sig
    fn into_parts<T: VFromDict, U: VFromDict, V: VFromVec>(self) -> (res: (Option<T>, Option<U>, Option<V>, Option<Permutation>))
//@ requires
    self.wf(), self.k_mat matches Some(k) ==> T::dict_ok(k), self.m_mat matches Some(m) ==> U::dict_ok(m), self.rhs matches Some(r) ==> V::vec_ok(r),
//@ ensures
    res.0 is Some == self.k_mat is Some, res.1 is Some == self.m_mat is Some, res.2 is Some == self.rhs is Some, res.3 is Some == self.perm is Some,
    res.0 matches Some(k) ==> T::of_dict(self.k_mat->0, k), res.1 matches Some(m) ==> U::of_dict(self.m_mat->0, m), res.2 matches Some(r) ==> V::of_vec(self.rhs->0, r),
    res.3 matches Some(p) ==> p.wf() && p.forward@ == self.perm->0.back@ && p.back@ == self.perm->0.forward@,
//@ end
}
// ---- solvers
pub open spec fn via(q: Option<Permutation>, i: int) -> int { match q { Some(p) => p.back@[i] as int, None => i } }
pub open spec fn perm_ok(q: Option<Permutation>, n: int) -> bool { q matches Some(p) ==> p.wf() && p.n() == n }
// the renumbered answer, put back in place, solves the system in the original numbering
pub proof fn lem_back(a: A2, y: A1, b: A1, q: Option<Permutation>, x: A1, n: int)
    requires perm_ok(q, n), solves(a, y, b, n), forall|i: int| 0 <= i < n ==> #[trigger] x(i) == y(via(q, i)),
    ensures solves(|i: int, j: int| a(via(q, i), via(q, j)), x, |i: int| b(via(q, i)), n),
{
    let aa = |i: int, j: int| a(via(q, i), via(q, j)); let bb = |i: int| b(via(q, i));
    match q {
        Some(p) => {
            let z = Permutation { forward: p.back, back: p.forward };
            lem_solves_renum(a, y, b, &z);
            let (ra, ry, rb) = (renum2(a, z.forward@), renum(y, z.forward@), renum(b, z.forward@));
            assert forall|i: int| 0 <= i < n implies #[trigger] mv(aa, x, n, i) == bb(i) by { rsum_eq(mvt(aa, x, i), mvt(ra, ry, i), n); assert(mv(ra, ry, n, i) == rb(i)); }
        }
        None => { assert forall|i: int| 0 <= i < n implies #[trigger] mv(aa, x, n, i) == bb(i) by { rsum_eq(mvt(aa, x, i), mvt(a, y, i), n); assert(mv(a, y, n, i) == b(i)); } }
    }
}
// a positive definite matrix has a positive diagonal
pub proof fn lem_spd_diag(s: A2, n: int, r: int)
    requires spd(s, n), 0 <= r < n,
    ensures s(r, r) > 0real,
{
    let e = |i: int| if i == r { 1real } else { 0real };
    assert(e(r) == 1real); assert(!nil(e, n));
    assert forall|i: int| 0 <= i < n implies #[trigger] mv(s, e, n, i) == s(i, r) by {
        assert forall|j: int| 0 <= j < n && j != r implies #[trigger] mvt(s, e, i)(j) == 0real by { let t = s(i, j); assert(t * 0real == 0real) by (nonlinear_arith); }
        rs_one(mvt(s, e, i), n, r); let t = s(i, r); assert(t * 1real == t) by (nonlinear_arith); }
    let f = |i: int| e(i) * mv(s, e, n, i);
    assert forall|j: int| 0 <= j < n && j != r implies #[trigger] f(j) == 0real by { let t = mv(s, e, n, j); assert(0real * t == 0real) by (nonlinear_arith); }
    rs_one(f, n, r); let t = mv(s, e, n, r); assert(1real * t == t) by (nonlinear_arith);
    assert(quad(s, e, n) > 0real);
}
pub proof fn lem_spd_inj(s: A2, n: int)
    requires spd(s, n), n >= 0,
    ensures injective(s, n),
{
    assert forall|x: A1| solves(s, x, |i: int| 0real, n) implies nil(x, n) by { if !nil(x, n) { let f = |i: int| x(i) * mv(s, x, n, i); assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == 0real by { let t = x(i); assert(t * 0real == 0real) by (nonlinear_arith); } rs_zero(f, n); assert(quad(s, x, n) > 0real); } }
}
impl DenseGaussSolver {
    pub open spec fn n(&self) -> int { self.k.nr() }
    pub open spec fn ok(&self) -> bool { self.k.wf() && self.r.wf() && self.k.nc() == self.n() && self.r.nr() == self.n() && self.r.nc() == 1 && fits(self.n(), self.n()) && perm_ok(self.perm, self.n()) }
    // the system being solved, in the caller's numbering
    pub open spec fn sk(&self) -> A2 { |i: int, j: int| self.k.at(via(self.perm, i), via(self.perm, j)) }
    pub open spec fn sr(&self) -> A1 { |i: int| self.r.at(via(self.perm, i), 0) }
//@ fn Solver for DenseGaussSolver::new -> res
//@ sig
    fn new(sys: System) -> (res: Self)
//@ requires
    sys.wf(), sys.k_mat is Some, sys.rhs is Some,
//@ ensures
    res.ok(), res.n() == sys.n(), forall|i: int, j: int| 0 <= i < sys.n() && 0 <= j < sys.n() ==> #[trigger] res.sk()(i, j) == sys.k()(i, j), forall|i: int| 0 <= i < sys.n() ==> #[trigger] res.sr()(i) == sys.r()(i),
//@ end
//@ fn Solver for DenseGaussSolver::solve -> res
//@ sig
    fn solve(self) -> (res: Result<Vec<R>, ()>)
//@ requires
    self.ok(),
//@ ensures
    match res { Ok(x) => x@.len() == self.n() && solves(self.sk(), vf(x@), self.sr(), self.n()), Err(_) => !injective(mf(&self.k), self.n()) },
//@ let acc0 : Vec<R>
//@ start
    let ghost (kk, bb, n) = (mf(&self.k), cv(&self.r), self.k.nr());
//@ before let mut x
    let ghost yy = cv(&res);
//@ loop 0
    len0 == n, res.wf(), res.nr() == n, res.nc() == 1, acc0@.len() == k0, forall|i: int| 0 <= i < k0 ==> #[trigger] acc0@[i].r() == res.at(i, 0),
//@ after let mut x
    let ghost y = x@;
//@ finish
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] vf(x@)(i) == yy(via(self.perm, i)) by { match self.perm { Some(p) => { let s = p.back@[i] as int; assert(p.forward@[s] == i); assert(x@[p.forward@[s] as int] == y[s]); } None => {} } }
        lem_back(kk, yy, bb, self.perm, vf(x@), n);
        let (a2, b2) = (|i: int, j: int| kk(via(self.perm, i), via(self.perm, j)), |i: int| bb(via(self.perm, i)));
        lem_solves_same(a2, self.sk(), vf(x@), b2, n);
    }
//@ end
}
impl CholeskyEnvelopeSolver {
    pub open spec fn n(&self) -> int { self.dofs as int }
    pub open spec fn ok(&self) -> bool { self.dofs > 0 && self.k.wf() && self.k.nr() == self.dofs && tri_fits(self.n()) && self.r@.len() == self.dofs && self.perm.wf() && self.perm.n() == self.dofs && spd(sym(mf(&self.k)), self.n()) }
    pub open spec fn sk(&self) -> A2 { |i: int, j: int| sym(mf(&self.k))(self.perm.back@[i] as int, self.perm.back@[j] as int) }
    pub open spec fn sr(&self) -> A1 { |i: int| self.r@[self.perm.back@[i] as int].r() }
//@ fn Solver for CholeskyEnvelopeSolver::new -> res
//@ sig
    fn new(mut sys: System) -> (res: Self)
//@ requires
    sys.wf(), sys.perm is None, sys.k_mat is Some, sys.rhs is Some, sys.dofs > 0, spd(sys.k(), sys.n()),
//@ ensures
    res.ok(), res.n() == sys.n(), forall|i: int, j: int| 0 <= i < sys.n() && 0 <= j < sys.n() ==> #[trigger] res.sk()(i, j) == sys.k()(i, j), forall|i: int| 0 <= i < sys.n() ==> #[trigger] res.sr()(i) == sys.r()(i),
//@ start
    let ghost (sy, n) = (sys, sys.n());
//@ loop 0 sum=usize
    len0 == n, n == sy.n(), sy.wf(), sys == sy, fits(n, n), sy.k_mat is Some, forall|r: int| 0 <= r < n ==> #[trigger] (sy.k_mat->0).is_env(r, s0@[r] as int), acc0 <= k0 * n,
//@ loop 0 start
    proof { let d0 = sy.k_mat->0; assert(d0.is_env(i0 as int, s0@[i0 as int] as int)); assert(s0@[i0 as int] <= n); let k = k0 as int; assert(k * n <= n * n) by (nonlinear_arith) requires 0 <= k <= n; assert(k * n == (k - 1) * n + n) by (nonlinear_arith); }
//@ after sys.reduce_envelope
    let ghost (s1, d, p) = (sys, sys.k_mat->0, sys.perm->0);
    proof {
        lem_spd_same(sy.k(), s1.k(), n); lem_spd_same(s1.k(), renum2(mf(&d), p.forward@), n); lem_spd_renum(mf(&d), &p);
        assert forall|r: int| 0 <= r < d.nr() implies #[trigger] d.has_lower(r) by { lem_spd_diag(mf(&d), n, r); assert(d.at(r, r) > 0real); assert(d.has(r, r)); }
    }
//@ finish
    proof {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies mf(&d)(i, j) == #[trigger] sym(mf(&k))(i, j) by { assert(mf(&d)(i, j) == mf(&d)(j, i)); assert(inr(&d, i, j) && inr(&d, j, i)); }
        lem_spd_same(mf(&d), sym(mf(&k)), n);
    }
//@ tail
    proof {
        let q = ret_.perm; assert(q.back@ == p.forward@);
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] ret_.sk()(i, j) == sy.k()(i, j) by { let (u, v) = (p.forward@[i] as int, p.forward@[j] as int); assert(mf(&d)(u, v) == sym(mf(&ret_.k))(u, v)); assert(s1.k()(i, j) == d.at(u, v)); }
        assert forall|i: int| 0 <= i < n implies #[trigger] ret_.sr()(i) == sy.r()(i) by { assert(s1.r()(i) == sy.r()(i)); assert(s1.rhs->0 == ret_.r); }
    }
//@ end
//@ fn Solver for CholeskyEnvelopeSolver::solve -> res
//@ sig
    fn solve(self) -> (res: Result<Vec<R>, ()>)
//@ requires
    self.ok(),
//@ ensures
    match res { Ok(x) => x@.len() == self.n() && solves(self.sk(), vf(x@), self.sr(), self.n()), Err(_) => false },
//@ after solve_ll
    let ghost y = x@; let ghost n = self.n();
    proof { lem_solves_same(llt(mf(&chol), n), sym(mf(&self.k)), vf(y), vf(self.r@), n); }
//@ finish
    proof {
        let q = Some(self.perm); let ss = sym(mf(&self.k));
        assert forall|i: int| 0 <= i < n implies #[trigger] vf(x@)(i) == vf(y)(via(q, i)) by { let s = self.perm.back@[i] as int; assert(self.perm.forward@[s] == i); assert(x@[self.perm.forward@[s] as int] == y[s]); }
        lem_back(ss, vf(y), vf(self.r@), q, vf(x@), n);
        let (a2, b2) = (|i: int, j: int| ss(via(q, i), via(q, j)), |i: int| vf(self.r@)(via(q, i)));
        lem_solves_same(a2, self.sk(), vf(x@), b2, n);
    }
//@ end
}
}
