//@ include dict.rs
//@ include la.rs
verus! {
//@ enum Constraint #[derive(Clone, Copy)]
//@ struct DofTransform
// ---- what a constraint asks of its node: the fixed directions, and the rotation
pub open spec fn fixes(c: Constraint, dim: int) -> bool {
    match c { Constraint::Free => false, Constraint::XFixed => dim == 0, Constraint::YFixed => dim == 1, Constraint::XYFixed => true, Constraint::AngleFixed(_) => dim == 0 }
}
pub open spec fn ccos(c: Constraint) -> real { match c { Constraint::AngleFixed(t) => rcos(t.r()), _ => 1real } }
pub open spec fn csin(c: Constraint) -> real { match c { Constraint::AngleFixed(t) => rsin(t.r()), _ => 0real } }
// the rotation the first k entries give to node p
pub open spec fn rot_c(s: Seq<(usize, usize, R)>, k: int, p: int) -> real decreases k { if k <= 0 { 1real } else if s[k - 1].0 == 2 * p { rcos(s[k - 1].2.r()) } else { rot_c(s, k - 1, p) } }
pub open spec fn rot_s(s: Seq<(usize, usize, R)>, k: int, p: int) -> real decreases k { if k <= 0 { 0real } else if s[k - 1].0 == 2 * p { rsin(s[k - 1].2.r()) } else { rot_s(s, k - 1, p) } }
pub open spec fn rots_ok(s: Seq<(usize, usize, R)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 % 2 == 0 && s[k].1 == s[k].0 + 1 && s[k].1 < n
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> (#[trigger] s[k]).0 < (#[trigger] s[l]).0
}
pub proof fn lem_rot_none(s: Seq<(usize, usize, R)>, k: int, p: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).0 != 2 * p,
    ensures rot_c(s, k, p) == 1real, rot_s(s, k, p) == 0real,
    decreases k,
{ if k > 0 { lem_rot_none(s, k - 1, p); } }
pub proof fn lem_rot_ext(s: Seq<(usize, usize, R)>, t: Seq<(usize, usize, R)>, k: int, p: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|j: int| 0 <= j < k ==> (#[trigger] s[j]) == t[j],
    ensures rot_c(s, k, p) == rot_c(t, k, p), rot_s(s, k, p) == rot_s(t, k, p),
    decreases k,
{ if k > 0 { lem_rot_ext(s, t, k - 1, p); } }
pub proof fn lem_rot_unit(s: Seq<(usize, usize, R)>, k: int, p: int)
    requires 0 <= k <= s.len(),
    ensures rot_c(s, k, p) * rot_c(s, k, p) + rot_s(s, k, p) * rot_s(s, k, p) == 1real,
    decreases k,
{ if k > 0 { if s[k - 1].0 == 2 * p { ax_sincos(s[k - 1].2.r()); } else { lem_rot_unit(s, k - 1, p); } } }
// T, its product with a vector, and that of its transpose; k entries of s taken into account
pub open spec fn t_at(c: real, s: real, r: int, q: int) -> real { if r / 2 != q / 2 { 0real } else if r == q { c } else if r < q { -s } else { s } }
#[verifier::opaque]
pub open spec fn t_mul(c: real, s: real, u: real, v: real, d: int) -> real { if d == 0 { c * u - s * v } else { s * u + c * v } }
#[verifier::opaque]
pub open spec fn t_tr(c: real, s: real, u: real, v: real, d: int) -> real { if d == 0 { c * u + s * v } else { c * v - s * u } }
pub proof fn lem_t_one(u: real, v: real)
    ensures t_mul(1real, 0real, u, v, 0) == u, t_mul(1real, 0real, u, v, 1) == v, t_tr(1real, 0real, u, v, 0) == u, t_tr(1real, 0real, u, v, 1) == v,
{ reveal(t_mul); reveal(t_tr); assert(0real * u == 0real && 0real * v == 0real && 1real * u == u && 1real * v == v) by (nonlinear_arith); }
pub open spec fn xf(x: Seq<R>) -> A1 { |i: int| x[i].r() }
impl DofTransform {
    pub open spec fn n(&self) -> int { self.mask@.len() as int }
    pub open spec fn wf(&self) -> bool { self.n() % 2 == 0 && rots_ok(self.rotations@, self.n()) }
    pub open spec fn c_(&self, p: int) -> real { rot_c(self.rotations@, self.rotations@.len() as int, p) }
    pub open spec fn s_(&self, p: int) -> real { rot_s(self.rotations@, self.rotations@.len() as int, p) }
    // the number of free directions, and the place of direction i among them
    pub open spec fn free(&self) -> int { cnt(self.mask@, self.n()) }
    pub open spec fn pl(&self, i: int) -> int { cnt(self.mask@, i) }
    pub open spec fn t(&self, r: int, q: int) -> real { t_at(self.c_(r / 2), self.s_(r / 2), r, q) }
    // T x and T' x
    #[verifier::opaque]
    pub open spec fn txk(&self, k: int, x: A1, i: int) -> real { let p = i / 2; t_mul(rot_c(self.rotations@, k, p), rot_s(self.rotations@, k, p), x(2 * p), x(2 * p + 1), i % 2) }
    #[verifier::opaque]
    pub open spec fn ttxk(&self, k: int, x: A1, i: int) -> real { let p = i / 2; t_tr(rot_c(self.rotations@, k, p), rot_s(self.rotations@, k, p), x(2 * p), x(2 * p + 1), i % 2) }
    pub open spec fn tx(&self, x: A1, i: int) -> real { self.txk(self.rotations@.len() as int, x, i) }
    pub open spec fn ttx(&self, x: A1, i: int) -> real { self.ttxk(self.rotations@.len() as int, x, i) }
    proof fn lem_k0(&self, x: A1, i: int)
        requires self.wf(), 0 <= i < self.n(),
        ensures self.txk(0, x, i) == x(i), self.ttxk(0, x, i) == x(i),
    { reveal(DofTransform::txk); reveal(DofTransform::ttxk); let p = i / 2; lem_t_one(x(2 * p), x(2 * p + 1)); assert(i == 2 * p || i == 2 * p + 1); }
    // one more rotation
    proof fn lem_kn(&self, k: int, x: A1, i: int)
        requires self.wf(), 0 <= k < self.rotations@.len(), 0 <= i < self.n(),
        ensures
            i != self.rotations@[k].0 && i != self.rotations@[k].1 ==> self.txk(k + 1, x, i) == self.txk(k, x, i) && self.ttxk(k + 1, x, i) == self.ttxk(k, x, i),
            i == self.rotations@[k].0 || i == self.rotations@[k].1 ==> self.txk(k, x, i) == x(i) && self.ttxk(k, x, i) == x(i) && ({ let e = self.rotations@[k]; let (c, s, u, v) = (rcos(e.2.r()), rsin(e.2.r()), x(e.0 as int), x(e.1 as int));
                self.txk(k + 1, x, i) == (if i == e.0 { c * u - s * v } else { s * u + c * v }) && self.ttxk(k + 1, x, i) == if i == e.0 { c * u + s * v } else { c * v - s * u } }),
    {
        reveal(t_mul); reveal(t_tr); reveal(DofTransform::txk); reveal(DofTransform::ttxk); let e = self.rotations@[k]; let p = i / 2;
        assert(i == 2 * p || i == 2 * p + 1); assert(e.0 % 2 == 0 && e.1 == e.0 + 1);
        if i == e.0 || i == e.1 {
            assert forall|j: int| 0 <= j < k implies (#[trigger] self.rotations@[j]).0 != 2 * p by { assert(self.rotations@[j].0 < self.rotations@[k].0); }
            lem_rot_none(self.rotations@, k, p); lem_t_one(x(2 * p), x(2 * p + 1));
        }
    }
    // zero in the fixed directions, the given values in the free ones
    pub open spec fn spread(&self, x: Seq<R>) -> A1 { |i: int| if 0 <= i < self.n() && self.mask@[i] { x[self.pl(i)].r() } else { 0real } }
    // what the constraints of the nodes ask for
    pub open spec fn of(&self, cons: Seq<Constraint>) -> bool {
        &&& self.wf()
        &&& self.n() == 2 * cons.len()
        &&& forall|p: int| 0 <= p < cons.len() ==> self.mask@[2 * p] == !fixes(#[trigger] cons[p], 0) && self.mask@[2 * p + 1] == !fixes(cons[p], 1) && self.c_(p) == ccos(cons[p]) && self.s_(p) == csin(cons[p])
    }
    pub open spec fn is_bar(&self, x: Seq<R>, y: Seq<R>) -> bool {
        y.len() == self.free() && forall|i: int| #![trigger self.mask@[i]] 0 <= i < self.n() && self.mask@[i] ==> y[self.pl(i)].r() == self.ttx(xf(x), i)
    }
    // T'KT at the free directions
    pub open spec fn is_bar_mat(&self, k: &Dictionary, b: &Dictionary) -> bool {
        &&& b.wf() && b.nr() == self.free() && b.nc() == self.free()
        &&& forall|r: int, q: int| 0 <= r < self.n() && 0 <= q < self.n() && self.mask@[r] && self.mask@[q] ==> b.at(self.pl(r), self.pl(q)) == #[trigger] self.tkt(k, r, q)
    }
    pub open spec fn kt(&self, k: &Dictionary, j: int, q: int) -> real { rsum(|l: int| k.at(j, l) * self.t(l, q), self.n()) }
    pub open spec fn tkt(&self, k: &Dictionary, r: int, q: int) -> real { rsum(|j: int| self.t(j, r) * self.kt(k, j, q), self.n()) }
    pub open spec fn is_unbar(&self, x: Seq<R>, y: Seq<R>) -> bool {
        y.len() == self.n() && forall|i: int| 0 <= i < self.n() ==> (#[trigger] y[i]).r() == self.tx(self.spread(x), i)
    }
    proof fn lem_tkt(&self, k: &Dictionary, rot: &Dictionary, rp: &Dictionary, t: &Dictionary, res: &Dictionary)
        requires self.wf(), k.nr() == self.n(), k.nc() == self.n(), rot.nr() == self.n(), rot.nc() == self.n(), rp.nr() == self.n(), rp.nc() == self.n(), prod(k, rot, t), prod(rp, t, res),
            forall|r: int, q: int| inr(rot, r, q) ==> #[trigger] rot.at(r, q) == self.t(r, q), forall|r: int, q: int| inr(rp, r, q) ==> #[trigger] rp.at(r, q) == rot.at(q, r),
        ensures forall|r: int, q: int| inr(res, r, q) ==> #[trigger] res.at(r, q) == self.tkt(k, r, q),
    {
        let n = self.n();
        assert forall|r: int, q: int| inr(t, r, q) implies #[trigger] t.at(r, q) == self.kt(k, r, q) by { rsum_eq(|l: int| k.at(r, l) * rot.at(l, q), |l: int| k.at(r, l) * self.t(l, q), n); }
        assert forall|r: int, q: int| inr(res, r, q) implies #[trigger] res.at(r, q) == self.tkt(k, r, q) by {
            let f = |j: int| rp.at(r, j) * t.at(j, q); let g = |j: int| self.t(j, r) * self.kt(k, j, q);
            assert forall|j: int| 0 <= j < n implies f(j) == #[trigger] g(j) by { assert(inr(rp, r, j) && inr(t, j, q)); assert(rp.at(r, j) == rot.at(j, r)); assert(inr(rot, j, r)); assert(t.at(j, q) == self.kt(k, j, q)); }
            rsum_eq(f, g, n); }
    }
//@ fn DofTransform::from_constraints -> res
//@ requires
    cons@.len() * 2 < usize::MAX,
//@ ensures
    res.of(cons@),
//@ loop 0
    len0 == cons@.len(), cons@.len() * 2 < usize::MAX, res.mask@.len() == 2 * cons@.len(), rots_ok(res.rotations@, res.mask@.len() as int),
    forall|k: int| 0 <= k < res.rotations@.len() ==> (#[trigger] res.rotations@[k]).0 < 2 * k0,
    forall|j: int| 2 * k0 <= j < 2 * cons@.len() ==> #[trigger] res.mask@[j],
    forall|p: int| 0 <= p < k0 ==> res.mask@[2 * p] == !fixes(#[trigger] cons@[p], 0) && res.mask@[2 * p + 1] == !fixes(cons@[p], 1) && res.c_(p) == ccos(cons@[p]) && res.s_(p) == csin(cons@[p]),
//@ loop 0 start
    let ghost res0 = res;
    proof {
        lem_rot_none(res.rotations@, res.rotations@.len() as int, i0 as int);
        assert(res.mask@[2 * (i0 as int)] && res.mask@[2 * (i0 as int) + 1]);
        assert forall|p: int, q: int| #![trigger cons@[p], cons@[q]] p != q implies 2 * p != 2 * q && 2 * p + 1 != 2 * q && 2 * p != 2 * q + 1 by {}
    }
//@ before res.rotations.push
    proof {
        let t = res.rotations@.push(((i0 * 2) as usize, (i0 * 2 + 1) as usize, theta)); let m = res.rotations@.len() as int;
        assert forall|p: int| 0 <= p < cons@.len() implies rot_c(t, m + 1, p) == (if p == i0 { rcos(theta.r()) } else { #[trigger] res0.c_(p) }) && rot_s(t, m + 1, p) == (if p == i0 { rsin(theta.r()) } else { res0.s_(p) }) by {
            assert(t[m].0 == 2 * i0 && t[m].2 == theta);
            lem_rot_ext(t, res0.rotations@, m, p); }
    }
//@ end
//@ fn DofTransform::rotation_matrix -> res
//@ requires
    self.wf(), self.n() < usize::MAX,
//@ ensures
    res.wf(), res.nr() == self.n(), res.nc() == self.n(), forall|r: int, q: int| inr(&res, r, q) ==> #[trigger] res.at(r, q) == self.t(r, q),
//@ loop 0 before
    proof { assert forall|r: int, q: int| inr(&rot, r, q) implies #[trigger] rot.at(r, q) == t_at(rot_c(self.rotations@, 0, r / 2), rot_s(self.rotations@, 0, r / 2), r, q) by {} }
//@ loop 0
    self.wf(), len0 == self.rotations@.len(), visited@.len() == self.n(), rot.wf(), rot.nr() == self.n(), rot.nc() == self.n(),
    forall|j: int| 0 <= j < self.n() && #[trigger] visited@[j] ==> exists|k: int| 0 <= k < k0 && ((#[trigger] self.rotations@[k]).0 == j || self.rotations@[k].1 == j),
    forall|r: int, q: int| inr(&rot, r, q) ==> #[trigger] rot.at(r, q) == t_at(rot_c(self.rotations@, k0 as int, r / 2), rot_s(self.rotations@, k0 as int, r / 2), r, q),
//@ loop 0 start
    let ghost rot0 = rot; let ghost s = self.rotations@;
    proof {
        let e = s[i0 as int]; let (a, b) = (e.0 as int, e.1 as int);
        assert forall|k: int| 0 <= k < i0 implies (#[trigger] s[k]).0 != a && s[k].0 != b && s[k].1 != a && s[k].1 != b by { assert(s[k].0 < s[i0 as int].0); }
        assert(inr(&rot, a, a) && inr(&rot, a, b) && inr(&rot, b, a) && inr(&rot, b, b));
        assert(a / 2 == b / 2 && a == 2 * (a / 2));
        let w = rsin(e.2.r()); assert((-1real) * w == -w) by (nonlinear_arith);
    }
//@ loop 0 end
    proof {
        let e = s[i0 as int]; let (a, b) = (e.0 as int, e.1 as int);
        assert forall|j: int| 0 <= j < self.n() && #[trigger] visited@[j] implies exists|k: int| 0 <= k < k0 && ((#[trigger] self.rotations@[k]).0 == j || self.rotations@[k].1 == j) by { assert(s[i0 as int].0 == a && s[i0 as int].1 == b); }
        assert forall|r: int, q: int| inr(&rot, r, q) implies #[trigger] rot.at(r, q) == t_at(rot_c(s, k0 as int, r / 2), rot_s(s, k0 as int, r / 2), r, q) by {
            assert(rot0.at(r, q) == t_at(rot_c(s, i0 as int, r / 2), rot_s(s, i0 as int, r / 2), r, q));
            assert(rot_c(s, k0 as int, r / 2) == if a == 2 * (r / 2) { rcos(e.2.r()) } else { rot_c(s, i0 as int, r / 2) });
            assert(rot_s(s, k0 as int, r / 2) == if a == 2 * (r / 2) { rsin(e.2.r()) } else { rot_s(s, i0 as int, r / 2) });
            if r / 2 == q / 2 && a == 2 * (r / 2) {
                assert(r == a || r == b); assert(q == a || q == b);
                if r == a && q == a { assert(rot.at(r, q) == rcos(e.2.r())); }
                if r == a && q == b { assert(rot.at(r, q) == -rsin(e.2.r())); }
                if r == b && q == a { assert(rot.at(r, q) == rsin(e.2.r())); }
                if r == b && q == b { assert(rot.at(r, q) == rcos(e.2.r())); }
            } else { assert(rot.at(r, q) == rot0.at(r, q)); }
        }
    }
//@ end
//@ fn DofTransform::mask_vec -> res
//@ requires
    self.n() == xs@.len(),
//@ ensures
    res@.len() == self.free(), forall|i: int| 0 <= i < self.n() && self.mask@[i] ==> #[trigger] xs@[i] == res@[self.pl(i)],
//@ let acc0 : Vec<R>
//@ loop 0
    len0 == self.n(), self.n() == xs@.len(), acc0@.len() == self.pl(k0 as int), forall|i: int| 0 <= i < k0 && self.mask@[i] ==> self.pl(i) < acc0@.len() && #[trigger] xs@[i] == acc0@[self.pl(i)],
//@ loop 0 start
    proof { lem_cnt(self.mask@, 0, i0 as int);
        assert forall|i: int| 0 <= i < i0 && #[trigger] self.mask@[i] implies 0 <= self.pl(i) < self.pl(i0 as int) by { lem_cnt(self.mask@, i, i0 as int); lem_cnt(self.mask@, 0, i); } }
//@ end
//@ fn DofTransform::unmask_vec -> res
//@ requires
    self.free() <= xs@.len(),
//@ ensures
    res@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> (#[trigger] res@[i]).r() == self.spread(xs@)(i),
//@ start
    let ghost x0 = xs@;
//@ let acc0 : Vec<R>
//@ loop 0
    len0 == self.n(), n0 == x0.len(), self.free() <= x0.len(), pos1 == self.pl(k0 as int), acc0@.len() == k0, forall|i: int| 0 <= i < k0 ==> (#[trigger] acc0@[i]).r() == self.spread(x0)(i),
//@ loop 0 start
    proof { lem_cnt(self.mask@, 0, i0 as int); lem_cnt(self.mask@, i0 as int, self.n()); lem_cnt(self.mask@, k0 as int, self.n()); }
//@ end
//@ fn DofTransform::bar_matrix -> res
//@ requires
    self.wf(), self.n() < usize::MAX, mat.wf(), mat.nr() == self.n(), mat.nc() == self.n(),
//@ ensures
    self.is_bar_mat(mat, &res),
//@ before res.mask(
    proof {
        assert(res.nr() == self.n() && res.nc() == self.n());
        let t = choose|t: Dictionary| prod(mat, &rot, &t) && prod(&rot_prime, &t, &res); self.lem_tkt(mat, &rot, &rot_prime, &t, &res);
    }
//@ tail
    proof { assert forall|r: int, q: int| 0 <= r < self.n() && 0 <= q < self.n() && self.mask@[r] && self.mask@[q] implies ret_.at(self.pl(r), self.pl(q)) == #[trigger] self.tkt(mat, r, q) by { assert(res.at(r, q) == self.tkt(mat, r, q)); } }
//@ end
//@ fn DofTransform::unbar_vec -> res
//@ requires
    self.wf(), self.free() <= xs@.len(),
//@ ensures
    self.is_unbar(xs@, res@),
//@ start
    let ghost x0 = xs@; let ghost y = self.spread(x0);
//@ loop 0 before
    proof { assert forall|i: int| 0 <= i < self.n() implies (#[trigger] xs@[i]).r() == self.txk(0, y, i) by { self.lem_k0(y, i); } }
//@ loop 0
    self.wf(), len0 == self.rotations@.len(), xs@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> (#[trigger] xs@[i]).r() == self.txk(k0 as int, y, i),
//@ loop 0 start
    let ghost z0 = xs@;
    proof { let e = self.rotations@[i0 as int]; self.lem_kn(i0 as int, y, e.0 as int); self.lem_kn(i0 as int, y, e.1 as int); assert(xs@[e.0 as int].r() == y(e.0 as int) && xs@[e.1 as int].r() == y(e.1 as int)); }
//@ loop 0 end
    proof {
        let e = self.rotations@[i0 as int]; let (a, b) = (e.0 as int, e.1 as int);
        assert(xs@[a].r() == self.txk(k0 as int, y, a)); assert(xs@[b].r() == self.txk(k0 as int, y, b));
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] xs@[i]).r() == self.txk(k0 as int, y, i) by { if i != a && i != b { assert(xs@[i] == z0[i]); assert(z0[i].r() == self.txk(i0 as int, y, i)); self.lem_kn(i0 as int, y, i); } }
    }
//@ end
//@ fn DofTransform::bar_vec -> res
//@ requires
    self.wf(), self.n() == xs@.len(),
//@ ensures
    self.is_bar(xs@, res@),
//@ start
    let ghost x0 = xs@; let ghost y = xf(x0);
//@ loop 0 before
    proof { assert forall|i: int| 0 <= i < self.n() implies (#[trigger] xs@[i]).r() == self.ttxk(0, y, i) by { self.lem_k0(y, i); } }
//@ loop 0
    self.wf(), len0 == self.rotations@.len(), xs@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> (#[trigger] xs@[i]).r() == self.ttxk(k0 as int, y, i),
//@ loop 0 start
    let ghost z0 = xs@;
    proof { let e = self.rotations@[i0 as int]; self.lem_kn(i0 as int, y, e.0 as int); self.lem_kn(i0 as int, y, e.1 as int); assert(xs@[e.0 as int].r() == y(e.0 as int) && xs@[e.1 as int].r() == y(e.1 as int)); }
//@ loop 0 end
    proof {
        let e = self.rotations@[i0 as int]; let (a, b) = (e.0 as int, e.1 as int);
        assert(xs@[a].r() == self.ttxk(k0 as int, y, a)); assert(xs@[b].r() == self.ttxk(k0 as int, y, b));
        assert forall|i: int| 0 <= i < self.n() implies (#[trigger] xs@[i]).r() == self.ttxk(k0 as int, y, i) by { if i != a && i != b { assert(xs@[i] == z0[i]); assert(z0[i].r() == self.ttxk(i0 as int, y, i)); self.lem_kn(i0 as int, y, i); } }
    }
//@ tail
    proof { assert forall|i: int| #![trigger self.mask@[i]] 0 <= i < self.n() && self.mask@[i] implies ret_@[self.pl(i)].r() == self.ttx(y, i) by { let v = xs@[i]; assert(v == ret_@[self.pl(i)]); } }
//@ end
}
// ---- expanding and reducing undo each other
pub proof fn lem_unit2(c: real, s: real, a: real, b: real)
    requires c * c + s * s == 1real,
    ensures t_tr(c, s, t_mul(c, s, a, b, 0), t_mul(c, s, a, b, 1), 0) == a, t_tr(c, s, t_mul(c, s, a, b, 0), t_mul(c, s, a, b, 1), 1) == b,
        t_mul(c, s, t_tr(c, s, a, b, 0), t_tr(c, s, a, b, 1), 0) == a, t_mul(c, s, t_tr(c, s, a, b, 0), t_tr(c, s, a, b, 1), 1) == b,
{
    reveal(t_mul); reveal(t_tr); 
    assert(c * (c * a - s * b) + s * (s * a + c * b) == (c * c + s * s) * a) by (nonlinear_arith);
    assert(c * (s * a + c * b) - s * (c * a - s * b) == (c * c + s * s) * b) by (nonlinear_arith);
    assert(c * (c * a + s * b) - s * (c * b - s * a) == (c * c + s * s) * a) by (nonlinear_arith);
    assert(s * (c * a + s * b) + c * (c * b - s * a) == (c * c + s * s) * b) by (nonlinear_arith);
    assert(1real * a == a && 1real * b == b);
}
// every place in the reduced vector belongs to one free direction
pub proof fn lem_cnt_onto(m: Seq<bool>, n: int, j: int) -> (i: int)
    requires 0 <= n <= m.len(), 0 <= j < cnt(m, n),
    ensures 0 <= i < n, m[i], cnt(m, i) == j,
    decreases n,
{ if n > 0 && j < cnt(m, n - 1) { lem_cnt_onto(m, n - 1, j) } else { n - 1 } }
// T' undoes T and T undoes T', at one node
proof fn lem_tt(d: &DofTransform, w: A1, v: A1, i: int)
    requires d.wf(), 0 <= i < d.n(), v(2 * (i / 2)) == d.tx(w, 2 * (i / 2)), v(2 * (i / 2) + 1) == d.tx(w, 2 * (i / 2) + 1),
    ensures d.ttx(v, i) == w(i),
{
    reveal(DofTransform::txk); reveal(DofTransform::ttxk); let p = i / 2; let n = d.rotations@.len() as int; assert(i == 2 * p || i == 2 * p + 1);
    assert((2 * p) / 2 == p && (2 * p + 1) / 2 == p && (2 * p) % 2 == 0 && (2 * p + 1) % 2 == 1);
    lem_rot_unit(d.rotations@, n, p); lem_unit2(d.c_(p), d.s_(p), w(2 * p), w(2 * p + 1));
    assert(v(2 * p) == t_mul(d.c_(p), d.s_(p), w(2 * p), w(2 * p + 1), 0)); assert(v(2 * p + 1) == t_mul(d.c_(p), d.s_(p), w(2 * p), w(2 * p + 1), 1));
    assert(d.ttx(v, i) == t_tr(d.c_(p), d.s_(p), v(2 * p), v(2 * p + 1), i % 2));
}
proof fn lem_tt2(d: &DofTransform, w: A1, v: A1, i: int)
    requires d.wf(), 0 <= i < d.n(), w(2 * (i / 2)) == d.ttx(v, 2 * (i / 2)), w(2 * (i / 2) + 1) == d.ttx(v, 2 * (i / 2) + 1),
    ensures d.tx(w, i) == v(i),
{
    reveal(DofTransform::txk); reveal(DofTransform::ttxk); let p = i / 2; let n = d.rotations@.len() as int; assert(i == 2 * p || i == 2 * p + 1);
    assert((2 * p) / 2 == p && (2 * p + 1) / 2 == p && (2 * p) % 2 == 0 && (2 * p + 1) % 2 == 1);
    lem_rot_unit(d.rotations@, n, p); lem_unit2(d.c_(p), d.s_(p), v(2 * p), v(2 * p + 1));
    assert(w(2 * p) == t_tr(d.c_(p), d.s_(p), v(2 * p), v(2 * p + 1), 0)); assert(w(2 * p + 1) == t_tr(d.c_(p), d.s_(p), v(2 * p), v(2 * p + 1), 1));
    assert(d.tx(w, i) == t_mul(d.c_(p), d.s_(p), w(2 * p), w(2 * p + 1), i % 2));
}
pub proof fn lem_bar_unbar(d: &DofTransform, x: Seq<R>, y: Seq<R>, z: Seq<R>)
    requires d.wf(), x.len() == d.free(), d.is_unbar(x, y), d.is_bar(y, z),
    ensures z.len() == x.len(), forall|j: int| 0 <= j < x.len() ==> (#[trigger] z[j]).r() == x[j].r(),
{
    assert forall|j: int| 0 <= j < x.len() implies (#[trigger] z[j]).r() == x[j].r() by {
        let i = lem_cnt_onto(d.mask@, d.n(), j); let p = i / 2; assert(d.mask@[i]); let w = d.spread(x);
        assert(y[2 * p].r() == d.tx(w, 2 * p)); assert(y[2 * p + 1].r() == d.tx(w, 2 * p + 1));
        lem_tt(d, w, xf(y), i);
    }
}
pub proof fn lem_unbar_bar(d: &DofTransform, x: Seq<R>, y: Seq<R>, z: Seq<R>)
    requires d.wf(), x.len() == d.n(), forall|i: int| 0 <= i < d.n() && !d.mask@[i] ==> #[trigger] d.ttx(xf(x), i) == 0real, d.is_bar(x, y), d.is_unbar(y, z),
    ensures z.len() == x.len(), forall|i: int| 0 <= i < x.len() ==> (#[trigger] z[i]).r() == x[i].r(),
{
    let w = d.spread(y);
    assert forall|i: int| 0 <= i < d.n() implies #[trigger] w(i) == d.ttx(xf(x), i) by { if d.mask@[i] {} }
    assert forall|i: int| 0 <= i < x.len() implies (#[trigger] z[i]).r() == x[i].r() by {
        let p = i / 2; assert(w(2 * p) == d.ttx(xf(x), 2 * p)); assert(w(2 * p + 1) == d.ttx(xf(x), 2 * p + 1)); assert(z[i].r() == d.tx(w, i));
        lem_tt2(d, w, xf(x), i);
    }
}
// what the constraint list says: an expanded vector is zero along every fixed direction
pub proof fn lem_unbar_fixed(d: &DofTransform, cons: Seq<Constraint>, x: Seq<R>, y: Seq<R>, p: int)
    requires d.of(cons), d.is_unbar(x, y), 0 <= p < cons.len(),
    ensures cons[p] is XFixed || cons[p] is XYFixed ==> y[2 * p].r() == 0real, cons[p] is YFixed || cons[p] is XYFixed ==> y[2 * p + 1].r() == 0real,
        cons[p] is AngleFixed ==> ({ let t = cons[p]->AngleFixed_0.r(); rcos(t) * y[2 * p].r() + rsin(t) * y[2 * p + 1].r() == 0real }),
{
    let w = d.spread(x); let (a, b) = (w(2 * p), w(2 * p + 1));
    reveal(t_mul); reveal(t_tr); reveal(DofTransform::txk); reveal(DofTransform::ttxk); lem_t_one(a, b); lem_rot_unit(d.rotations@, d.rotations@.len() as int, p); lem_unit2(d.c_(p), d.s_(p), a, b);
    assert(fixes(cons[p], 0) == !d.mask@[2 * p]); assert(fixes(cons[p], 1) == !d.mask@[2 * p + 1]);
    assert(y[2 * p].r() == d.tx(w, 2 * p)); assert(y[2 * p + 1].r() == d.tx(w, 2 * p + 1));
}
// ---- the reduced matrix acts on reduced vectors as the full one on expanded vectors
pub proof fn lem_two(f: A1, n: int, p: int)
    requires 0 <= p, 2 * p + 1 < n, forall|k: int| 0 <= k < n && k != 2 * p && k != 2 * p + 1 ==> #[trigger] f(k) == 0real,
    ensures rsum(f, n) == f(2 * p) + f(2 * p + 1),
{ rs_zero(f, 2 * p); rs_rest(f, 2 * p + 2, n); assert(rsum(f, 2 * p + 2) == rsum(f, 2 * p + 1) + f(2 * p + 1)); assert(rsum(f, 2 * p + 1) == rsum(f, 2 * p) + f(2 * p)); }
impl DofTransform {
    pub open spec fn ta(&self) -> A2 { |r: int, q: int| self.t(r, q) }
    pub open spec fn tta(&self) -> A2 { |r: int, q: int| self.t(q, r) }
    proof fn lem_tx(&self, w: A1, i: int)
        requires self.wf(), 0 <= i < self.n(),
        ensures mv(self.ta(), w, self.n(), i) == self.tx(w, i), mv(self.tta(), w, self.n(), i) == self.ttx(w, i),
    {
        reveal(t_mul); reveal(t_tr); reveal(DofTransform::txk); reveal(DofTransform::ttxk); let p = i / 2; let (c, s, u, v) = (self.c_(p), self.s_(p), w(2 * p), w(2 * p + 1));
        assert(i == 2 * p || i == 2 * p + 1); assert(2 * p + 1 < self.n());
        let f = mvt(self.ta(), w, i); let g = mvt(self.tta(), w, i);
        assert forall|k: int| 0 <= k < self.n() && k != 2 * p && k != 2 * p + 1 implies #[trigger] f(k) == 0real by { assert(self.t(i, k) == 0real); let z = w(k); assert(0real * z == 0real) by (nonlinear_arith); }
        assert forall|k: int| 0 <= k < self.n() && k != 2 * p && k != 2 * p + 1 implies #[trigger] g(k) == 0real by { assert(self.t(k, i) == 0real); let z = w(k); assert(0real * z == 0real) by (nonlinear_arith); }
        lem_two(f, self.n(), p); lem_two(g, self.n(), p);
        assert((-s) * u == -(s * u) && (-s) * v == -(s * v)) by (nonlinear_arith);
    }
}
// a sum over the free directions is the sum over all of them, the fixed ones giving zero
pub proof fn lem_free_sum(d: &DofTransform, f: A1, g: A1, k: int)
    requires 0 <= k <= d.n(), forall|i: int| 0 <= i < k && d.mask@[i] ==> #[trigger] g(i) == f(d.pl(i)), forall|i: int| 0 <= i < k && !d.mask@[i] ==> #[trigger] g(i) == 0real,
    ensures rsum(g, k) == rsum(f, d.pl(k)),
    decreases k,
{ if k > 0 { lem_free_sum(d, f, g, k - 1); lem_cnt(d.mask@, 0, k - 1); lem_cnt(d.mask@, k - 1, k); let z = g(k - 1); } }
pub proof fn lem_consistent(d: &DofTransform, k: &Dictionary, b: &Dictionary, x: Seq<R>, y: Seq<R>, f: Seq<R>, z: Seq<R>, i: int)
    requires d.wf(), k.wf(), k.nr() == d.n(), k.nc() == d.n(), d.is_bar_mat(k, b), x.len() == d.free(), d.is_unbar(x, y),
        f.len() == d.n(), forall|j: int| 0 <= j < d.n() ==> (#[trigger] f[j]).r() == mv(|r: int, q: int| k.at(r, q), xf(y), d.n(), j), d.is_bar(f, z), 0 <= i < d.free(),
    ensures mv(|r: int, q: int| b.at(r, q), xf(x), d.free(), i) == z[i].r(),
{
    let n = d.n(); let w = d.spread(x); let ka = |r: int, q: int| k.at(r, q); let kta = |j: int, q: int| d.kt(k, j, q); let tk = |r: int, q: int| d.tkt(k, r, q);
    let r = lem_cnt_onto(d.mask@, n, i); assert(d.mask@[r]);
    assert forall|j: int, q: int| 0 <= j < n && 0 <= q < n implies #[trigger] kta(j, q) == mm(ka, d.ta(), n, j, q) by { rsum_eq(|l: int| k.at(j, l) * d.t(l, q), |l: int| ka(j, l) * d.ta()(l, q), n); }
    assert forall|j: int, q: int| 0 <= j < n && 0 <= q < n implies #[trigger] tk(j, q) == mm(d.tta(), kta, n, j, q) by { rsum_eq(|l: int| d.t(l, j) * d.kt(k, l, q), |l: int| d.tta()(j, l) * kta(l, q), n); }
    assert forall|j: int| 0 <= j < n implies #[trigger] xf(y)(j) == mv(d.ta(), w, n, j) by { d.lem_tx(w, j); assert(y[j].r() == d.tx(w, j)); }
    assert forall|j: int| 0 <= j < n implies #[trigger] xf(f)(j) == mv(kta, w, n, j) by { mv_assoc(ka, d.ta(), kta, w, xf(y), n, j); assert(f[j].r() == mv(ka, xf(y), n, j)); }
    mv_assoc(d.tta(), kta, tk, w, xf(f), n, r);
    d.lem_tx(xf(f), r);
    let ff = mvt(|r: int, q: int| b.at(r, q), xf(x), i); let gg = mvt(tk, w, r);
    assert forall|q: int| 0 <= q < n && d.mask@[q] implies #[trigger] gg(q) == ff(d.pl(q)) by { assert(b.at(d.pl(r), d.pl(q)) == d.tkt(k, r, q)); }
    assert forall|q: int| 0 <= q < n && !d.mask@[q] implies #[trigger] gg(q) == 0real by { let v = tk(r, q); assert(v * 0real == 0real) by (nonlinear_arith); }
    lem_free_sum(d, ff, gg, n);
}
}
