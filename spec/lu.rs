//@ include fac.rs
//@ include err.rs
verus! {
//@ constfn SMALL_NUM
    ensures res.r() == small(),
//@ end
pub open spec fn small() -> real { 1real / rten(100) }
// ---- uniqueness and existence of factors, inverses
pub proof fn lem_lu_u(s: A2, l: A2, u: A2, n: int, i: int, k: int)
    requires lu_of(s, l, u, n), 0 <= i <= k < n,
    ensures s(i, k) == rsum(tl(l, u, i, k), i) + u(i, k),
{
    let f = tl(l, u, i, k);
    assert(s(i, k) == mm(l, u, n, i, k));
    assert forall|j: int| i + 1 <= j < n implies #[trigger] f(j) == 0real by { assert(l(i, j) == 0real); lem_mul0(u(j, k)); }
    rs_rest(f, i + 1, n); assert(l(i, i) == 1real); let p = u(i, k); assert(1real * p == p) by (nonlinear_arith);
    rsum_eq(f, |j: int| l(i, j) * u(j, k), n);
}
pub proof fn lem_lu_l(s: A2, l: A2, u: A2, n: int, i: int, k: int)
    requires lu_of(s, l, u, n), 0 <= i < k < n,
    ensures s(k, i) == rsum(tl(l, u, k, i), i) + l(k, i) * u(i, i),
{
    let f = tl(l, u, k, i);
    assert(s(k, i) == mm(l, u, n, k, i));
    assert forall|j: int| i + 1 <= j < n implies #[trigger] f(j) == 0real by { assert(u(j, i) == 0real); lem_mul0(l(k, j)); }
    rs_rest(f, i + 1, n);
    rsum_eq(f, |j: int| l(k, j) * u(j, i), n);
}
pub proof fn lem_lu_same(s: A2, l: A2, u: A2, l2: A2, u2: A2, n: int)
    requires lu_of(s, l, u, n), forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] l2(r, c) == l(r, c), forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] u2(r, c) == u(r, c),
    ensures lu_of(s, l2, u2, n),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies s(r, c) == #[trigger] mm(l2, u2, n, r, c) by {
        assert(s(r, c) == mm(l, u, n, r, c));
        let f = |k: int| l(r, k) * u(k, c); let g = |k: int| l2(r, k) * u2(k, c);
        assert forall|k: int| 0 <= k < n implies f(k) == #[trigger] g(k) by { assert(l2(r, k) == l(r, k)); assert(u2(k, c) == u(k, c)); }
        rsum_eq(f, g, n);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] l2(i, i) == 1real by { assert(l(i, i) == 1real); }
    assert forall|i: int| 0 <= i < n implies #[trigger] u2(i, i) != 0real by { assert(u(i, i) != 0real); }
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] l2(i, j) == 0real by { assert(l(i, j) == 0real); }
    assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] u2(i, j) == 0real by { assert(u(i, j) == 0real); }
}
// (A B)(B' A') is the identity
pub proof fn lem_prod_inv(a: A2, b: A2, ai: A2, bi: A2, s: A2, x: A2, n: int)
    requires is_inv(a, ai, n), is_inv(b, bi, n), forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] s(i, k) == mm(a, b, n, i, k),
        forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] x(i, k) == mm(bi, ai, n, i, k),
    ensures is_inv(s, x, n),
{
    assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] mm(s, x, n, i, k) == delta(i, k) by {
        let xk = |j: int| x(j, k); let aik = |j: int| ai(j, k); let bx = |j: int| mv(b, xk, n, j);
        // b x_k = a'_k
        assert forall|j: int| 0 <= j < n implies #[trigger] bx(j) == aik(j) by {
            let e = |p: int, q: int| mm(b, bi, n, p, q);
            assert forall|p: int| 0 <= p < n implies #[trigger] xk(p) == mv(bi, aik, n, p) by { rsum_eq(mvt(bi, aik, p), |q: int| bi(p, q) * ai(q, k), n); assert(x(p, k) == mm(bi, ai, n, p, k)); }
            mv_assoc(b, bi, e, aik, xk, n, j);
            let f = mvt(e, aik, j);
            assert forall|q: int| 0 <= q < n && q != j implies #[trigger] f(q) == 0real by { assert(mm(b, bi, n, j, q) == delta(j, q)); lem_mul0(aik(q)); }
            rs_one(f, n, j); assert(mm(b, bi, n, j, j) == delta(j, j)); let p = aik(j); assert(1real * p == p) by (nonlinear_arith);
        }
        mv_assoc(a, b, s, xk, bx, n, i);
        mv_agree(a, bx, aik, n, i);
        rsum_eq(mvt(s, xk, i), |j: int| s(i, j) * x(j, k), n); rsum_eq(mvt(a, aik, i), |j: int| a(i, j) * ai(j, k), n);
        assert(mm(a, ai, n, i, k) == delta(i, k));
    }
}
pub proof fn lem_mul3(x: real, y: real, z: real) ensures (x * y) * z == (x * z) * y { assert((x * y) * z == (x * z) * y) by (nonlinear_arith); }
pub proof fn lem_swap3(p: real, a: real, q: real, b: real, t: real)
    requires p * t == a, q * t == b,
    ensures p * b == q * a,
{ assert(p * (q * t) == q * (p * t)) by (nonlinear_arith); }
pub proof fn lem_inv2(a: real, b: real, c: real, d: real, t: real)
    requires t == a * d - c * b, t != 0real,
    ensures (d / t) * a + (-1real * (b / t)) * c == 1real, (d / t) * b + (-1real * (b / t)) * d == 0real, (-1real * (c / t)) * a + (a / t) * c == 0real, (-1real * (c / t)) * b + (a / t) * d == 1real,
        a * (d / t) + b * (-1real * (c / t)) == 1real, a * (-1real * (b / t)) + b * (a / t) == 0real, c * (d / t) + d * (-1real * (c / t)) == 0real, c * (-1real * (b / t)) + d * (a / t) == 1real,
{
    let (p, q, r, s) = (a / t, b / t, c / t, d / t);
    lem_div(a, t); lem_div(b, t); lem_div(c, t); lem_div(d, t);
    lem_swap3(s, d, p, a, t); lem_swap3(q, b, r, c, t); lem_swap3(s, d, q, b, t); lem_swap3(p, a, r, c, t); lem_swap3(p, a, q, b, t); lem_swap3(s, d, r, c, t);
    let y = s * a - q * c; let (u, v) = (s * a, q * c);
    assert((u - v) * t == u * t - v * t) by (nonlinear_arith);
    lem_mul3(s, a, t); lem_mul3(q, c, t);
    assert(s * t == d && q * t == b);
    assert(u * t == d * a && v * t == b * c);
    assert(d * a == a * d && b * c == c * b) by (nonlinear_arith);
    assert(y * t == t);
    assert(y == 1real) by (nonlinear_arith) requires y * t == t, t != 0real;
    assert((-1real * q) * c == -(q * c) && (-1real * q) * d == -(q * d) && (-1real * r) * a == -(r * a) && (-1real * r) * b == -(r * b)) by (nonlinear_arith);
    assert(a * s == s * a && b * (-1real * r) == -(r * b) && a * (-1real * q) == -(q * a) && b * p == p * b && c * s == s * c && d * (-1real * r) == -(r * d) && c * (-1real * q) == -(q * c) && d * p == p * d) by (nonlinear_arith);
}
// ---- determinants through elimination
// the matrix under elimination at column i, rows before j done: the multipliers stored below the diagonal left out
pub open spec fn work(a: A2, i: int, j: int) -> A2 { |r: int, c: int| if c < i && c < r || c == i && i < r < j { 0real } else { a(r, c) } }
pub open spec fn signed(odd: bool, x: real) -> real { if odd { -x } else { x } }
pub open spec fn det_at(s: A2, w: A2, n: int, odd: bool) -> bool { forall|d: Det| #[trigger] is_det(d, n) ==> d(s) == signed(odd, d(w)) }
// no entry of column i left that is large enough to divide by
pub open spec fn stuck(w: A2, n: int, i: int) -> bool {
    0 <= i < n && (forall|r: int, c: int| 0 <= c < i && c < r < n ==> #[trigger] w(r, c) == 0real) && (forall|r: int| i <= r < n ==> rabs(#[trigger] w(r, i)) < small())
}
pub open spec fn det_fails(s: A2, n: int) -> bool { exists|w: A2, odd: bool, i: int| #[trigger] det_at(s, w, n, odd) && #[trigger] stuck(w, n, i) }
pub proof fn lem_exchange(s: A2, a: A2, b: A2, n: int, i: int, m: int, odd: bool)
    requires det_at(s, work(a, i, 0), n, odd), 0 <= i < m < n, same2(b, swapped(a, i, m), n),
    ensures det_at(s, work(b, i, 0), n, !odd),
{
    assert forall|d: Det| #[trigger] is_det(d, n) implies d(s) == signed(!odd, d(work(b, i, 0))) by {
        let w = swapped(work(a, i, 0), i, m); let v = work(b, i, 0);
        assert(same2(v, w, n)) by { assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] v(r, c) == w(r, c) by { assert(b(r, c) == swapped(a, i, m)(r, c)); } }
        assert(d(v) == d(w)); assert(d(w) == -d(work(a, i, 0)));
    }
}
pub proof fn lem_eliminate(s: A2, a: A2, b: A2, n: int, i: int, j: int, odd: bool)
    requires det_at(s, work(a, i, j), n, odd), 0 <= i < j < n, a(i, i) != 0real,
        forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] b(r, c) == if r == j && c > i { a(j, c) - a(j, i) / a(i, i) * a(i, c) } else if r == j && c == i { a(j, i) / a(i, i) } else { a(r, c) },
    ensures det_at(s, work(b, i, j + 1), n, odd),
{
    let f = a(j, i) / a(i, i);
    assert forall|d: Det| #[trigger] is_det(d, n) implies d(s) == signed(odd, d(work(b, i, j + 1))) by {
        let w = added(work(a, i, j), j, i, -f); let v = work(b, i, j + 1);
        assert(same2(v, w, n)) by { assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] v(r, c) == w(r, c) by {
            if r == j { if c > i { let p = a(i, c); assert((-f) * p == -(f * p)) by (nonlinear_arith); } else if c == i { lem_div(a(j, i), a(i, i)); let p = a(i, i); assert((-f) * p == -(f * p)) by (nonlinear_arith); } else { lem_mul0(-f); } } } }
        assert(d(v) == d(w)); assert(d(w) == d(work(a, i, j)));
    }
}
pub proof fn lem_same_work(s: A2, w: A2, v: A2, n: int, odd: bool)
    requires det_at(s, w, n, odd), same2(w, v, n),
    ensures det_at(s, v, n, odd),
{ assert forall|d: Det| #[trigger] is_det(d, n) implies d(s) == signed(odd, d(v)) by { assert(d(w) == d(v)); } }
pub proof fn lem_done(s: A2, a: A2, n: int, odd: bool)
    requires det_at(s, work(a, n, 0), n, odd),
    ensures forall|d: Det| #[trigger] is_det(d, n) ==> d(s) == signed(odd, rprod(|k: int| a(k, k), n)),
{
    let w = work(a, n, 0);
    assert(upp(w, n));
    rp_eq(|k: int| w(k, k), |k: int| a(k, k), n);
    assert forall|d: Det| #[trigger] is_det(d, n) implies d(s) == signed(odd, rprod(|k: int| a(k, k), n)) by { assert(d(w) == rprod(|k: int| w(k, k), n)); }
}
pub proof fn lem_det1(a: A2) ensures det(a, 1) == a(0, 0)
{ reveal_with_fuel(det, 3); reveal_with_fuel(det_part, 3); let p = a(0, 0); assert(1real * p * 1real == p) by (nonlinear_arith); }
// of order two
pub proof fn lem_det2(a: A2) ensures det(a, 2) == a(0, 0) * a(1, 1) - a(1, 0) * a(0, 1)
{
    det_def(a, 2); reveal_with_fuel(rsum, 3); lem_det1(minor(a, 0)); lem_det1(minor(a, 1));
    let (p, q, r, t) = (a(0, 0), a(0, 1), a(1, 0), a(1, 1));
    assert(1real * p * t + -1real * r * q == p * t - r * q) by (nonlinear_arith);
}
pub proof fn lem_inv2m(s: A2)
    requires s(0, 0) * s(1, 1) - s(1, 0) * s(0, 1) != 0real,
    ensures ({ let t = s(0, 0) * s(1, 1) - s(1, 0) * s(0, 1);
        forall|x: A2| #![trigger is_inv(x, s, 2)] #![trigger is_inv(s, x, 2)] x(0, 0) == s(1, 1) / t && x(0, 1) == -1real * (s(0, 1) / t) && x(1, 0) == -1real * (s(1, 0) / t) && x(1, 1) == s(0, 0) / t ==> is_inv(x, s, 2) && is_inv(s, x, 2) }),
{
    let t = s(0, 0) * s(1, 1) - s(1, 0) * s(0, 1);
    lem_inv2(s(0, 0), s(0, 1), s(1, 0), s(1, 1), t);
    reveal_with_fuel(rsum, 3);
    assert forall|x: A2| x(0, 0) == s(1, 1) / t && x(0, 1) == -1real * (s(0, 1) / t) && x(1, 0) == -1real * (s(1, 0) / t) && x(1, 1) == s(0, 0) / t implies #[trigger] is_inv(x, s, 2) && is_inv(s, x, 2) by {
        assert forall|i: int, k: int| 0 <= i < 2 && 0 <= k < 2 implies #[trigger] mm(x, s, 2, i, k) == delta(i, k) by {
            assert(mm(x, s, 2, i, k) == x(i, 0) * s(0, k) + x(i, 1) * s(1, k)); if i == 0 { if k == 0 { } else { assert(k == 1); } } else { assert(i == 1); if k == 0 { } else { assert(k == 1); } } }
        assert forall|i: int, k: int| 0 <= i < 2 && 0 <= k < 2 implies #[trigger] mm(s, x, 2, i, k) == delta(i, k) by {
            assert(mm(s, x, 2, i, k) == s(i, 0) * x(0, k) + s(i, 1) * x(1, k)); if i == 0 { if k == 0 { } else { assert(k == 1); } } else { assert(i == 1); if k == 0 { } else { assert(k == 1); } } }
    }
}
pub proof fn lem_inv1m(s: A2)
    requires s(0, 0) != 0real,
    ensures forall|x: A2| #![trigger is_inv(x, s, 1)] #![trigger is_inv(s, x, 1)] x(0, 0) == 1real / s(0, 0) ==> is_inv(x, s, 1) && is_inv(s, x, 1),
{
    lem_div(1real, s(0, 0));
    reveal_with_fuel(rsum, 2);
    assert forall|x: A2| x(0, 0) == 1real / s(0, 0) implies #[trigger] is_inv(x, s, 1) && is_inv(s, x, 1) by {
        assert forall|i: int, k: int| 0 <= i < 1 && 0 <= k < 1 implies #[trigger] mm(x, s, 1, i, k) == delta(i, k) by { assert(mm(x, s, 1, 0, 0) == x(0, 0) * s(0, 0)); }
        assert forall|i: int, k: int| 0 <= i < 1 && 0 <= k < 1 implies #[trigger] mm(s, x, 1, i, k) == delta(i, k) by { assert(mm(s, x, 1, 0, 0) == s(0, 0) * x(0, 0)); }
    }
}
// orders one and two are inverted in closed form
pub open spec fn inv_ok(s: A2, n: int) -> bool { det(s, n) != 0real && (n > 2 ==> minors_ok(s, n)) }
pub trait MatrixInv: MatrixLike {
    fn v_clone(&self) -> (res: Self) ensures res == *self;
    fn lu_decompose(&self) -> (res: (LowerTriangular, UpperTriangular))
        requires self.wf(), self.nr() == self.nc(), tri_fits(self.nr()), minors_ok(mf(self), self.nr()),
        ensures res.0.wf(), res.1.wf(), res.0.nr() == self.nr(), res.1.nr() == self.nr(), lu_of(mf(self), mf(&res.0), mf(&res.1), self.nr());
    fn inv_lu(&self) -> (res: Self)
        requires self.wf(), self.nr() == self.nc(), tri_fits(self.nr()), minors_ok(mf(self), self.nr()), fits(self.nr(), self.nr()), Self::flat_ok(self.nr(), self.nr(), self.nr() * self.nr()),
        ensures res.wf(), res.nr() == self.nr(), res.nc() == self.nr(), is_inv(mf(&res), mf(self), self.nr()), is_inv(mf(self), mf(&res), self.nr());
    fn inverse(&self) -> (res: Self)
        requires self.wf(), self.nr() == self.nc(), tri_fits(self.nr()), inv_ok(mf(self), self.nr()), fits(self.nr(), self.nr()), Self::flat_ok(self.nr(), self.nr(), self.nr() * self.nr()),
        ensures res.wf(), res.nr() == self.nr(), res.nc() == self.nr(), is_inv(mf(&res), mf(self), self.nr()), is_inv(mf(self), mf(&res), self.nr());
    fn det_lu_pivot(&self) -> (res: Result<R, MatrixError>)
        requires self.wf(), dense(self), self.nr() < i32::MAX,
        ensures match res {
            Ok(v) => self.nr() == self.nc() && v.r() == det(mf(self), self.nr()),
            Err(_) => self.nr() != self.nc() || det_fails(mf(self), self.nr()) };
    fn determinant(&self) -> (res: Result<R, MatrixError>)
        requires self.wf(), self.nr() == 2 && self.nc() == 2 || dense(self) && self.nr() < i32::MAX,
        ensures match res {
            Ok(v) => self.nr() == self.nc() && v.r() == det(mf(self), self.nr())
                && (self.nr() == 2 ==> v.r() == self.at(0, 0) * self.at(1, 1) - self.at(1, 0) * self.at(0, 1)),
            Err(_) => self.nr() != self.nc() || det_fails(mf(self), self.nr()) && self.nr() != 2 };
    fn det_lu(&self) -> (res: R)
        requires self.wf(), self.nr() == self.nc(), tri_fits(self.nr()), minors_ok(mf(self), self.nr()),
        ensures res.r() == det(mf(self), self.nr());
}
impl<M_: MatrixLike> MatrixInv for M_ {
    #[verifier::external_body]
    fn v_clone(&self) -> (res: Self) { unimplemented!() }
//@ fn Inverse<T> for T::lu_decompose -> res
//@ let acc2 : Vec<&R>
//@ let acc3 : Vec<&R>
//@ let acc5 : Vec<&R>
//@ let acc6 : Vec<&R>
//@ loop 0 before
    let ghost (ss, nn) = (mf(self), self.nr());
    let ghost (lw, uw) = lem_lu_exists(ss, nn);
    proof { lower.lem_low(); upper.lem_upp(); }
//@ loop 0
    len0 == nn, lower.wf(), upper.wf(), lower.nr() == nn, upper.nr() == nn, lu_of(ss, lw, uw, nn),
    forall|r: int, c: int| 0 <= r < nn && 0 <= c < nn ==> #[trigger] lower.at(r, c) == if c < k0 { lw(r, c) } else { 0real },
    forall|r: int, c: int| 0 <= r < nn && 0 <= c < nn ==> #[trigger] upper.at(r, c) == if r < k0 { uw(r, c) } else { 0real },
//@ loop 1
    len1 == nn - i0, upper.wf(), upper.nr() == nn,
    forall|r: int, c: int| 0 <= r < nn && 0 <= c < nn ==> #[trigger] upper.at(r, c) == if r < i0 || r == i0 && c < i0 + k1 { uw(r, c) } else { 0real },
//@ loop 1 start
    let ghost kk = i0 + i1;
//@ loop 2
    len2 == nn, acc2@.len() == k2, forall|j: int| 0 <= j < k2 ==> (#[trigger] acc2@[j]).r() == upper.at(j, kk),
//@ loop 3
    len3 == nn, acc3@.len() == k3, forall|j: int| 0 <= j < k3 ==> (#[trigger] acc3@[j]).r() == lower.at(i0 as int, j),
//@ loop 3 after
    proof {
        let f = |j: int| acc2.rv()[j] * acc3.rv()[j]; let g = tl(lw, uw, i0 as int, kk);
        assert forall|j: int| i0 <= j < nn implies #[trigger] f(j) == 0real by { lem_mul0(upper.at(j, kk)); }
        rs_rest(f, i0 as int, nn);
        assert forall|j: int| 0 <= j < i0 implies f(j) == #[trigger] g(j) by { lem_comm(uw(j, kk), lw(i0 as int, j)); }
        rsum_eq(f, g, i0 as int);
        lem_lu_u(ss, lw, uw, nn, i0 as int, kk);
    }
//@ loop 4
    len4 == nn - i0, lower.wf(), lower.nr() == nn,
    forall|r: int, c: int| 0 <= r < nn && 0 <= c < nn ==> #[trigger] lower.at(r, c) == if c < i0 || c == i0 && r < i0 + k4 { lw(r, c) } else { 0real },
//@ loop 4 start
    let ghost kk = i0 + i4;
    proof { lower.lem_low(); assert(lw(i0 as int, i0 as int) == 1real); }
//@ loop 5
    len5 == nn, acc5@.len() == k5, forall|j: int| 0 <= j < k5 ==> (#[trigger] acc5@[j]).r() == lower.at(kk, j),
//@ loop 6
    len6 == nn, acc6@.len() == k6, forall|j: int| 0 <= j < k6 ==> (#[trigger] acc6@[j]).r() == upper.at(j, i0 as int),
//@ loop 6 after
    proof {
        let f = |j: int| acc5.rv()[j] * acc6.rv()[j]; let g = tl(lw, uw, kk, i0 as int);
        assert forall|j: int| i0 <= j < nn implies #[trigger] f(j) == 0real by { lem_mul0(upper.at(j, i0 as int)); lem_mul0(lower.at(kk, j)); }
        rs_rest(f, i0 as int, nn);
        assert forall|j: int| 0 <= j < i0 implies f(j) == #[trigger] g(j) by { }
        rsum_eq(f, g, i0 as int);
        lem_lu_l(ss, lw, uw, nn, i0 as int, kk);
        assert(uw(i0 as int, i0 as int) != 0real);
        let (p, r) = (lw(kk, i0 as int), uw(i0 as int, i0 as int)); assert((p * r) / r == p) by (nonlinear_arith) requires r != 0real;
    }
//@ tail
    proof { lem_lu_same(ss, lw, uw, mf(&ret_.0), mf(&ret_.1), nn); }
//@ end
//@ fn Inverse<T> for T::inv_lu -> res
//@ let ret_ : M_
//@ tail
    proof {
        let n = self.nr(); let s = mf(self);
        assert forall|i: int| 0 <= i < n implies #[trigger] mf(&l)(i, i) != 0real by { assert(mf(&l)(i, i) == 1real); }
        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] mf(&ret_)(i, k) == mm(mf(&u_inv), mf(&l_inv), n, i, k) by { assert(ret_.at(i, k) == mat_dot(&u_inv, &l_inv, i, k)); rsum_eq(|j: int| u_inv.at(i, j) * l_inv.at(j, k), |j: int| mf(&u_inv)(i, j) * mf(&l_inv)(j, k), n); }
        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] s(i, k) == mm(mf(&l), mf(&u), n, i, k) by { }
        lem_prod_inv(mf(&l), mf(&u), mf(&l_inv), mf(&u_inv), s, mf(&ret_), n);
        lem_prod_inv(mf(&u_inv), mf(&l_inv), mf(&u), mf(&l), mf(&ret_), s, n);
    }
//@ end
//@ fn Inverse<T> for T::det_lu_pivot -> res
//@ let acc2 : Option<(usize, R)>
//@ loop 0
    acc0@.len() == k0,
//@ loop 1 before
    let ghost ss = mf(self); let ghost nn = self.nr();
    proof { assert forall|d: Det| #[trigger] is_det(d, nn) implies d(ss) == signed(false, d(ss)) by { } lem_same_work(ss, ss, work(mf(&a), 0, 0), nn, false); }
//@ loop 1
    len1 == nn, nn == n, p@.len() == n, a.wf(), dense(&a), a.nr() == n, a.nc() == n, 0 <= swap_count <= k1, det_at(ss, work(mf(&a), k1 as int, 0), nn, swap_count % 2 != 0),
//@ loop 1 start
    let ghost a0 = a; let ghost ii = i1 as int;
//@ loop 2
    len2 == n - i1, acc2 is None ==> k2 == 0,
    acc2 matches Some(q) ==> k2 > 0 && i1 <= q.0 < i1 + k2 && q.1.r() == rabs(a.at(q.0 as int, ii)) && forall|r: int| i1 <= r < i1 + k2 ==> rabs(#[trigger] a.at(r, ii)) <= q.1.r(),
//@ before return Err(MatrixError::Pivot)
    proof { let w = work(mf(&a), ii, 0);
        assert(stuck(w, nn, ii)) by { assert forall|r: int| i1 <= r < nn implies rabs(#[trigger] w(r, ii)) < small() by { assert(rabs(a.at(r, ii)) <= max_a.r()); } }
        assert(det_at(ss, w, nn, swap_count % 2 != 0)); }
//@ loop 3 before
    let ghost odd = swap_count % 2 != 0;
    proof {
        lem_ten(100); assert(small() > 0real) by { let t = rten(100); assert(1real / t > 0real) by (nonlinear_arith) requires t > 0real; }
        if max_i != i1 { lem_exchange(ss, mf(&a0), mf(&a), nn, ii, max_i as int, !odd); }
        lem_same_work(ss, work(mf(&a), ii, 0), work(mf(&a), ii, ii + 1), nn, odd);
        assert(a.at(ii, ii) == a0.at(max_i as int, ii));
    }
//@ loop 3
    len3 == n - (i1 + 1), a.wf(), dense(&a), a.nr() == n, a.nc() == n, det_at(ss, work(mf(&a), ii, ii + 1 + k3), nn, odd), a.at(ii, ii) != 0real,
//@ loop 3 start
    let ghost a2 = a; let ghost jj = ii + 1 + i3;
//@ loop 4
    len4 == n - (i1 + 1), a.wf(), dense(&a), a.nr() == n, a.nc() == n,
    forall|r: int, c: int| 0 <= r < nn && 0 <= c < nn ==> #[trigger] a.at(r, c) == if r == jj && ii < c < ii + 1 + k4 { a2.at(jj, c) - a2.at(jj, ii) / a2.at(ii, ii) * a2.at(ii, c) } else if r == jj && c == ii { a2.at(jj, ii) / a2.at(ii, ii) } else { a2.at(r, c) },
//@ loop 3 end
    proof { lem_eliminate(ss, mf(&a2), mf(&a), nn, ii, jj, odd); }
//@ loop 1 end
    proof { lem_same_work(ss, work(mf(&a), ii, nn), work(mf(&a), ii + 1, 0), nn, odd); }
//@ loop 5
    len5 == nn, acc5.r() == rprod(|k: int| mf(&a)(k, k), k5 as int),
//@ loop 5 after
    proof { det_laws(nn); let dd = |x: A2| det(x, nn); assert(dd(ss) == det(ss, nn)); lem_done(ss, mf(&a), nn, swap_count % 2 != 0); let q = swap_count; assert((q & 1 == 0) == (q % 2 == 0)) by (bit_vector) requires q >= 0;
        let x = acc5.r(); assert(x * 1real == x && x * -1real == -x) by (nonlinear_arith); }
//@ end
//@ fn Inverse<T> for T::det_lu -> res
//@ loop 0
    len0 == self.nr(), acc0.r() == rprod(|k: int| mf(&u)(k, k), k0 as int),
//@ loop 0 after
    proof { let l = choose|l: A2| lu_of(mf(self), l, mf(&u), self.nr()); lem_lu_det(mf(self), l, mf(&u), self.nr()); }
//@ end
//@ fn Inverse<T> for T::determinant -> res
//@ start
    proof { lem_det2(mf(self)); }
//@ end
//@ fn Inverse<T> for T::inverse -> res
//@ let ret_ : M_
//@ start
    let ghost (s, n) = (mf(self), self.nr());
    proof {
        if n == 2 { lem_det2(s); lem_inv2m(s); assert(n * n == 4) by (nonlinear_arith) requires n == 2; }
        if n == 1 { lem_det1(s); lem_inv1m(s); assert(n * n == 1) by (nonlinear_arith) requires n == 1; }
    }
//@ end
}
}
