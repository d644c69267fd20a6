//@ include sub.rs
//@ include err.rs
verus! {
// ---- elimination with row exchanges
// x solves the system for t times the right-hand side
pub open spec fn sol(a: A2, b: A1, x: A1, t: real, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] mv(a, x, n, i) == t * b(i) }
pub open spec fn eqv(a: A2, b: A1, c: A2, d: A1, n: int) -> bool { forall|x: A1, t: real| #[trigger] sol(a, b, x, t, n) == sol(c, d, x, t, n) }
pub open spec fn cv<M: MatSpec>(m: &M) -> A1 { |j: int| m.at(j, 0) }
pub proof fn mv_row(a: A2, c: A2, x: A1, n: int, i: int, j: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a(i, k) == c(j, k),
    ensures mv(a, x, n, i) == mv(c, x, n, j),
{ assert forall|k: int| 0 <= k < n implies mvt(a, x, i)(k) == #[trigger] mvt(c, x, j)(k) by { assert(a(i, k) == c(j, k)); } rsum_eq(mvt(a, x, i), mvt(c, x, j), n); }
pub proof fn lem_ex(a0: A2, b0: A1, a: A2, b: A1, c: A2, d: A1, n: int, i: int, m: int)
    requires eqv(a0, b0, a, b, n), 0 <= i < n, 0 <= m < n,
        forall|r: int, k: int| 0 <= r < n && 0 <= k < n ==> #[trigger] c(r, k) == a(if r == i { m } else if r == m { i } else { r }, k),
        forall|r: int| 0 <= r < n ==> #[trigger] d(r) == b(if r == i { m } else if r == m { i } else { r }),
    ensures eqv(a0, b0, c, d, n),
{
    assert forall|x: A1, t: real| #[trigger] sol(a0, b0, x, t, n) == sol(c, d, x, t, n) by {
        assert forall|r: int| 0 <= r < n implies #[trigger] mv(c, x, n, r) == mv(a, x, n, if r == i { m } else if r == m { i } else { r }) && d(r) == b(if r == i { m } else if r == m { i } else { r }) by { mv_row(c, a, x, n, r, if r == i { m } else if r == m { i } else { r }); }
        if sol(a, b, x, t, n) { assert(sol(c, d, x, t, n)); }
        if sol(c, d, x, t, n) { assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, x, n, r) == t * b(r) by { let q = if r == i { m } else if r == m { i } else { r }; assert(mv(c, x, n, q) == t * d(q)); } }
        assert(sol(a0, b0, x, t, n) == sol(a, b, x, t, n));
    }
}
pub proof fn lem_sc(a0: A2, b0: A1, a: A2, b: A1, c: A2, d: A1, n: int, i: int, s: real)
    requires eqv(a0, b0, a, b, n), 0 <= i < n, s != 0real,
        forall|r: int, k: int| 0 <= r < n && 0 <= k < n ==> #[trigger] c(r, k) == if r == i { a(r, k) / s } else { a(r, k) },
        forall|r: int| 0 <= r < n ==> #[trigger] d(r) == if r == i { b(r) / s } else { b(r) },
    ensures eqv(a0, b0, c, d, n),
{
    assert forall|x: A1, t: real| #[trigger] sol(a0, b0, x, t, n) == sol(c, d, x, t, n) by {
        assert forall|r: int| 0 <= r < n && r != i implies #[trigger] mv(c, x, n, r) == mv(a, x, n, r) && d(r) == b(r) by { mv_row(c, a, x, n, r, r); }
        let (f, g) = (mvt(c, x, i), mvt(a, x, i));
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == s * f(k) by { lem_div(a(i, k), s); let (p, q, w) = (c(i, k), x(k), s); assert(c(i, k) == a(i, k) / s); assert((w * p) * q == w * (p * q)) by (nonlinear_arith); }
        rs_scale(s, f, g, n);
        lem_div(b(i), s);
        let (p, q) = (mv(c, x, n, i), d(i));
        assert(s * p == t * (s * q) <==> p == t * q) by (nonlinear_arith) requires s != 0real;
        assert(mv(a, x, n, i) == t * b(i) <==> mv(c, x, n, i) == t * d(i));
        if sol(a, b, x, t, n) { assert(mv(a, x, n, i) == t * b(i)); assert forall|r: int| 0 <= r < n implies #[trigger] mv(c, x, n, r) == t * d(r) by { if r != i { assert(mv(a, x, n, r) == t * b(r)); } } }
        if sol(c, d, x, t, n) { assert(mv(c, x, n, i) == t * d(i)); assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, x, n, r) == t * b(r) by { if r != i { assert(mv(c, x, n, r) == t * d(r)); } } }
        assert(sol(a0, b0, x, t, n) == sol(a, b, x, t, n));
    }
}
pub proof fn lem_el(a0: A2, b0: A1, a: A2, b: A1, c: A2, d: A1, n: int, i: int, m: int, s: real)
    requires eqv(a0, b0, a, b, n), 0 <= i < n, 0 <= m < n, i != m,
        forall|r: int, k: int| 0 <= r < n && 0 <= k < n ==> #[trigger] c(r, k) == if r == m { a(r, k) - a(i, k) * s } else { a(r, k) },
        forall|r: int| 0 <= r < n ==> #[trigger] d(r) == if r == m { b(r) - b(i) * s } else { b(r) },
    ensures eqv(a0, b0, c, d, n),
{
    assert forall|x: A1, t: real| #[trigger] sol(a0, b0, x, t, n) == sol(c, d, x, t, n) by {
        assert forall|r: int| 0 <= r < n && r != m implies #[trigger] mv(c, x, n, r) == mv(a, x, n, r) && d(r) == b(r) by { mv_row(c, a, x, n, r, r); }
        let (f, g, h) = (mvt(c, x, m), mvt(a, x, m), mvt(a, x, i)); let sh = |k: int| s * h(k);
        rs_scale(s, h, sh, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == f(k) + sh(k) by { let (p, q, w, y) = (a(m, k), a(i, k), s, x(k)); assert(c(m, k) == p - q * w); assert(p * y == (p - q * w) * y + w * (q * y)) by (nonlinear_arith); }
        rs_add(f, sh, g, n);
        // mv(a, m) == mv(c, m) + s mv(a, i)
        let (p, q) = (b(m), b(i));
        assert(t * p == t * (p - q * s) + s * (t * q)) by (nonlinear_arith);
        if sol(a, b, x, t, n) { assert(mv(a, x, n, m) == t * b(m) && mv(a, x, n, i) == t * b(i)); assert forall|r: int| 0 <= r < n implies #[trigger] mv(c, x, n, r) == t * d(r) by { if r != m { assert(mv(a, x, n, r) == t * b(r)); } } }
        if sol(c, d, x, t, n) { assert(mv(c, x, n, m) == t * d(m) && mv(c, x, n, i) == t * d(i)); assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, x, n, r) == t * b(r) by { if r != m { assert(mv(c, x, n, r) == t * d(r)); } } }
        assert(sol(a0, b0, x, t, n) == sol(a, b, x, t, n));
    }
}
// columns before k are done
pub open spec fn ech(a: A2, n: int, k: int) -> bool { (forall|r: int, c: int| 0 <= c < k && c < r < n ==> #[trigger] a(r, c) == 0real) && (forall|c: int| 0 <= c < k ==> #[trigger] a(c, c) == 1real) }
pub proof fn lem_stop(a0: A2, b0: A1, a: A2, b: A1, n: int, k: int)
    requires eqv(a0, b0, a, b, n), 0 <= k < n, ech(a, n, k), forall|r: int| k <= r < n ==> #[trigger] a(r, k) == 0real,
    ensures !injective(a0, n),
{
    assert(upp(a, k)); assert forall|i: int| 0 <= i < k implies #[trigger] a(i, i) != 0real by { assert(a(i, i) == 1real); }
    let ak = |r: int| a(r, k);
    let z = lem_upper_exists(a, ak, k, 0);
    let v = |j: int| if j < k { -z(j) } else if j == k { 1real } else { 0real };
    assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, v, n, r) == 0real * b(r) by {
        lem_mul0(b(r));
        let f = mvt(a, v, r); let g = mvt(a, z, r);
        assert forall|q: int| k + 1 <= q < n implies #[trigger] f(q) == 0real by { lem_mul0(a(r, q)); }
        rs_rest(f, k + 1, n);
        if r < k {
            assert forall|q: int| 0 <= q < k implies #[trigger] f(q) == -1real * g(q) by { let (p, y) = (a(r, q), z(q)); assert(p * (-y) == -1real * (p * y)) by (nonlinear_arith); }
            rs_scale(-1real, g, f, k); assert(mv(a, z, k, r) == ak(r));
            let p = a(r, k); assert(p * 1real == p && -1real * p == -p) by (nonlinear_arith);
        } else {
            assert forall|q: int| 0 <= q < k + 1 implies #[trigger] f(q) == 0real by { if q < k { assert(a(r, q) == 0real); } lem_mul0(v(q)); }
            rs_zero(f, k + 1);
        }
    }
    assert(sol(a, b, v, 0real, n)); assert(sol(a0, b0, v, 0real, n));
    assert forall|r: int| 0 <= r < n implies #[trigger] mv(a0, v, n, r) == 0real by { assert(mv(a0, v, n, r) == 0real * b0(r)); lem_mul0(b0(r)); }
    assert(kernel(a0, v, n)); assert(v(k) == 1real); assert(!nil(v, n));
}
pub proof fn lem_end(a0: A2, b0: A1, a: A2, b: A1, x: A1, n: int)
    requires eqv(a0, b0, a, b, n), n >= 0, ech(a, n, n), solves(a, x, b, n),
    ensures injective(a0, n), solves(a0, x, b0, n),
{
    assert(upp(a, n)); assert forall|i: int| 0 <= i < n implies #[trigger] a(i, i) != 0real by { assert(a(i, i) == 1real); }
    assert forall|i: int| 0 <= i < n implies #[trigger] mv(a, x, n, i) == 1real * b(i) by { let p = b(i); assert(1real * p == p) by (nonlinear_arith); }
    assert(sol(a, b, x, 1real, n)); assert(sol(a0, b0, x, 1real, n));
    assert forall|i: int| 0 <= i < n implies #[trigger] mv(a0, x, n, i) == b0(i) by { let p = b0(i); assert(1real * p == p) by (nonlinear_arith); }
    assert forall|v: A1| #[trigger] kernel(a0, v, n) implies nil(v, n) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] mv(a0, v, n, i) == 0real * b0(i) by { lem_mul0(b0(i)); }
        assert(sol(a0, b0, v, 0real, n)); assert(sol(a, b, v, 0real, n));
        assert forall|i: int| 0 <= i < n implies #[trigger] mv(a, v, n, i) == 0real by { assert(mv(a, v, n, i) == 0real * b(i)); lem_mul0(b(i)); }
        lem_upp_tail(a, v, n, 0);
    }
}
pub open spec fn shapes_ok<M: MatSpec>(a: &M, b: &M) -> bool { a.nr() == a.nc() && b.nr() == a.nr() && b.nc() == 1 }
pub trait MatrixSolve: MatrixLike {
    fn solve_gausselim(&mut self, b: Self) -> (res: Result<Self, MatrixError>)
        requires old(self).wf(), b.wf(), dense(old(self)), dense(&b), Self::zeros_ok(old(self).nr(), 1), Self::zdim(old(self).nr(), 1) == (old(self).nr(), 1int), forall|r: int, c: int| #[trigger] Self::zwr(r, c),
        ensures match res {
            Ok(x) => shapes_ok(old(self), &b) && x.wf() && x.nr() == b.nr() && x.nc() == 1 && injective(mf(old(self)), b.nr()) && solves(mf(old(self)), cv(&x), cv(&b), b.nr()),
            Err(_) => !shapes_ok(old(self), &b) || !injective(mf(old(self)), b.nr()) };
}
impl<M_: MatrixLike> MatrixSolve for M_ {
//@ fn Inverse<T> for T::solve_gausselim -> res
//@ let acc1 : Option<(usize, &R)>
//@ sig
    fn solve_gausselim(&mut self, mut b: Self) -> (res: Result<Self, MatrixError>)
//@ start
    let ghost (a0, b0, n) = (mf(self), cv(&b), self.nr());
//@ loop 0
    len0 == n, self.wf(), dense(self), self.nr() == n, self.nc() == n, b.wf(), dense(&b), b.nr() == n, b.nc() == 1,
    eqv(a0, b0, mf(self), cv(&b), n), ech(mf(self), n, k0 as int),
//@ loop 0 start
    let ghost (aa, bb, ci) = (mf(self), cv(&b), i0 as int);
//@ loop 1
    len1 == n - i0, acc1 is None ==> k1 == 0,
    acc1 matches Some(q) ==> k1 > 0 && i0 <= q.0 < i0 + k1 && q.1.r() == self.at(q.0 as int, ci) && forall|r: int| i0 <= r < i0 + k1 ==> rabs(#[trigger] self.at(r, ci)) <= rabs(q.1.r()),
//@ before let max_idx
    proof { let gq_ = max->0; if gq_.1.r() == 0real { assert forall|r: int| ci <= r < n implies #[trigger] aa(r, ci) == 0real by { assert(rabs(self.at(r, ci)) <= 0real); } lem_stop(a0, b0, aa, bb, n, ci); } }
//@ after let scaling = self[(col, col)]
    let ghost (a1, b1, s1) = (mf(self), cv(&b), scaling.r());
    proof { lem_ex(a0, b0, aa, bb, a1, b1, n, ci, max_idx as int); assert(s1 != 0real); }
//@ loop 2
    len2 == n, self.wf(), dense(self), self.nr() == n, self.nc() == n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] self.at(r, c) == if r == ci && c < k2 { a1(r, c) / s1 } else { a1(r, c) },
//@ loop 3
    len3 == 1, b.wf(), dense(&b), b.nr() == n, b.nc() == 1,
    forall|r: int| 0 <= r < n ==> #[trigger] b.at(r, 0) == if r == ci && 0 < k3 { b1(r) / s1 } else { b1(r) },
//@ loop 4 before
    proof {
        let (a2, b2) = (mf(self), cv(&b));
        lem_sc(a0, b0, a1, b1, a2, b2, n, ci, s1);
        assert(a2(ci, ci) == 1real) by { let p = s1; assert(p / p == 1real) by (nonlinear_arith) requires p != 0real; }
        assert forall|r: int, c: int| 0 <= c < ci && c < r < n implies #[trigger] a2(r, c) == 0real by { let q = if r == ci { max_idx as int } else if r == max_idx { ci } else { r }; assert(c < q < n); assert(aa(q, c) == 0real); assert(self.at(r, c) == a1(r, c) / s1 || self.at(r, c) == a1(r, c)); assert(a1(r, c) == aa(q, c)); let p = s1; assert(0real / p == 0real) by (nonlinear_arith) requires p != 0real; }
        assert forall|c: int| 0 <= c < ci implies #[trigger] a2(c, c) == 1real by { assert(aa(c, c) == 1real); }
    }
//@ loop 4
    len4 == n - (i0 + 1), self.wf(), dense(self), self.nr() == n, self.nc() == n, b.wf(), dense(&b), b.nr() == n, b.nc() == 1,
    eqv(a0, b0, mf(self), cv(&b), n), ech(mf(self), n, ci), self.at(ci, ci) == 1real, forall|r: int| ci < r < ci + 1 + k4 ==> #[trigger] self.at(r, ci) == 0real,
//@ loop 4 start
    let ghost (a3, b3, rr) = (mf(self), cv(&b), i0 + 1 + i4);
    let ghost s3 = self.at(rr, ci);
//@ loop 5
    len5 == n - i0, self.wf(), dense(self), self.nr() == n, self.nc() == n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] self.at(r, c) == if r == rr && ci <= c < ci + k5 { a3(rr, c) - a3(ci, c) * s3 } else { a3(r, c) },
//@ loop 4 end
    proof {
        let (a4, b4) = (mf(self), cv(&b));
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] a4(r, c) == if r == rr { a3(r, c) - a3(ci, c) * s3 } else { a3(r, c) } by { if r == rr && c < ci { assert(a3(ci, c) == 0real); lem_mul0(s3); } }
        lem_el(a0, b0, a3, b3, a4, b4, n, ci, rr, s3);
        assert(a4(rr, ci) == 0real) by { let p = s3; assert(1real * p == p) by (nonlinear_arith); }
        assert forall|r: int, c: int| 0 <= c < ci && c < r < n implies #[trigger] a4(r, c) == 0real by { assert(a3(r, c) == 0real); }
        assert forall|c: int| 0 <= c < ci implies #[trigger] a4(c, c) == 1real by { assert(a3(c, c) == 1real); }
        assert forall|r: int| ci < r < ci + 1 + k4 implies #[trigger] self.at(r, ci) == 0real by { if r < rr { assert(a3(r, ci) == 0real); } }
    }
//@ loop 0 end
    proof {
        let a5 = mf(self);
        assert forall|r: int, c: int| 0 <= c < k0 && c < r < n implies #[trigger] a5(r, c) == 0real by { if c == ci { assert(self.at(r, ci) == 0real); } }
    }
//@ loop 6 before
    let ghost (ae, be) = (mf(self), cv(&b));
    proof { assert(upp(ae, n)); assert forall|i: int| 0 <= i < n implies #[trigger] ae(i, i) != 0real by { assert(ae(i, i) == 1real); } }
//@ loop 6
    len6 == n, x.wf(), dense(&x), x.nr() == n, x.nc() == 1, solves_from(ae, cv(&x), be, n, n - k6),
//@ loop 6 start
    let ghost x0 = cv(&x); let ghost ri = n - 1 - i6;
//@ loop 7
    len7 == n - (ri + 1), temp.r() == rsum(mvt(ae, x0, ri), ri + 1 + k7) - rsum(mvt(ae, x0, ri), ri + 1),
//@ loop 6 end
    proof { assert(ae(ri, ri) == 1real); lem_ts(mvt(ae, x0, ri), ri + 1, n); let p = be(ri) - tsum(mvt(ae, x0, ri), ri + 1, n); assert(p / 1real == p) by (nonlinear_arith); lem_bwd(ae, x0, cv(&x), be, n, ri); }
//@ tail
    proof { lem_end(a0, b0, ae, be, cv(&x), n); }
//@ end
}
}
