//@ include prelude.rs
verus! {
// ---- finite sums, and products of square arrays
pub open spec fn tsum(f: spec_fn(int) -> real, a: int, n: int) -> real decreases n - a { if a >= n { 0real } else { f(a) + tsum(f, a + 1, n) } }
pub proof fn lem_ts(f: spec_fn(int) -> real, a: int, n: int)
    requires 0 <= a <= n,
    ensures rsum(f, n) == rsum(f, a) + tsum(f, a, n),
    decreases n - a,
{ if a < n { lem_ts(f, a + 1, n); } }
pub proof fn ts_eq(f: spec_fn(int) -> real, g: spec_fn(int) -> real, a: int, n: int)
    requires forall|k: int| a <= k < n ==> f(k) == #[trigger] g(k),
    ensures tsum(f, a, n) == tsum(g, a, n),
    decreases n - a,
{ if a < n { assert(f(a) == g(a)); ts_eq(f, g, a + 1, n); } }
pub proof fn ts_zero(f: spec_fn(int) -> real, a: int, n: int)
    requires forall|k: int| a <= k < n ==> #[trigger] f(k) == 0real,
    ensures tsum(f, a, n) == 0real,
    decreases n - a,
{ if a < n { assert(f(a) == 0real); ts_zero(f, a + 1, n); } }
// adding nothing from a on
pub proof fn rs_rest(f: spec_fn(int) -> real, a: int, n: int)
    requires 0 <= a <= n, forall|k: int| a <= k < n ==> #[trigger] f(k) == 0real,
    ensures rsum(f, n) == rsum(f, a),
{ lem_ts(f, a, n); ts_zero(f, a, n); }
pub proof fn rs_zero(f: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] f(k) == 0real,
    ensures rsum(f, n) == 0real,
{ if n >= 0 { rs_rest(f, 0, n); } }
pub proof fn rs_one(f: spec_fn(int) -> real, n: int, j: int)
    requires 0 <= j < n, forall|k: int| 0 <= k < n && k != j ==> #[trigger] f(k) == 0real,
    ensures rsum(f, n) == f(j),
{ rs_zero(f, j); rs_rest(f, j + 1, n); }
pub proof fn rs_add(f: spec_fn(int) -> real, g: spec_fn(int) -> real, h: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] h(k) == f(k) + g(k),
    ensures rsum(h, n) == rsum(f, n) + rsum(g, n),
    decreases n,
{ if n > 0 { rs_add(f, g, h, n - 1); assert(h(n - 1) == f(n - 1) + g(n - 1)); } }
pub proof fn rs_scale(c: real, f: spec_fn(int) -> real, h: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] h(k) == c * f(k),
    ensures rsum(h, n) == c * rsum(f, n),
    decreases n,
{
    if n > 0 { rs_scale(c, f, h, n - 1); assert(h(n - 1) == c * f(n - 1)); let (a, b) = (rsum(f, n - 1), f(n - 1)); assert(c * (a + b) == c * a + c * b) by (nonlinear_arith); }
    else { assert(c * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn rs_swap(g: spec_fn(int, int) -> real, n: int, m: int)
    ensures rsum(|i: int| rsum(|j: int| g(i, j), m), n) == rsum(|j: int| rsum(|i: int| g(i, j), n), m),
    decreases n,
{
    let a = |i: int| rsum(|j: int| g(i, j), m);
    let b = |j: int| rsum(|i: int| g(i, j), n);
    if n > 0 {
        let b1 = |j: int| rsum(|i: int| g(i, j), n - 1);
        rs_swap(g, n - 1, m);
        let l = |j: int| g(n - 1, j);
        assert forall|j: int| 0 <= j < m implies #[trigger] b(j) == b1(j) + l(j) by {
            let f = |i: int| g(i, j);
            assert(rsum(f, n) == rsum(f, n - 1) + f(n - 1));
        }
        rs_add(b1, l, b, m);
        assert(rsum(a, n) == rsum(a, n - 1) + a(n - 1));
    } else { assert forall|j: int| 0 <= j < m implies #[trigger] b(j) == 0real by {} rs_zero(b, m); }
}
pub open spec fn rprod(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 1real } else { rprod(f, n - 1) * f(n - 1) } }
// products
pub type A2 = spec_fn(int, int) -> real;
pub type A1 = spec_fn(int) -> real;
pub open spec fn mvt(a: A2, x: A1, i: int) -> A1 { |j: int| a(i, j) * x(j) }
pub open spec fn mv(a: A2, x: A1, n: int, i: int) -> real { rsum(mvt(a, x, i), n) }
pub open spec fn mm(a: A2, b: A2, n: int, i: int, k: int) -> real { rsum(|j: int| a(i, j) * b(j, k), n) }
pub open spec fn delta(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
// (A B) x == A (B x)
pub proof fn mv_assoc(a: A2, b: A2, c: A2, x: A1, y: A1, n: int, i: int)
    requires forall|j: int, k: int| 0 <= j < n && 0 <= k < n ==> #[trigger] c(j, k) == mm(a, b, n, j, k), forall|j: int| 0 <= j < n ==> #[trigger] y(j) == mv(b, x, n, j), 0 <= i < n,
    ensures mv(c, x, n, i) == mv(a, y, n, i),
{
    let g = |k: int, j: int| (a(i, j) * b(j, k)) * x(k);
    let l = |k: int| rsum(|j: int| g(k, j), n);
    let r = |j: int| rsum(|k: int| g(k, j), n);
    rs_swap(g, n, n);
    assert forall|k: int| 0 <= k < n implies l(k) == #[trigger] mvt(c, x, i)(k) by {
        let f = |j: int| a(i, j) * b(j, k); let h = |j: int| g(k, j);
        assert forall|j: int| 0 <= j < n implies #[trigger] h(j) == x(k) * f(j) by { let (p, q) = (f(j), x(k)); assert(p * q == q * p) by (nonlinear_arith); }
        rs_scale(x(k), f, h, n);
        assert(c(i, k) == mm(a, b, n, i, k));
        let (p, q) = (c(i, k), x(k)); assert(p * q == q * p) by (nonlinear_arith);
    }
    rsum_eq(l, mvt(c, x, i), n);
    assert forall|j: int| 0 <= j < n implies r(j) == #[trigger] mvt(a, y, i)(j) by {
        let f = mvt(b, x, j); let h = |k: int| g(k, j);
        assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == a(i, j) * f(k) by { let (p, q, s) = (a(i, j), b(j, k), x(k)); assert((p * q) * s == p * (q * s)) by (nonlinear_arith); }
        rs_scale(a(i, j), f, h, n);
        assert(y(j) == mv(b, x, n, j));
    }
    rsum_eq(r, mvt(a, y, i), n);
}
// a right inverse of a is a left inverse if a x = 0 only for x = 0
pub open spec fn kernel(a: A2, x: A1, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] mv(a, x, n, i) == 0real }
pub open spec fn nil(x: A1, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] x(i) == 0real }
pub open spec fn injective(a: A2, n: int) -> bool { forall|x: A1| #[trigger] kernel(a, x, n) ==> nil(x, n) }
pub proof fn left_inv(a: A2, b: A2, n: int, k: int, i: int)
    requires injective(a, n), forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] mm(a, b, n, i, k) == delta(i, k), 0 <= k < n, 0 <= i < n,
    ensures mm(b, a, n, i, k) == delta(i, k),
{
    // column k of b a, minus column k of the identity
    let ak = |j: int| a(j, k);
    let y = |j: int| mv(b, ak, n, j);
    let c = |i: int, k: int| mm(a, b, n, i, k);
    let e = |j: int| delta(j, k);
    let z = |j: int| y(j) - e(j);
    assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, z, n, r) == 0real by {
        mv_assoc(a, b, c, ak, y, n, r);
        // c is the identity
        let f = mvt(c, ak, r);
        assert forall|q: int| 0 <= q < n && q != r implies #[trigger] f(q) == 0real by { assert(c(r, q) == 0real); let p = ak(q); assert(0real * p == 0real) by (nonlinear_arith); }
        rs_one(f, n, r);
        assert(c(r, r) == 1real); assert(f(r) == a(r, k)) by { let p = ak(r); assert(1real * p == p) by (nonlinear_arith); }
        // a e is column k too
        let h = mvt(a, e, r);
        assert forall|q: int| 0 <= q < n && q != k implies #[trigger] h(q) == 0real by { let p = a(r, q); assert(p * 0real == 0real) by (nonlinear_arith); }
        rs_one(h, n, k);
        assert(h(k) == a(r, k)) by { let p = a(r, k); assert(p * 1real == p) by (nonlinear_arith); }
        let g = mvt(a, z, r); let u = mvt(a, y, r);
        assert forall|q: int| 0 <= q < n implies #[trigger] u(q) == g(q) + h(q) by { let (p, s, t) = (a(r, q), y(q), e(q)); assert(p * s == p * (s - t) + p * t) by (nonlinear_arith); }
        rs_add(g, h, u, n);
    }
    assert(kernel(a, z, n)); assert(nil(z, n));
    assert(z(i) == 0real);
    assert(y(i) == mm(b, a, n, i, k)) by { rsum_eq(mvt(b, ak, i), |j: int| b(i, j) * a(j, k), n); }
}
}
