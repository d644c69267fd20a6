//@ include sub.rs
//@ include alg.rs
verus! {
// ---- the determinant, by expansion along the first column
pub open spec fn same2(a: A2, b: A2, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] a(i, j) == b(i, j) }
pub open spec fn swapped(a: A2, i: int, j: int) -> A2 { |r: int, c: int| a(if r == i { j } else if r == j { i } else { r }, c) }
pub open spec fn added(a: A2, i: int, j: int, f: real) -> A2 { |r: int, c: int| if r == i { a(r, c) + f * a(j, c) } else { a(r, c) } }
pub open spec fn minor(a: A2, r: int) -> A2 { |i: int, j: int| a(if i < r { i } else { i + 1 }, j + 1) }
pub open spec fn alt(r: int) -> real { if r % 2 == 0 { 1real } else { -1real } }
pub open spec fn det(a: A2, n: int) -> real decreases n, n + 2 { if n <= 0 { 1real } else { det_part(a, n, n) } }
// the first k terms of the expansion
pub open spec fn det_part(a: A2, n: int, k: int) -> real decreases n, k + 1 when n > 0 && 0 <= k { if k <= 0 { 0real } else { det_part(a, n, k - 1) + alt(k - 1) * a(k - 1, 0) * det(minor(a, k - 1), n - 1) } }
pub open spec fn dterm(a: A2, n: int) -> A1 { |r: int| alt(r) * a(r, 0) * det(minor(a, r), n - 1) }
proof fn det_parts(a: A2, n: int, k: int) requires n > 0, 0 <= k, ensures det_part(a, n, k) == rsum(dterm(a, n), k), decreases k { if k > 0 { det_parts(a, n, k - 1); } }
pub proof fn det_def(a: A2, n: int) requires n > 0, ensures det(a, n) == rsum(dterm(a, n), n) { det_parts(a, n, n); }
pub proof fn det_same(a: A2, b: A2, n: int)
    requires same2(a, b, n),
    ensures det(a, n) == det(b, n),
    decreases n,
{
    if n > 0 {
        assert forall|r: int| 0 <= r < n implies dterm(a, n)(r) == #[trigger] dterm(b, n)(r) by {
            assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 implies #[trigger] minor(a, r)(i, j) == minor(b, r)(i, j) by { let q = if i < r { i } else { i + 1 }; assert(a(q, j + 1) == b(q, j + 1)); }
            det_same(minor(a, r), minor(b, r), n - 1); assert(a(r, 0) == b(r, 0));
        }
        det_def(a, n); det_def(b, n); rsum_eq(dterm(a, n), dterm(b, n), n);
    }
}
proof fn rs_exch(f: A1, g: A1, n: int, i: int)
    requires 0 <= i, i + 1 < n, g(i) == f(i + 1), g(i + 1) == f(i), forall|k: int| 0 <= k < n && k != i && k != i + 1 ==> #[trigger] g(k) == f(k),
    ensures rsum(g, n) == rsum(f, n),
    decreases n,
{
    if n > i + 2 { rs_exch(f, g, n - 1, i); assert(g(n - 1) == f(n - 1)); }
    else { assert(n == i + 2); rsum_eq(f, g, i); assert(rsum(f, n) == rsum(f, i + 1) + f(i + 1) && rsum(f, i + 1) == rsum(f, i) + f(i)); assert(rsum(g, n) == rsum(g, i + 1) + g(i + 1) && rsum(g, i + 1) == rsum(g, i) + g(i)); }
}
proof fn det_adj(a: A2, n: int, i: int)
    requires 0 <= i, i + 1 < n,
    ensures det(swapped(a, i, i + 1), n) == -det(a, n),
    decreases n,
{
    let b = swapped(a, i, i + 1);
    let (ta, tb) = (dterm(a, n), dterm(b, n));
    let h = |r: int| -1real * ta(r);
    let g = |r: int| if r == i { h(i + 1) } else if r == i + 1 { h(i) } else { h(r) };
    assert forall|r: int| 0 <= r < n implies g(r) == #[trigger] tb(r) by {
        if r == i || r == i + 1 {
            let q = if r == i { i + 1 } else { i };
            assert(same2(minor(b, r), minor(a, q), n - 1));
            det_same(minor(b, r), minor(a, q), n - 1);
            assert(alt(r) == -alt(q));
            let (s, x, y) = (alt(q), a(q, 0), det(minor(a, q), n - 1));
            assert((-s) * x * y == -1real * (s * x * y)) by (nonlinear_arith);
        } else {
            let e = if r < i { i - 1 } else { i };
            assert(same2(minor(b, r), swapped(minor(a, r), e, e + 1), n - 1));
            det_same(minor(b, r), swapped(minor(a, r), e, e + 1), n - 1);
            det_adj(minor(a, r), n - 1, e);
            let (s, y) = (alt(r) * a(r, 0), det(minor(a, r), n - 1));
            assert(s * (-y) == -1real * (s * y)) by (nonlinear_arith);
        }
    }
    rsum_eq(g, tb, n); rs_exch(h, g, n, i); rs_scale(-1real, ta, h, n);
    det_def(a, n); det_def(b, n);
    let d = det(a, n); assert(-1real * d == -d) by (nonlinear_arith);
}
pub proof fn det_swap(a: A2, n: int, i: int, j: int)
    requires 0 <= i < n, 0 <= j < n, i != j,
    ensures det(swapped(a, i, j), n) == -det(a, n),
    decreases if i < j { j - i } else { i - j + n },
{
    if j < i { det_swap(a, n, j, i); assert(same2(swapped(a, i, j), swapped(a, j, i), n)); det_same(swapped(a, i, j), swapped(a, j, i), n); }
    else if j == i + 1 { det_adj(a, n, i); }
    else {
        let b = swapped(a, j - 1, j); let c = swapped(b, i, j - 1); let d = swapped(c, j - 1, j);
        det_adj(a, n, j - 1); det_swap(b, n, i, j - 1); det_adj(c, n, j - 1);
        assert(same2(swapped(a, i, j), d, n)); det_same(swapped(a, i, j), d, n);
    }
}
pub proof fn det_twice(a: A2, n: int, i: int, j: int)
    requires 0 <= i < n, 0 <= j < n, i != j, forall|k: int| 0 <= k < n ==> #[trigger] a(i, k) == a(j, k),
    ensures det(a, n) == 0real,
{ det_swap(a, n, i, j); assert(same2(swapped(a, i, j), a, n)) by { assert forall|r: int, k: int| 0 <= r < n && 0 <= k < n implies #[trigger] swapped(a, i, j)(r, k) == a(r, k) by { assert(a(i, k) == a(j, k)); } } det_same(swapped(a, i, j), a, n); }
// products by the factor of a row addition, kept closed
#[verifier::opaque]
pub open spec fn mu(f: real, x: real) -> real { f * x }
proof fn mu_dist(s: real, x: real, y: real, d: real, f: real) ensures s * (x + mu(f, y)) * d == s * x * d + mu(f, s * y * d)
{ reveal(mu); da(x, f * y, s); da(s * x, s * (f * y), d); assert(s * (f * y) * d == f * (s * y * d)) by (nonlinear_arith); }
proof fn mu_dist2(s: real, d: real, e: real, f: real) ensures s * (d + mu(f, e)) == s * d + mu(f, s * e)
{ reveal(mu); da(d, f * e, s); assert(s * (f * e) == f * (s * e)) by (nonlinear_arith); }
proof fn rs_mu(f: real, b: A1, h: A1, n: int) requires forall|k: int| 0 <= k < n ==> #[trigger] h(k) == mu(f, b(k)), ensures rsum(h, n) == mu(f, rsum(b, n))
{ reveal(mu); rs_scale(f, b, h, n); }
// linear in row m
pub open spec fn lin(a: A2, b: A2, c: A2, n: int, m: int, f: real) -> bool {
    &&& forall|r: int, k: int| 0 <= r < n && 0 <= k < n ==> #[trigger] c(r, k) == if r == m { a(r, k) + mu(f, b(r, k)) } else { a(r, k) }
    &&& forall|r: int, k: int| 0 <= r < n && 0 <= k < n && r != m ==> #[trigger] b(r, k) == a(r, k)
}
proof fn lin_at(a: A2, b: A2, c: A2, n: int, m: int, f: real, r: int)
    requires 0 <= m < n, 0 <= r < n, r == m, lin(a, b, c, n, m, f),
    ensures same2(minor(c, r), minor(a, r), n - 1), same2(minor(b, r), minor(a, r), n - 1),
{
    let (ma, mb, mc) = (minor(a, r), minor(b, r), minor(c, r));
    assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 implies #[trigger] mc(i, j) == ma(i, j) by { let q = if i < r { i } else { i + 1 }; assert(c(q, j + 1) == a(q, j + 1)); }
    assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 implies #[trigger] mb(i, j) == ma(i, j) by { let q = if i < r { i } else { i + 1 }; assert(b(q, j + 1) == a(q, j + 1)); }
}
proof fn lin_off(a: A2, b: A2, c: A2, n: int, m: int, f: real, r: int)
    requires 0 <= m < n, 0 <= r < n, r != m, lin(a, b, c, n, m, f),
    ensures lin(minor(a, r), minor(b, r), minor(c, r), n - 1, if m < r { m } else { m - 1 }, f),
{
    let (ma, mb, mc) = (minor(a, r), minor(b, r), minor(c, r)); let w = if m < r { m } else { m - 1 };
    assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 implies #[trigger] mc(i, j) == if i == w { ma(i, j) + mu(f, mb(i, j)) } else { ma(i, j) } by { let q = if i < r { i } else { i + 1 }; assert(q == m <==> i == w); assert(c(q, j + 1) == if q == m { a(q, j + 1) + mu(f, b(q, j + 1)) } else { a(q, j + 1) }); }
    assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && i != w implies #[trigger] mb(i, j) == ma(i, j) by { let q = if i < r { i } else { i + 1 }; assert(q != m); assert(b(q, j + 1) == a(q, j + 1)); }
}
pub proof fn det_lin(a: A2, b: A2, c: A2, n: int, m: int, f: real)
    requires 0 <= m < n, lin(a, b, c, n, m, f),
    ensures det(c, n) == det(a, n) + mu(f, det(b, n)),
    decreases n, 1int,
{
    let (ta, tb, tc) = (dterm(a, n), dterm(b, n), dterm(c, n));
    let h = |r: int| mu(f, tb(r));
    assert forall|r: int| 0 <= r < n implies #[trigger] tc(r) == ta(r) + h(r) by { det_lin_term(a, b, c, n, m, f, r); }
    rs_add(ta, h, tc, n); rs_mu(f, tb, h, n); det_def(a, n); det_def(b, n); det_def(c, n);
}
proof fn det_lin_term(a: A2, b: A2, c: A2, n: int, m: int, f: real, r: int)
    requires 0 <= m < n, 0 <= r < n, lin(a, b, c, n, m, f),
    ensures dterm(c, n)(r) == dterm(a, n)(r) + mu(f, dterm(b, n)(r)),
    decreases n, 0int,
{
    let (ma, mb, mc) = (minor(a, r), minor(b, r), minor(c, r));
    if r == m {
        lin_at(a, b, c, n, m, f, r);
        det_same(mc, ma, n - 1); det_same(mb, ma, n - 1);
        assert(c(r, 0) == a(r, 0) + mu(f, b(r, 0)));
        mu_dist(alt(r), a(r, 0), b(r, 0), det(ma, n - 1), f);
    } else {
        lin_off(a, b, c, n, m, f, r);
        det_lin(ma, mb, mc, n - 1, if m < r { m } else { m - 1 }, f);
        assert(c(r, 0) == a(r, 0) && b(r, 0) == a(r, 0));
        mu_dist2(alt(r) * a(r, 0), det(ma, n - 1), det(mb, n - 1), f);
    }
}
pub proof fn det_added(a: A2, n: int, i: int, j: int, f: real)
    requires 0 <= i < n, 0 <= j < n, i != j,
    ensures det(added(a, i, j, f), n) == det(a, n),
{
    let b = |r: int, c: int| if r == i { a(j, c) } else { a(r, c) }; let c = added(a, i, j, f);
    assert(lin(a, b, c, n, i, f)) by { reveal(mu); }
    det_lin(a, b, c, n, i, f); det_twice(b, n, i, j); reveal(mu); lem_mul0(f);
}
proof fn rp_head(f: A1, g: A1, n: int)
    requires n > 0, forall|k: int| 0 <= k < n - 1 ==> #[trigger] g(k) == f(k + 1),
    ensures rprod(f, n) == f(0) * rprod(g, n - 1),
    decreases n,
{
    reveal_with_fuel(rprod, 2);
    if n > 1 { rp_head(f, g, n - 1); assert(g(n - 2) == f(n - 1)); let (p, q, r) = (f(0), rprod(g, n - 2), f(n - 1)); assert(p * q * r == p * (q * r)) by (nonlinear_arith); }
    else { let p = f(0); assert(1real * p == p && p * 1real == p) by (nonlinear_arith); }
}
pub proof fn det_upper(a: A2, n: int)
    requires upp(a, n),
    ensures det(a, n) == rprod(|k: int| a(k, k), n),
    decreases n,
{
    if n > 0 {
        let t = dterm(a, n); let m = minor(a, 0);
        assert forall|r: int| 0 <= r < n && r != 0 implies #[trigger] t(r) == 0real by { assert(a(r, 0) == 0real); let (s, d) = (alt(r), det(minor(a, r), n - 1)); assert(s * 0real * d == 0real) by (nonlinear_arith); }
        rs_one(t, n, 0); det_def(a, n);
        assert forall|i: int, j: int| 0 <= j < i < n - 1 implies #[trigger] m(i, j) == 0real by { assert(a(i + 1, j + 1) == 0real); }
        assert(upp(m, n - 1));
        det_upper(m, n - 1);
        rp_head(|k: int| a(k, k), |k: int| m(k, k), n);
        let (p, q) = (a(0, 0), det(m, n - 1)); assert(1real * p * q == p * q) by (nonlinear_arith);
    }
}
pub type Det = spec_fn(A2) -> real;
pub open spec fn is_det(d: Det, n: int) -> bool {
    &&& forall|a: A2, b: A2| same2(a, b, n) ==> #[trigger] d(a) == #[trigger] d(b)
    &&& forall|a: A2, i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] d(swapped(a, i, j)) == -d(a)
    &&& forall|a: A2, i: int, j: int, f: real| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] d(added(a, i, j, f)) == d(a)
    &&& forall|a: A2| upp(a, n) ==> #[trigger] d(a) == rprod(|k: int| a(k, k), n)
}
// the determinant obeys the row laws, which fix it
pub proof fn det_laws(n: int) ensures is_det(|a: A2| det(a, n), n)
{
    let d = |a: A2| det(a, n);
    assert forall|a: A2, b: A2| same2(a, b, n) implies #[trigger] d(a) == #[trigger] d(b) by { det_same(a, b, n); }
    assert forall|a: A2, i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies #[trigger] d(swapped(a, i, j)) == -d(a) by { det_swap(a, n, i, j); }
    assert forall|a: A2, i: int, j: int, f: real| 0 <= i < n && 0 <= j < n && i != j implies #[trigger] d(added(a, i, j, f)) == d(a) by { det_added(a, n, i, j, f); }
    assert forall|a: A2| upp(a, n) implies #[trigger] d(a) == rprod(|k: int| a(k, k), n) by { det_upper(a, n); }
}
}
