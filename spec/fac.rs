//@ include det.rs
verus! {
// ---- unit lower times upper, no pivot zero
pub open spec fn lu_of(s: A2, l: A2, u: A2, n: int) -> bool { lu_weak(s, l, u, n) && ndiag(u, n) }
pub open spec fn lu_weak(s: A2, l: A2, u: A2, n: int) -> bool {
    &&& low(l, n) && (forall|i: int| 0 <= i < n ==> #[trigger] l(i, i) == 1real)
    &&& upp(u, n)
    &&& (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> s(i, j) == #[trigger] mm(l, u, n, i, j))
}
pub open spec fn pivots(s: A2, n: int) -> bool { exists|l: A2, u: A2| #[trigger] lu_of(s, l, u, n) }
pub open spec fn tl(l: A2, u: A2, i: int, k: int) -> A1 { |j: int| l(i, j) * u(j, k) }
pub proof fn rp_eq(f: A1, g: A1, n: int)
    requires forall|k: int| 0 <= k < n ==> f(k) == #[trigger] g(k),
    ensures rprod(f, n) == rprod(g, n),
    decreases n,
{ if n > 0 { rp_eq(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
// L U comes from U by row additions, the last row first
pub open spec fn part(l: A2, u: A2, n: int, i: int, j: int) -> A2 { |r: int, c: int| if r > i { mm(l, u, n, r, c) } else if r == i { u(r, c) + rsum(tl(l, u, r, c), j) } else { u(r, c) } }
pub proof fn lem_part(d: Det, s: A2, l: A2, u: A2, n: int, i: int, j: int)
    requires is_det(d, n), lu_weak(s, l, u, n), 0 <= j <= i < n || i == -1 && j == 0,
    ensures d(part(l, u, n, i, j)) == d(s),
    decreases i + 1, i - j,
{
    let a = part(l, u, n, i, j);
    if i == -1 { assert(same2(a, s, n)) by { assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] a(r, c) == s(r, c) by { assert(s(r, c) == mm(l, u, n, r, c)); } } }
    else if j < i {
        let b = part(l, u, n, i, j + 1);
        lem_part(d, s, l, u, n, i, j + 1);
        assert(same2(b, added(a, i, j, l(i, j)), n)); assert(d(b) == d(added(a, i, j, l(i, j))));
    } else {
        let b = part(l, u, n, i - 1, 0);
        lem_part(d, s, l, u, n, i - 1, 0);
        assert(same2(a, b, n)) by { assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] a(r, c) == b(r, c) by {
            if r == i {
                let f = tl(l, u, i, c);
                assert forall|k: int| i + 1 <= k < n implies #[trigger] f(k) == 0real by { assert(l(i, k) == 0real); lem_mul0(u(k, c)); }
                rs_rest(f, i + 1, n); assert(l(i, i) == 1real); let p = u(i, c); assert(1real * p == p) by (nonlinear_arith);
                rsum_eq(f, |j: int| l(i, j) * u(j, c), n);
            } } }
    }
}
pub proof fn lem_lu_det(s: A2, l: A2, u: A2, n: int)
    requires lu_weak(s, l, u, n), n >= 0,
    ensures det(s, n) == rprod(|k: int| u(k, k), n),
{
    let d = |a: A2| det(a, n); det_laws(n);
    lem_part(d, s, l, u, n, n - 1, 0);
    let a = part(l, u, n, n - 1, 0);
    assert(same2(a, u, n)); assert(d(a) == d(u)); assert(d(u) == rprod(|k: int| u(k, k), n));
    assert(d(s) == det(s, n));
}
// nonzero leading minors: there are factors
pub open spec fn minors_ok(s: A2, n: int) -> bool { forall|k: int| 1 <= k <= n ==> #[trigger] det(s, k) != 0real }
pub proof fn lem_lower_exists(a: A2, b: A1, n: int, m: int) -> (z: A1)
    requires low(a, n), ndiag(a, n), 0 <= m <= n,
    ensures solves_to(a, z, b, n, m),
    decreases m,
{
    if m == 0 { b } else {
        let y = lem_lower_exists(a, b, n, m - 1);
        let z = upd(y, m - 1, (b(m - 1) - rsum(mvt(a, y, m - 1), m - 1)) / a(m - 1, m - 1));
        lem_fwd(a, y, z, b, n, m - 1);
        z
    }
}
pub proof fn lem_lu_exists(s: A2, n: int) -> (res: (A2, A2))
    requires n >= 0, minors_ok(s, n),
    ensures lu_of(s, res.0, res.1, n), pivots(s, n),
    decreases n,
{
    if n == 0 { assert(lu_of(s, s, s, n)); (s, s) } else {
        let m = n - 1;
        let (l, u) = lem_lu_exists(s, m);
        let sc = |i: int| s(i, m); let sr = |j: int| s(m, j);
        let y = lem_lower_exists(l, sc, m, m);
        assert(low(tr(u), m)) by { assert forall|i: int, j: int| 0 <= i < j < m implies #[trigger] tr(u)(i, j) == 0real by { assert(u(j, i) == 0real); } }
        assert forall|i: int| 0 <= i < m implies #[trigger] tr(u)(i, i) != 0real by { assert(u(i, i) != 0real); }
        let z = lem_lower_exists(tr(u), sr, m, m);
        let zy = |j: int| z(j) * y(j);
        let d = s(m, m) - rsum(zy, m);
        let l2 = |i: int, j: int| if i == m { if j < m { z(j) } else if j == m { 1real } else { 0real } } else if j == m { 0real } else { l(i, j) };
        let u2 = |i: int, j: int| if j == m { if i < m { y(i) } else if i == m { d } else { 0real } } else if i == m { 0real } else { u(i, j) };
        assert forall|i: int| 0 <= i < n implies #[trigger] l2(i, i) == 1real by { if i < m { assert(l(i, i) == 1real); } }
        assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] l2(i, j) == 0real by { if j < m { assert(l(i, j) == 0real); } }
        assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] u2(i, j) == 0real by { if i < m { assert(u(i, j) == 0real); } }
        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies s(i, k) == #[trigger] mm(l2, u2, n, i, k) by {
            let g = |j: int| l2(i, j) * u2(j, k);
            assert(rsum(g, n) == rsum(g, m) + g(m));
            if i < m && k < m {
                lem_mul0(u2(m, k)); assert(s(i, k) == mm(l, u, m, i, k)); let f = |j: int| l(i, j) * u(j, k);
                assert forall|j: int| 0 <= j < m implies f(j) == #[trigger] g(j) by { }
                rsum_eq(f, g, m);
            } else if i < m {
                assert(k == m); lem_mul0(u2(m, k)); let f = mvt(l, y, i);
                assert forall|j: int| 0 <= j < m implies f(j) == #[trigger] g(j) by { }
                rsum_eq(f, g, m); assert(mv(l, y, m, i) == sc(i));
            } else if k < m {
                assert(i == m); lem_mul0(l2(i, m)); let f = mvt(tr(u), z, k);
                assert forall|j: int| 0 <= j < m implies f(j) == #[trigger] g(j) by { lem_comm(u(j, k), z(j)); }
                rsum_eq(f, g, m); assert(mv(tr(u), z, m, k) == sr(k));
            } else {
                assert forall|j: int| 0 <= j < m implies zy(j) == #[trigger] g(j) by { }
                rsum_eq(zy, g, m); assert(1real * d == d) by (nonlinear_arith);
            }
        }
        assert(lu_weak(s, l2, u2, n));
        lem_lu_det(s, l2, u2, n);
        assert(det(s, n) != 0real);
        let f = |k: int| u2(k, k); assert(rprod(f, n) == rprod(f, m) * f(m)); lem_mul0(rprod(f, m));
        assert forall|i: int| 0 <= i < n implies #[trigger] u2(i, i) != 0real by { if i < m { assert(u(i, i) != 0real); } }
        assert(lu_of(s, l2, u2, n));
        (l2, u2)
    }
}
// L D L'
pub open spec fn ldlt(l: A2, d: A1, n: int) -> A2 { |i: int, j: int| rsum(|k: int| l(i, k) * l(j, k) * d(k), n) }
// s = L D L' with unit lower L and pivots other than zero before the last
pub open spec fn ldl_of(s: A2, l: A2, d: A1, n: int) -> bool {
    &&& low(l, n) && (forall|i: int| 0 <= i < n ==> #[trigger] l(i, i) == 1real)
    &&& (forall|i: int| 0 <= i < n - 1 ==> #[trigger] d(i) != 0real)
    &&& (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> s(i, j) == #[trigger] ldlt(l, d, n)(i, j))
}
pub proof fn lem_ldl_det(s: A2, l: A2, d: A1, n: int)
    requires ldl_of(s, l, d, n), n >= 0,
    ensures det(s, n) == rprod(d, n),
{
    let u = |i: int, j: int| l(j, i) * d(i);
    assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] u(i, j) == 0real by { assert(l(j, i) == 0real); lem_mul0(d(i)); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies s(i, j) == #[trigger] mm(l, u, n, i, j) by {
        let f = |k: int| l(i, k) * l(j, k) * d(k); let g = |k: int| l(i, k) * u(k, j);
        assert(s(i, j) == ldlt(l, d, n)(i, j));
        assert forall|k: int| 0 <= k < n implies f(k) == #[trigger] g(k) by { let (p, q, r) = (l(i, k), l(j, k), d(k)); assert(p * q * r == p * (q * r)) by (nonlinear_arith); }
        rsum_eq(f, g, n);
    }
    lem_lu_det(s, l, u, n);
    assert forall|k: int| 0 <= k < n implies d(k) == #[trigger] u(k, k) by { assert(l(k, k) == 1real); let q = d(k); assert(1real * q == q) by (nonlinear_arith); }
    rp_eq(|k: int| u(k, k), d, n);
}
pub open spec fn symmetric(s: A2, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] s(i, j) == s(j, i) }
pub proof fn lem_ldl_exists(s: A2, n: int) -> (res: (A2, A1))
    requires n >= 0, symmetric(s, n), minors_ok(s, n - 1),
    ensures ldl_of(s, res.0, res.1, n),
    decreases n,
{
    if n == 0 { let d = |i: int| 0real; (s, d) } else {
        let m = n - 1;
        let (l, d) = lem_ldl_exists(s, m);
        if m > 0 { lem_ldl_det(s, l, d, m); let q = rprod(d, m - 1); assert(rprod(d, m) == q * d(m - 1)); assert(det(s, m) != 0real); lem_mul0(q); }
        assert(ndiag(l, m)) by { assert forall|i: int| 0 <= i < m implies #[trigger] l(i, i) != 0real by { assert(l(i, i) == 1real); } }
        let sc = |i: int| s(i, m);
        let y = lem_lower_exists(l, sc, m, m);
        let z = |j: int| y(j) / d(j);
        let zz = |j: int| z(j) * z(j) * d(j);
        let dm = s(m, m) - rsum(zz, m);
        let l2 = |i: int, j: int| if i == m { if j < m { z(j) } else if j == m { 1real } else { 0real } } else if j == m { 0real } else { l(i, j) };
        let d2 = |j: int| if j == m { dm } else { d(j) };
        assert forall|i: int| 0 <= i < n implies #[trigger] l2(i, i) == 1real by { if i < m { assert(l(i, i) == 1real); } }
        assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] l2(i, j) == 0real by { if j < m { assert(l(i, j) == 0real); } }
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] d2(i) != 0real by { if i < m - 1 { assert(d(i) != 0real); } }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies s(i, j) == #[trigger] ldlt(l2, d2, n)(i, j) by {
            let g = |k: int| l2(i, k) * l2(j, k) * d2(k);
            assert(rsum(g, n) == rsum(g, m) + g(m));
            if i < m || j < m { let (p, q, r) = (l2(i, m), l2(j, m), dm); assert(p * q * r == 0real) by (nonlinear_arith) requires p == 0real || q == 0real; }
            if i < m && j < m {
                let f = |k: int| l(i, k) * l(j, k) * d(k); assert(s(i, j) == ldlt(l, d, m)(i, j));
                assert forall|k: int| 0 <= k < m implies f(k) == #[trigger] g(k) by { } rsum_eq(f, g, m);
            } else if i < m || j < m {
                let c = if i < m { i } else { j };
                let f = mvt(l, y, c);
                assert forall|k: int| 0 <= k < m implies f(k) == #[trigger] g(k) by {
                    assert(d2(k) != 0real); lem_div(y(k), d(k)); let (p, q, r) = (l(c, k), z(k), d(k));
                    assert(p * q * r == p * (q * r) && q * p * r == p * (q * r)) by (nonlinear_arith); }
                rsum_eq(f, g, m); assert(mv(l, y, m, c) == sc(c)); assert(s(i, j) == s(j, i));
            } else {
                assert forall|k: int| 0 <= k < m implies zz(k) == #[trigger] g(k) by { }
                rsum_eq(zz, g, m); assert(1real * 1real * dm == dm) by (nonlinear_arith);
            }
        }
        (l2, d2)
    }
}
}
