//@ include prelude.rs
verus! {
// ---- packed triangles
pub open spec fn tri(n: int) -> int { n * (n + 1) / 2 }
pub proof fn lem_half(x: int, y: int) requires x == 2 * y, ensures x / 2 == y {}
pub proof fn lem_tri(n: int)
    requires n >= 0,
    ensures tri(n + 1) == tri(n) + n + 1, 0 <= tri(n), 2 * tri(n) == n * (n + 1), n <= tri(n),
    decreases n,
{
    assert((n + 1) * (n + 2) == n * (n + 1) + 2 * (n + 1)) by (nonlinear_arith);
    assert(n * (n + 1) >= 2 * n) by (nonlinear_arith) requires n >= 0;
    if n > 0 { lem_tri(n - 1); assert((n - 1) * n == n * (n + 1) - 2 * n) by (nonlinear_arith); assert((n - 1) * ((n - 1) + 1) == (n - 1) * n); lem_half(n * (n + 1), tri(n - 1) + n); lem_half((n + 1) * (n + 2), tri(n - 1) + n + n + 1); assert((n + 1) * ((n + 1) + 1) == (n + 1) * (n + 2)); }
    else { assert(n * (n + 1) == 0) by (nonlinear_arith) requires n == 0; assert((n + 1) * ((n + 1) + 1) == 2) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lem_tri_mono(m: int, n: int)
    requires 0 <= m < n,
    ensures tri(m) + m + 1 <= tri(n),
    decreases n - m,
{
    lem_tri(m);
    if m + 1 < n { lem_tri_mono(m + 1, n); }
}
pub proof fn lem_pack(n: int)
    ensures
        forall|r: int, c: int| 0 <= c <= r < n ==> 0 <= #[trigger] (tri(r) + c) < tri(n),
        forall|r: int, c: int, r2: int, c2: int| 0 <= c <= r && 0 <= c2 <= r2 && (r != r2 || c != c2) ==> #[trigger] (tri(r) + c) != #[trigger] (tri(r2) + c2),
{
    assert forall|r: int, c: int| 0 <= c <= r < n implies 0 <= #[trigger] (tri(r) + c) < tri(n) by { lem_tri(r); lem_tri_mono(r, n); }
    assert forall|r: int, c: int, r2: int, c2: int| 0 <= c <= r && 0 <= c2 <= r2 && (r != r2 || c != c2) implies #[trigger] (tri(r) + c) != #[trigger] (tri(r2) + c2) by {
        if r < r2 { lem_tri_mono(r, r2); } else if r2 < r { lem_tri_mono(r2, r); }
    }
}
pub open spec fn tri_fits(n: int) -> bool { 0 <= n && (n + 2) * (n + 1) <= usize::MAX }
pub proof fn lem_tri_fits(r: int, c: int, n: int)
    requires 0 <= c <= r < n, tri_fits(n),
    ensures r * (r + 1) <= usize::MAX, tri(r) + c <= usize::MAX, tri(n) <= (n + 2) * (n + 1) / 2, n < usize::MAX,
{
    assert(r * (r + 1) <= (n + 2) * (n + 1)) by (nonlinear_arith) requires 0 <= r < n;
    assert(n * (n + 1) <= (n + 2) * (n + 1)) by (nonlinear_arith) requires 0 <= n;
    lem_tri(r); lem_tri_mono(r, n); lem_tri(n);
    assert(n < (n + 2) * (n + 1)) by (nonlinear_arith) requires 0 <= n;
}
pub proof fn lem_tri_fits_n(n: int)
    requires n >= 0,
    ensures n + 2 <= (n + 2) * (n + 1), tri(n) <= (n + 2) * (n + 1) / 2, (n + 2) * (n + 1) == (n + 2) * ((n + 2) - 1), 0 <= (n + 2) * (n + 1) / 2,
{
    assert(n + 2 <= (n + 2) * (n + 1)) by (nonlinear_arith) requires 0 <= n;
    assert(n * (n + 1) <= (n + 2) * (n + 1)) by (nonlinear_arith) requires 0 <= n;
}
}
