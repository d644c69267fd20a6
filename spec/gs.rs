//@ include arith.rs
//@ include sparse.rs
//@ include perm.rs
verus! {
// ---- the stored entries of a row, as its iterator gives them
impl CompressedRow {
    fn row_nzs_len(&self, row: usize) -> (res: usize)
        requires self.wf(), row < self.nr(),
        ensures res == self.en(row as int) - self.st(row as int),
    {
        let mut it = self.row_nzs(row);
        let mut n: usize = 0;
        let mut done = false;
        while !done
            invariant self.wf(), row < self.nr(), it.source == self, it.end == self.en(row as int), it.cur <= it.end, it.end <= self.nz_count, it.cur == self.st(row as int) + n, done ==> it.cur == it.end,
            decreases it.end - it.cur + if done { 0int } else { 1int },
        { if it.next().is_some() { n = n + 1; } else { done = true; } }
        n
    }
    fn row_nzs_nth(&self, row: usize, k: usize) -> (res: (usize, R))
        requires self.wf(), row < self.nr(), k < self.en(row as int) - self.st(row as int),
        ensures res == (self.col_indices@[self.st(row as int) + k], self.data@[self.st(row as int) + k]),
    {
        let mut it = self.row_nzs(row);
        let mut n: usize = 0;
        while n < k
            invariant self.wf(), row < self.nr(), it.source == self, it.end == self.en(row as int), it.end <= self.nz_count, it.cur == self.st(row as int) + n, n <= k, k < self.en(row as int) - self.st(row as int),
            decreases k - n,
        { it.next(); n = n + 1; }
        it.next().unwrap()
    }
}
//@ seq row_nzs val
//@ method frobenius v_frobenius
//@ method &- v_sub_m
// ---- one sweep
pub open spec fn is_in(k: &CompressedRow, i: int, e: int, c: int) -> bool { exists|p: int| k.st(i) <= p < k.st(i) + e && #[trigger] k.col_indices@[p] == c }
pub open spec fn side(lo: bool, c: int, i: int) -> bool { if lo { c < i } else { c > i } }
// the terms of row i on one side of the diagonal, of all entries and of the first e
pub open spec fn whole(k: &CompressedRow, v: A1, i: int, lo: bool) -> A1 { |c: int| if side(lo, c, i) { v(c) * k.at(i, c) } else { 0real } }
pub open spec fn part(k: &CompressedRow, v: A1, i: int, e: int, lo: bool) -> A1 { |c: int| if side(lo, c, i) && is_in(k, i, e, c) { v(c) * k.at(i, c) } else { 0real } }
pub open spec fn acc(k: &CompressedRow, v: A1, i: int, lo: bool) -> real { rsum(whole(k, v, i, lo), k.nc()) }
pub open spec fn col(m: &LinearMatrix) -> A1 { |i: int| m.at(i, 0) }
// v is u after one over-relaxed update of its entry i
pub open spec fn upd(k: &CompressedRow, r: A1, u: A1, v: A1, i: int) -> bool {
    k.has(i, i) && (k.at(i, i) != 0real ==> v(i) == u(i) + (13real / 10real) * (((r(i) - acc(k, v, i, true)) - k.at(i, i) * u(i)) - acc(k, u, i, false)) / k.at(i, i))
}
pub open spec fn sweep(k: &CompressedRow, r: A1, u: A1, v: A1, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] upd(k, r, u, v, i) }
pub proof fn lem_upd(k: &CompressedRow, r: A1, u: A1, v: A1, w: A1, i: int)
    requires upd(k, r, u, v, i), forall|c: int| 0 <= c <= i ==> #[trigger] w(c) == v(c), 0 <= i < k.nc(),
    ensures upd(k, r, u, w, i),
{ rsum_eq(whole(k, v, i, true), whole(k, w, i, true), k.nc()); }
pub open spec fn is_norm(d: real, s: real) -> bool { d >= 0real && d * d == s }
pub open spec fn sq_sum(v: A1, n: int) -> real { rsum(|i: int| v(i) * v(i), n) }
pub open spec fn diff(u: A1, v: A1) -> A1 { |i: int| u(i) - v(i) }
pub open spec fn close(u: A1, v: A1, n: int, tol: real) -> bool {
    exists|d: real, m: real| #[trigger] is_norm(d, sq_sum(diff(u, v), n)) && #[trigger] is_norm(m, sq_sum(v, n)) && d <= tol * m
}
pub proof fn lem_colsq(m: &LinearMatrix, v: A1, n: int)
    requires m.wf(), m.nr() == n, m.nc() == 1, forall|i: int| 0 <= i < n ==> #[trigger] m.at(i, 0) == v(i),
    ensures rsum(fsq(m), m.nr() * m.nc()) == sq_sum(v, n),
{
    assert(m.nr() * m.nc() == n); let g = |i: int| v(i) * v(i);
    assert forall|k: int| 0 <= k < n implies fsq(m)(k) == #[trigger] g(k) by { assert(k / 1 == k && k % 1 == 0); assert(m.at(k, 0) == v(k)); }
    rsum_eq(fsq(m), g, n);
}
pub open spec fn colv(m: &LinearMatrix, n: int) -> bool { m.wf() && m.nr() == n && m.nc() == 1 }
// what is returned: the last sweep left the iterate within the tolerance
pub open spec fn settled(k: &CompressedRow, r: &LinearMatrix, tol: real, res: &LinearMatrix) -> bool {
    colv(res, k.nr()) && exists|u: LinearMatrix| colv(&u, k.nr()) && #[trigger] sweep(k, col(r), col(&u), col(res), k.nr()) && close(col(&u), col(res), k.nr(), tol)
}
pub open spec fn diag_ok(k: &CompressedRow) -> bool { forall|i: int| 0 <= i < k.nr() ==> #[trigger] k.at(i, i) != 0real }
pub open spec fn zero(m: &LinearMatrix) -> bool { forall|i: int| 0 <= i < m.nr() ==> #[trigger] m.at(i, 0) == 0real }
// an iterate that a sweep leaves unchanged solves the system
pub proof fn lem_fixed(k: &CompressedRow, r: A1, u: A1, i: int)
    requires k.wf(), k.nr() == k.nc(), sweep(k, r, u, u, k.nr()), diag_ok(k), 0 <= i < k.nr(),
    ensures rsum(|c: int| k.at(i, c) * u(c), k.nc()) == r(i),
{
    let n = k.nc(); let a = k.at(i, i); assert(upd(k, r, u, u, i)); assert(k.at(i, i) != 0real);
    let (x, y) = (acc(k, u, i, true), acc(k, u, i, false)); let t = ((r(i) - x) - a * u(i)) - y; let q = (13real / 10real) * t;
    assert(q / a == 0real); assert(q == 0real) by (nonlinear_arith) requires q / a == 0real, a != 0real;
    let f = |c: int| k.at(i, c) * u(c); let d = |c: int| if c == i { a * u(i) } else { 0real }; let lo = whole(k, u, i, true); let hi = whole(k, u, i, false); let s = |c: int| lo(c) + hi(c);
    assert forall|c: int| 0 <= c < n implies #[trigger] f(c) == s(c) + d(c) by { assert(k.at(i, c) * u(c) == u(c) * k.at(i, c)) by (nonlinear_arith); }
    rs_add(lo, hi, s, n); rs_add(s, d, f, n); rs_one(d, n, i);
}
pub proof fn lem_part(k: &CompressedRow, v: A1, i: int, e: int, lo: bool)
    requires k.wf(), k.nr() == k.nc(), 0 <= i < k.nr(), 0 <= e < k.en(i) - k.st(i),
    ensures ({ let c = k.col_indices@[k.st(i) + e] as int; 0 <= c < k.nc() && k.has(i, c) && k.at(i, c) == k.data@[k.st(i) + e].r() && !is_in(k, i, e, c) && is_in(k, i, e + 1, c)
        && (forall|d: int| d != c ==> #[trigger] is_in(k, i, e + 1, d) == is_in(k, i, e, d))
        && rsum(part(k, v, i, e + 1, lo), k.nc()) == rsum(part(k, v, i, e, lo), k.nc()) + if side(lo, c, i) { v(c) * k.at(i, c) } else { 0real } }),
{
    let p = k.st(i) + e; let c = k.col_indices@[p] as int; assert(k.is_at(i, c, p)); k.lem_only(i, c, p);
    assert(!is_in(k, i, e, c)) by { if is_in(k, i, e, c) { let q = choose|q: int| k.st(i) <= q < k.st(i) + e && #[trigger] k.col_indices@[q] == c; assert(k.col_indices@[q] != k.col_indices@[p]); } }
    assert(is_in(k, i, e + 1, c)) by { assert(k.col_indices@[p] == c); }
    assert forall|d: int| d != c implies #[trigger] is_in(k, i, e + 1, d) == is_in(k, i, e, d) by {
        if is_in(k, i, e + 1, d) { let q = choose|q: int| k.st(i) <= q < k.st(i) + e + 1 && #[trigger] k.col_indices@[q] == d; assert(q != p); assert(k.col_indices@[q] == d); }
        if is_in(k, i, e, d) { let q = choose|q: int| k.st(i) <= q < k.st(i) + e && #[trigger] k.col_indices@[q] == d; assert(k.col_indices@[q] == d); }
    }
    let f = part(k, v, i, e, lo); let g = part(k, v, i, e + 1, lo); let h = |d: int| if d == c && side(lo, c, i) { v(c) * k.at(i, c) } else { 0real };
    assert forall|d: int| 0 <= d < k.nc() implies #[trigger] g(d) == f(d) + h(d) by { if d != c { assert(is_in(k, i, e + 1, d) == is_in(k, i, e, d)); } }
    rs_add(f, h, g, k.nc()); rs_one(h, k.nc(), c);
}
pub proof fn lem_part_all(k: &CompressedRow, v: A1, i: int, lo: bool)
    requires k.wf(), k.nr() == k.nc(), 0 <= i < k.nr(),
    ensures rsum(part(k, v, i, k.en(i) - k.st(i), lo), k.nc()) == acc(k, v, i, lo), is_in(k, i, k.en(i) - k.st(i), i) == k.has(i, i),
{
    let e = k.en(i) - k.st(i); 
    assert forall|c: int| #[trigger] is_in(k, i, e, c) == k.has(i, c) by {
        if is_in(k, i, e, c) { let p = choose|p: int| k.st(i) <= p < k.st(i) + e && #[trigger] k.col_indices@[p] == c; assert(k.is_at(i, c, p)); }
        if k.has(i, c) { let p = choose|p: int| #[trigger] k.is_at(i, c, p); assert(k.col_indices@[p] == c); }
    }
    let f = part(k, v, i, e, lo); let g = whole(k, v, i, lo);
    assert forall|c: int| 0 <= c < k.nc() implies f(c) == #[trigger] g(c) by { assert(is_in(k, i, e, c) == k.has(i, c)); if !k.has(i, c) { assert(k.at(i, c) == 0real); let x = v(c); assert(x * 0real == 0real) by (nonlinear_arith); } }
    rsum_eq(f, g, k.nc());
}
pub proof fn lem_part_none(k: &CompressedRow, v: A1, i: int, lo: bool)
    ensures rsum(part(k, v, i, 0, lo), k.nc()) == 0real, !is_in(k, i, 0, i),
{ rs_zero(part(k, v, i, 0, lo), k.nc()); }
//@ fn iterative::gauss_seidel -> res
//@ diverge
//@ attr #[verifier::allow_complex_invariants]
//@ tupleidx u new_u r
//@ requires
    k.wf(), r.wf(), max_iter + 3 < usize::MAX,
//@ ensures
    k.nr() == k.nc(), r.nc() == 1, r.nr() == k.nr(), settled(&k, &r, tol.r(), &res), zero(&r) && diag_ok(&k) ==> zero(&res),
//@ loop 0 before
    let ghost kk = &k; let ghost rr = col(&r);
    proof { assert(n * 1 == n); assert(fits(n as int, 1)); }
//@ loop 0
    k.wf(), r.wf(), n == k.nr(), k.nr() == k.nc(), colv(&r, n as int), colv(&u, n as int), k0 <= max_iter + 2, max_iter + 3 < usize::MAX, zero(&r) && diag_ok(&k) ==> zero(&u), fits(n as int, 1),
    ensures settled(&k, &r, tol.r(), &u),
    decreases max_iter + 3 - k0,
//@ loop 1
    k.wf(), r.wf(), n == k.nr(), k.nr() == k.nc(), len1 == n, colv(&r, n as int), colv(&u, n as int), colv(&new_u, n as int), forall|i: int| 0 <= i < k1 ==> #[trigger] upd(kk, rr, col(&u), col(&new_u), i),
    zero(&r) && diag_ok(&k) ==> zero(&u) && forall|i: int| 0 <= i < k1 ==> #[trigger] new_u.at(i, 0) == 0real,
//@ loop 2 before
    let ghost (cu, cv) = (col(&u), col(&new_u));
    proof { lem_part_none(kk, cv, i1 as int, true); lem_part_none(kk, cu, i1 as int, false); }
//@ loop 2
    k.wf(), n == k.nr(), k.nr() == k.nc(), i == i1, i1 < n, len2 == k.en(i as int) - k.st(i as int), colv(&u, n as int), colv(&new_u, n as int), cu == col(&u), cv == col(&new_u),
    lower_acc.r() == rsum(part(kk, cv, i as int, k2 as int, true), k.nc()), upper_acc.r() == rsum(part(kk, cu, i as int, k2 as int, false), k.nc()),
    diag is Some == is_in(kk, i as int, k2 as int, i as int), diag is Some ==> diag->Some_0.r() == k.at(i as int, i as int),
//@ loop 2 start
    proof { lem_part(kk, cv, i as int, i2 as int, true); lem_part(kk, cu, i as int, i2 as int, false); assert(inr(&new_u, col as int, 0) && inr(&u, col as int, 0)); }
//@ loop 2 after
    proof { lem_part_all(kk, cv, i1 as int, true); lem_part_all(kk, cu, i1 as int, false); assert(inr(&u, i1 as int, 0) && inr(&r, i1 as int, 0) && inr(&new_u, i1 as int, 0)); }
    let ghost v0 = new_u;
//@ loop 1 end
    proof {
        let i = i1 as int;
        assert forall|c: int| 0 <= c < n && c != i implies #[trigger] col(&new_u)(c) == cv(c) by { assert(inr(&v0, c, 0)); }
        let w = col(&new_u); rsum_eq(whole(kk, cv, i, true), whole(kk, w, i, true), k.nc());
        assert(upd(kk, rr, cu, w, i));
        assert forall|j: int| 0 <= j < k1 implies #[trigger] upd(kk, rr, cu, w, j) by { if j < i { lem_upd(kk, rr, cu, cv, w, j); } }
        if zero(&r) && diag_ok(&k) {
            assert(u.at(i, 0) == 0real); assert(r.at(i, 0) == 0real); assert(k.at(i, i) != 0real);
            assert forall|c: int| 0 <= c < k.nc() implies #[trigger] whole(kk, w, i, true)(c) == 0real by { if c < i { assert(new_u.at(c, 0) == 0real); let x = k.at(i, c); assert(0real * x == 0real) by (nonlinear_arith); } }
            assert forall|c: int| 0 <= c < k.nc() implies #[trigger] whole(kk, cu, i, false)(c) == 0real by { if c > i { assert(u.at(c, 0) == 0real); let x = k.at(i, c); assert(0real * x == 0real) by (nonlinear_arith); } }
            rs_zero(whole(kk, w, i, true), k.nc()); rs_zero(whole(kk, cu, i, false), k.nc()); let a = k.at(i, i); assert(a * 0real == 0real && (13real / 10real) * 0real == 0real) by (nonlinear_arith); assert(0real / a == 0real) by (nonlinear_arith) requires a != 0real;
            assert(new_u.at(i, 0) == 0real);
        }
    }
//@ before let diff_norm
    let ghost (u0, u1) = (u, new_u);
    proof { assert(u.dims == new_u.dims); assert forall|m: LinearMatrix| colv(&m, n as int) implies #[trigger] rsum(fsq(&m), m.nr() * m.nc()) == sq_sum(col(&m), n as int) by { lem_colsq(&m, col(&m), n as int); } }
//@ before u = new_u
    let ghost dd = choose|m: LinearMatrix| m.wf() && same_shape(&m, &u0) && (forall|r: int, c: int| inr(&u0, r, c) ==> #[trigger] m.at(r, c) == u0.at(r, c) - u1.at(r, c)) && diff_norm.r() * diff_norm.r() == #[trigger] rsum(fsq(&m), m.nr() * m.nc());
    proof { let v = diff(col(&u0), col(&u1)); assert forall|i: int| 0 <= i < n implies #[trigger] dd.at(i, 0) == v(i) by { assert(inr(&u0, i, 0)); } lem_colsq(&dd, v, n as int); assert(is_norm(diff_norm.r(), sq_sum(v, n as int))); }
//@ before break
    proof {
        lem_colsq(&u, col(&u), n as int); let s = sq_sum(col(&u), n as int);
        let m = choose|m: R| (#[trigger] m.r()) >= 0real && m.r() * m.r() == s && diff_norm.r() <= tol.r() * m.r();
        assert(is_norm(m.r(), s)); assert(is_norm(diff_norm.r(), sq_sum(diff(col(&u0), col(&u)), n as int)));
        assert(sweep(kk, rr, col(&u0), col(&u), n as int)); assert(close(col(&u0), col(&u), n as int, tol.r())); assert(colv(&u0, n as int)); assert(settled(&k, &r, tol.r(), &u)); }
//@ end
}
