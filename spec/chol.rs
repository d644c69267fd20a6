//@ include fac.rs
verus! {
// ---- factors of a symmetric matrix given by its lower triangle
pub open spec fn sym(a: A2) -> A2 { |i: int, j: int| if j <= i { a(i, j) } else { a(j, i) } }
pub open spec fn quad(s: A2, x: A1, n: int) -> real { rsum(|i: int| x(i) * mv(s, x, n, i), n) }
pub open spec fn spd(s: A2, n: int) -> bool { symmetric(s, n) && forall|x: A1| !nil(x, n) ==> #[trigger] quad(s, x, n) > 0real }
// (L L')(i, j)
pub open spec fn llt(l: A2, n: int) -> A2 { |i: int, j: int| rsum(|k: int| l(i, k) * l(j, k), n) }
pub open spec fn llt_to(s: A2, l: A2, n: int, i: int) -> bool { forall|r: int, c: int| 0 <= r < i && 0 <= c < i ==> s(r, c) == #[trigger] llt(l, n)(r, c) }

// what the next diagonal entry is the root of is positive
pub proof fn lem_pivot(s: A2, l: A2, w: A1, n: int, i: int)
    requires spd(s, n), low(l, n), 0 <= i < n, llt_to(s, l, n, i), forall|r: int| 0 <= r < i ==> #[trigger] l(r, r) != 0real,
        forall|c: int| 0 <= c < i ==> #[trigger] mv(l, w, i, c) == s(i, c),
    ensures s(i, i) - rsum(|k: int| w(k) * w(k), i) > 0real,
{
    let lt = tr(l);
    assert(upp(lt, i)); assert(ndiag(lt, i));
    let z = lem_upper_exists(lt, w, i, 0);
    let x = |j: int| if j < i { -z(j) } else if j == i { 1real } else { 0real };
    // rows before i of S x vanish
    assert forall|r: int| 0 <= r < n implies #[trigger] mv(s, x, n, r) == s(r, i) - mv(s, z, i, r) by {
        let f = mvt(s, x, r); let g = mvt(s, z, r);
        assert forall|k: int| i + 1 <= k < n implies #[trigger] f(k) == 0real by { lem_mul0(s(r, k)); }
        rs_rest(f, i + 1, n);
        assert(f(i) == s(r, i)) by { let p = s(r, i); assert(p * 1real == p) by (nonlinear_arith); }
        assert forall|k: int| 0 <= k < i implies #[trigger] f(k) == -1real * g(k) by { let (p, q) = (s(r, k), z(k)); assert(p * (-q) == -1real * (p * q)) by (nonlinear_arith); }
        rs_scale(-1real, g, f, i);
        let p = rsum(g, i); assert(-1real * p == -p) by (nonlinear_arith);
    }
    assert forall|j: int, k: int| 0 <= j < i && 0 <= k < i implies #[trigger] s(j, k) == mm(l, lt, i, j, k) by {
        assert(s(j, k) == llt(l, n)(j, k));
        let f = |q: int| l(j, q) * l(k, q); let g = |q: int| l(j, q) * lt(q, k);
        assert forall|q: int| i <= q < n implies #[trigger] f(q) == 0real by { assert(l(j, q) == 0real); lem_mul0(l(k, q)); }
        rs_rest(f, i, n); rsum_eq(f, g, i);
    }
    assert forall|r: int| 0 <= r < i implies #[trigger] mv(s, x, n, r) == 0real by {
        mv_assoc(l, lt, s, z, w, i, r);
        assert(mv(l, w, i, r) == s(i, r)); assert(s(r, i) == s(i, r));
    }
    let f = |k: int| x(k) * mv(s, x, n, k);
    assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by { if k < i { assert(mv(s, x, n, k) == 0real); lem_mul0(x(k)); } else { lem_mul0(mv(s, x, n, k)); } }
    rs_one(f, n, i);
    assert(f(i) == mv(s, x, n, i)) by { let p = mv(s, x, n, i); assert(1real * p == p) by (nonlinear_arith); }
    assert(x(i) != 0real); assert(!nil(x, n)); assert(quad(s, x, n) > 0real);
    // S(i, .) z = sum of w squared
    let g = |k: int, j: int| l(j, k) * w(k) * z(j);
    rs_swap(g, i, i);
    let a = |k: int| rsum(|j: int| g(k, j), i); let b = |j: int| rsum(|k: int| g(k, j), i);
    let ww = |k: int| w(k) * w(k);
    assert forall|k: int| 0 <= k < i implies a(k) == #[trigger] ww(k) by {
        let p = |j: int| g(k, j); let q = mvt(lt, z, k);
        assert forall|j: int| 0 <= j < i implies #[trigger] p(j) == w(k) * q(j) by { let (t, u, v) = (l(j, k), w(k), z(j)); assert(t * u * v == u * (t * v)) by (nonlinear_arith); }
        rs_scale(w(k), q, p, i);
        assert(mv(lt, z, i, k) == w(k));
    }
    rsum_eq(a, ww, i);
    assert forall|j: int| 0 <= j < i implies b(j) == #[trigger] mvt(s, z, i)(j) by {
        let p = |k: int| g(k, j); let q = mvt(l, w, j);
        assert forall|k: int| 0 <= k < i implies #[trigger] p(k) == z(j) * q(k) by { lem_comm(l(j, k) * w(k), z(j)); }
        rs_scale(z(j), q, p, i);
        assert(mv(l, w, i, j) == s(i, j)); lem_comm(z(j), s(i, j));
    }
    rsum_eq(b, mvt(s, z, i), i);
}
// a new row of the factor
pub proof fn lem_row(s: A2, l0: A2, l: A2, w: A1, n: int, i: int)
    requires symmetric(s, n), low(l, n), 0 <= i < n, llt_to(s, l0, n, i), forall|r: int, c: int| 0 <= r < i && 0 <= c < n ==> #[trigger] l(r, c) == l0(r, c),
        forall|c: int| 0 <= c < i ==> #[trigger] mv(l0, w, i, c) == s(i, c), forall|k: int| 0 <= k < i ==> #[trigger] l(i, k) == w(k),
        l(i, i) * l(i, i) == s(i, i) - rsum(|k: int| w(k) * w(k), i),
    ensures llt_to(s, l, n, i + 1),
{
    let ww = |k: int| w(k) * w(k);
    let h = |k: int| l(i, k) * l(i, k);
    assert forall|k: int| i + 1 <= k < n implies #[trigger] h(k) == 0real by { assert(l(i, k) == 0real); lem_mul0(l(i, k)); }
    rs_rest(h, i + 1, n);
    assert forall|k: int| 0 <= k < i implies h(k) == #[trigger] ww(k) by { assert(l(i, k) == w(k)); }
    rsum_eq(h, ww, i);
    assert forall|r: int| 0 <= r < i implies #[trigger] llt(l, n)(r, i) == s(i, r) && llt(l, n)(i, r) == s(i, r) by {
        let f = |k: int| l(r, k) * l(i, k); let g = |k: int| l(i, k) * l(r, k);
        assert forall|k: int| 0 <= k < n implies f(k) == #[trigger] g(k) by { lem_comm(l(r, k), l(i, k)); }
        rsum_eq(f, g, n);
        assert forall|k: int| i <= k < n implies #[trigger] f(k) == 0real by { assert(l(r, k) == 0real); lem_mul0(l(i, k)); }
        rs_rest(f, i, n);
        assert forall|k: int| 0 <= k < i implies f(k) == #[trigger] mvt(l0, w, r)(k) by { assert(l(r, k) == l0(r, k)); assert(l(i, k) == w(k)); }
        rsum_eq(f, mvt(l0, w, r), i); assert(mv(l0, w, i, r) == s(i, r));
    }
    assert forall|r: int, c: int| 0 <= r < i + 1 && 0 <= c < i + 1 implies s(r, c) == #[trigger] llt(l, n)(r, c) by {
        if r < i && c < i {
            assert(s(r, c) == llt(l0, n)(r, c));
            let f = |k: int| l0(r, k) * l0(c, k); let g = |k: int| l(r, k) * l(c, k);
            assert forall|k: int| 0 <= k < n implies f(k) == #[trigger] g(k) by { assert(l(r, k) == l0(r, k)); assert(l(c, k) == l0(c, k)); }
            rsum_eq(f, g, n);
        } else if r < i { assert(llt(l, n)(r, i) == s(i, r)); assert(s(r, i) == s(i, r)); }
        else if c < i { assert(llt(l, n)(c, i) == s(i, c)); }
    }
}
pub proof fn rs_shift(f: A1, a: int, m: int)
    requires 0 <= a, 0 <= m,
    ensures rsum(f, a + m) == rsum(f, a) + rsum(|k: int| f(a + k), m),
    decreases m,
{ if m > 0 { rs_shift(f, a, m - 1); } }
// a row whose stored part starts at column q
pub open spec fn pad(w: A1, q: int) -> A1 { |k: int| if k < q { 0real } else { w(k - q) } }
pub proof fn lem_pad(l: A2, w: A1, s: A2, n: int, i: int, q: int)
    requires low(l, n), 0 <= q <= i < n, forall|c: int| 0 <= c < q ==> #[trigger] s(i, c) == 0real,
        forall|c: int| 0 <= c < i - q ==> #[trigger] mv(blk(l, q), w, i - q, c) == s(i, q + c),
    ensures forall|c: int| 0 <= c < i ==> #[trigger] mv(l, pad(w, q), i, c) == s(i, c),
        rsum(|k: int| pad(w, q)(k) * pad(w, q)(k), i) == rsum(|k: int| w(k) * w(k), i - q),
{
    let y = pad(w, q);
    assert forall|c: int| 0 <= c < i implies #[trigger] mv(l, y, i, c) == s(i, c) by {
        let f = mvt(l, y, c);
        assert forall|k: int| 0 <= k < q implies #[trigger] f(k) == 0real by { lem_mul0(l(c, k)); }
        rs_zero(f, q);
        if c < q {
            assert forall|k: int| q <= k < i implies #[trigger] f(k) == 0real by { assert(l(c, k) == 0real); lem_mul0(y(k)); }
            rs_zero(f, i);
        } else {
            rs_shift(f, q, i - q);
            let g = mvt(blk(l, q), w, c - q);
            assert forall|k: int| 0 <= k < i - q implies f(q + k) == #[trigger] g(k) by { }
            rsum_eq(|k: int| f(q + k), g, i - q);
            assert(mv(blk(l, q), w, i - q, c - q) == s(i, q + (c - q)));
        }
    }
    let f = |k: int| y(k) * y(k); let g = |k: int| w(k) * w(k);
    assert forall|k: int| 0 <= k < q implies #[trigger] f(k) == 0real by { lem_mul0(y(k)); }
    rs_zero(f, q); rs_shift(f, q, i - q); rsum_eq(|k: int| f(q + k), g, i - q);
}
impl LowerRowEnvelope {
    pub proof fn lem_same_env(&self, b: &Self)
        requires self.wf(), b.wf(), same_shape(b, self),
        ensures b.row_nnz@ == self.row_nnz@,
    {
        assert forall|r: int| 0 <= r < self.n implies self.row_nnz@[r] == #[trigger] b.row_nnz@[r] by {
            self.lem_in(r); b.lem_in(r);
            assert(b.writable(r, b.sc(r)) == self.writable(r, b.sc(r))); assert(b.writable(r, self.sc(r)) == self.writable(r, self.sc(r)));
        }
        assert(b.row_nnz@ =~= self.row_nnz@);
    }
}
// what column i of the factors is, in terms of the columns before
pub open spec fn tw(l: A2, d: A1, i: int, j: int) -> A1 { |k: int| l(i, k) * l(j, k) * d(k) }
pub proof fn lem_col(s: A2, l: A2, d: A1, n: int, i: int, j: int)
    requires ldl_of(s, l, d, n), 0 <= i <= j < n,
    ensures s(i, j) == rsum(tw(l, d, i, j), i) + l(j, i) * d(i),
{
    let f = tw(l, d, i, j);
    assert(s(i, j) == ldlt(l, d, n)(i, j)); rsum_eq(f, |k: int| l(i, k) * l(j, k) * d(k), n);
    assert forall|k: int| i + 1 <= k < n implies #[trigger] f(k) == 0real by { assert(l(i, k) == 0real); lem_mul0(l(j, k)); lem_mul0(d(k)); }
    rs_rest(f, i + 1, n);
    assert(l(i, i) == 1real); let p = l(j, i); assert(1real * p == p) by (nonlinear_arith);
}
pub proof fn lem_ldl_env(s: A2, l: A2, d: A1, n: int, j: int, q: int, i: int)
    requires ldl_of(s, l, d, n), 0 <= i < q <= j < n, forall|c: int| 0 <= c < q ==> #[trigger] s(c, j) == 0real,
    ensures l(j, i) == 0real,
    decreases i,
{
    lem_col(s, l, d, n, i, j);
    let f = tw(l, d, i, j);
    assert forall|k: int| 0 <= k < i implies #[trigger] f(k) == 0real by { lem_ldl_env(s, l, d, n, j, q, k); lem_mul0(l(i, k)); lem_mul0(d(k)); }
    rs_zero(f, i);
    assert(s(i, j) == 0real); assert(d(i) != 0real);
    let (p, r) = (l(j, i), d(i)); assert(p == 0real) by (nonlinear_arith) requires p * r == 0real, r != 0real;
}
pub proof fn lem_ldl_same(s: A2, l: A2, d: A1, l2: A2, d2: A1, n: int)
    requires ldl_of(s, l, d, n), forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] l2(r, c) == l(r, c), agree(d2, d, n),
    ensures ldl_of(s, l2, d2, n),
{
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies s(r, c) == #[trigger] ldlt(l2, d2, n)(r, c) by {
        assert(s(r, c) == ldlt(l, d, n)(r, c));
        let f = |k: int| l(r, k) * l(c, k) * d(k); let g = |k: int| l2(r, k) * l2(c, k) * d2(k);
        assert forall|k: int| 0 <= k < n implies f(k) == #[trigger] g(k) by { assert(l2(r, k) == l(r, k)); assert(l2(c, k) == l(c, k)); assert(d2(k) == d(k)); }
        rsum_eq(f, g, n);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] l2(i, i) == 1real by { assert(l(i, i) == 1real); }
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] d2(i) != 0real by { assert(d(i) != 0real); assert(d2(i) == d(i)); }
}
impl Diagonal {
//@ fn Index<usize> for Diagonal::index -> res
//@ opt hidden
//@ sig
    fn v_at(&self, loc: usize) -> (res: &R)
//@ requires
    loc < self.data@.len(),
//@ ensures
    *res == self.data@[loc as int],
//@ end
}
//@ fn direct::cholesky_envelope -> res
//@ requires
    a.wf(), a.nr() > 0, tri_fits(a.nr()), spd(sym(mf(a)), a.nr()),
//@ ensures
    res.wf(), res.nr() == a.nr(), res.row_nnz@ == a.row_nnz@,
    forall|r: int, c: int| 0 <= r < a.nr() && 0 <= c < a.nr() ==> sym(mf(a))(r, c) == #[trigger] llt(mf(&res), a.nr())(r, c),
    forall|r: int| 0 <= r < a.nr() ==> #[trigger] res.at(r, r) > 0real,
//@ after let mut l
    let ghost (ss, n) = (sym(mf(a)), a.nr()); let ghost lz = l;
    proof { a.lem_low(); l.lem_low(); a.lem_in(0); let w = |k: int| 0real; lem_pivot(ss, mf(&l), w, n, 0); }
//@ loop 0 before
    proof { lz.lem_same_env(&l); l.lem_low(); lem_row(ss, mf(&lz), mf(&l), |k: int| 0real, n, 0);
        let t = l.at(0, 0); assert(t > 0real) by (nonlinear_arith) requires t >= 0real, t * t > 0real; }
//@ loop 0
    len0 == n - 1, l.wf(), l.nr() == n, l.row_nnz@ == a.row_nnz@, llt_to(ss, mf(&l), n, k0 + 1), forall|r: int| 0 <= r < k0 + 1 ==> #[trigger] l.at(r, r) > 0real,
//@ loop 0 start
    let ghost l0 = l; let ghost ii = i0 + 1; let ghost q = a.sc(ii);
    proof { a.lem_in(ii); l.lem_in(ii); l.lem_low(); assert(q == l.sc(ii)); assert(ndiag(mf(&l), ii)) by { assert forall|r: int| 0 <= r < ii implies #[trigger] mf(&l)(r, r) != 0real by { assert(l.at(r, r) > 0real); } } }
//@ before continue
    proof {
        let w = |k: int| 0real;
        lem_pad(mf(&l0), w, ss, n, ii, q); lem_pivot(ss, mf(&l0), pad(w, q), n, ii);
        l0.lem_same_env(&l); l.lem_low(); lem_row(ss, mf(&l0), mf(&l), pad(w, q), n, ii);
        let t = l.at(ii, ii); assert(t > 0real) by (nonlinear_arith) requires t >= 0real, t * t > 0real;
    }
//@ loop 1 before
    let ghost w0 = w@;
//@ loop 1
    w@ == w0, len1 == w0.len(), acc1.r() == rsum(|k: int| vf(w0)(k) * vf(w0)(k), k1 as int),
//@ loop 0 end
    proof {
        let wv = vf(w0);
        assert forall|c: int| 0 <= c < ii - q implies #[trigger] mv(blk(mf(&l0), q), wv, ii - q, c) == ss(ii, q + c) by { assert(vf(u@)(c) == a.at(ii, q + c)); }
        lem_pad(mf(&l0), wv, ss, n, ii, q); lem_pivot(ss, mf(&l0), pad(wv, q), n, ii);
        l0.lem_same_env(&l); l.lem_low(); lem_row(ss, mf(&l0), mf(&l), pad(wv, q), n, ii);
        let t = l.at(ii, ii); assert(t > 0real) by (nonlinear_arith) requires t >= 0real, t * t > 0real;
    }
//@ end
//@ fn direct::cholesky_envelope_no_root -> res
//@ oneidx d
//@ requires
    a.wf(), tri_fits(a.nr()), minors_ok(sym(mf(a)), a.nr() - 1),
//@ ensures
    res.0.wf(), res.0.nr() == a.nr(), res.0.row_nnz@ == a.row_nnz@, res.1.wf(), res.1.nr() == a.nr(),
    ldl_of(sym(mf(a)), mf(&res.0), |k: int| res.1.at(k, k), a.nr()),
//@ loop 0 before
    let ghost ss = sym(mf(a));
    let ghost (lw, dw) = lem_ldl_exists(ss, n as int);
//@ loop 0
    len0 == n, n == a.nr(), l.wf(), l.nr() == n, l.row_nnz@ == a.row_nnz@, d.wf(), d.nr() == n, ldl_of(ss, lw, dw, n as int),
    forall|r: int, c: int| 0 <= r < n && 0 <= c < k0 ==> #[trigger] l.at(r, c) == lw(r, c),
    forall|k: int| 0 <= k < k0 ==> #[trigger] d.at(k, k) == dw(k),
//@ loop 0 start
    let ghost (l0, d0) = (l, d);
    let ghost ti = tw(lw, dw, i0 as int, i0 as int);
    proof {
        a.lem_low(); l.lem_low();
        assert forall|j: int, c: int| i0 <= j < n && 0 <= c < a.sc(j) implies #[trigger] lw(j, c) == 0real by {
            a.lem_in(j); assert forall|q: int| 0 <= q < a.sc(j) implies #[trigger] ss(q, j) == 0real by { } lem_ldl_env(ss, lw, dw, n as int, j, a.sc(j), c); }
    }
//@ loop 1 before
    proof {
        l.lem_in(i as int); assert(start_col == a.sc(i as int));
        assert forall|k: int| 0 <= k < start_col implies #[trigger] ti(k) == 0real by { assert(lw(i as int, k) == 0real); lem_mul0(lw(i as int, k)); lem_mul0(dw(k)); }
        rs_zero(ti, start_col as int);
        assert forall|k: int| 0 <= k < i - start_col implies (#[trigger] u@[k]).r() == lw(i as int, start_col + k) by { assert(l.at(i as int, start_col + k) == lw(i as int, start_col + k)); }
    }
//@ loop 1
    len1 == i - start_col, acc1.r() == rsum(ti, start_col + k1),
//@ loop 1 end
    proof { assert(d.at(start_col + i1, start_col + i1) == dw(start_col + i1)); }
//@ loop 2 before
    proof { lem_col(ss, lw, dw, n as int, i as int, i as int); assert(lw(i as int, i as int) == 1real); let p = dw(i as int); assert(1real * p == p) by (nonlinear_arith); assert(d.at(i as int, i as int) == dw(i as int)); }
    let ghost d1 = d;
//@ loop 2
    len2 == n - i - 1, l.wf(), l.nr() == n, l.row_nnz@ == a.row_nnz@, d == d1,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < i ==> #[trigger] l.at(r, c) == lw(r, c),
    forall|r: int| i < r < i + 1 + k2 ==> #[trigger] l.at(r, i as int) == lw(r, i as int),
//@ loop 2 start
    let ghost l1 = l; let ghost jj = i + 1 + i2; let ghost tj = tw(lw, dw, i as int, jj);
    proof { a.lem_in(jj); l.lem_in(jj); l.lem_in(i as int); l.lem_low(); assert(l.sc(jj) == a.sc(jj)); assert(l.sc(i as int) == a.sc(i as int)); }
//@ before continue
    proof { assert(lw(jj, i as int) == 0real); }
//@ loop 3 before
    proof {
        let i = i as int; let q = start_col as int;
        assert forall|k: int| 0 <= k < q implies #[trigger] tj(k) == 0real by {
            if k < a.sc(i) { assert(lw(i, k) == 0real); } else { assert(lw(jj, k) == 0real); }
            lem_mul0(lw(i, k)); lem_mul0(lw(jj, k)); lem_mul0(dw(k)); }
        rs_zero(tj, q);
    }
//@ loop 3
    len3 == i - start_col, acc3.r() == rsum(tj, start_col + k3),
//@ loop 3 end
    proof { let c = start_col + i3; assert(d.at(c, c) == dw(c)); assert(l.at(i as int, c) == lw(i as int, c)); assert(l.at(jj, c) == lw(jj, c));
        assert(x.r() == l.at(i as int, c)); assert(y.r() == l.at(jj, c)); }
//@ loop 2 end
    proof {
        l1.lem_same_env(&l);
        lem_col(ss, lw, dw, n as int, i as int, jj); assert(dw(i as int) != 0real);
        let (p, r) = (lw(jj, i as int), dw(i as int)); assert((p * r) / r == p) by (nonlinear_arith) requires r != 0real;
    }
//@ before l[(i, i)]
    let ghost l2 = l;
//@ loop 0 end
    proof {
        l2.lem_same_env(&l); l.lem_low();
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < k0 implies #[trigger] l.at(r, c) == lw(r, c) by {
            if c == i { if r == i { assert(lw(i as int, i as int) == 1real); } else if r > i { assert(l2.at(r, i as int) == lw(r, i as int)); } else { assert(mf(&l)(r, i as int) == 0real); assert(lw(r, i as int) == 0real); } }
            else { assert(l2.at(r, c) == lw(r, c)); } }
        assert forall|k: int| 0 <= k < k0 implies #[trigger] d.at(k, k) == dw(k) by { if k < i { assert(d0.at(k, k) == dw(k)); } }
    }
//@ tail
    proof { lem_ldl_same(ss, lw, dw, mf(&ret_.0), |k: int| ret_.1.at(k, k), n as int); }
//@ end
//@ fn direct::solve_ll
//@ requires
    l.wf(), b@.len() == l.nr(), old(x)@.len() == l.nr(), ndiag(mf(l), l.nr()),
//@ ensures
    final(x)@.len() == l.nr(), solves(llt(mf(l), l.nr()), vf(final(x)@), vf(b@), l.nr()),
//@ finish
    proof {
        let (a, at, n) = (mf(l), tr(mf(l)), l.nr());
        assert forall|i: int| 0 <= i < n implies #[trigger] mv(llt(a, n), vf(x@), n, i) == vf(b@)(i) by {
            assert forall|j: int, k: int| 0 <= j < n && 0 <= k < n implies #[trigger] llt(a, n)(j, k) == mm(a, at, n, j, k) by { rsum_eq(|q: int| a(j, q) * a(k, q), |q: int| a(j, q) * at(q, k), n); }
            mv_assoc(a, at, llt(a, n), vf(x@), vf(y@), n, i);
            assert(mv(a, vf(y@), n, i) == vf(b@)(i));
        }
    }
//@ end
//@ fn direct::solve_ldl
//@ requires
    l.wf(), d.wf(), d.nr() == l.nr(), b@.len() == l.nr(), old(x)@.len() == l.nr(), ndiag(mf(l), l.nr()), ndiag(mf(d), l.nr()),
//@ ensures
    final(x)@.len() == l.nr(), solves(ldlt(mf(l), |k: int| d.at(k, k), l.nr()), vf(final(x)@), vf(b@), l.nr()),
//@ after l.solve
    let ghost z0 = vf(z@);
//@ after d.solve
    let ghost z1 = vf(z@);
//@ finish
    proof {
        let (a, at, n) = (mf(l), tr(mf(l)), l.nr()); let dd = |k: int| d.at(k, k);
        let dlt = |k: int, j: int| dd(k) * a(j, k);
        assert forall|k: int| 0 <= k < n implies #[trigger] z0(k) == mv(dlt, vf(x@), n, k) by {
            // D z1 = z0
            let f = mvt(mf(d), z1, k);
            assert forall|q: int| 0 <= q < n && q != k implies #[trigger] f(q) == 0real by { lem_mul0(z1(q)); }
            rs_one(f, n, k); assert(mv(mf(d), z1, n, k) == z0(k));
            assert(mv(at, vf(x@), n, k) == z1(k));
            let (p, q) = (mvt(at, vf(x@), k), mvt(dlt, vf(x@), k));
            assert forall|j: int| 0 <= j < n implies #[trigger] q(j) == dd(k) * p(j) by { let (t, u, v) = (dd(k), a(j, k), x@[j].r()); assert(t * u * v == t * (u * v)) by (nonlinear_arith); }
            rs_scale(dd(k), p, q, n);
        }
        assert forall|i: int| 0 <= i < n implies #[trigger] mv(ldlt(a, dd, n), vf(x@), n, i) == vf(b@)(i) by {
            assert forall|j: int, k: int| 0 <= j < n && 0 <= k < n implies #[trigger] ldlt(a, dd, n)(j, k) == mm(a, dlt, n, j, k) by {
                let (f, g) = (|q: int| a(j, q) * a(k, q) * dd(q), |q: int| a(j, q) * dlt(q, k));
                assert forall|q: int| 0 <= q < n implies f(q) == #[trigger] g(q) by { let (t, u, v) = (a(j, q), a(k, q), dd(q)); assert(t * u * v == t * (v * u)) by (nonlinear_arith); }
                rsum_eq(f, g, n);
            }
            mv_assoc(a, dlt, ldlt(a, dd, n), vf(x@), z0, n, i);
            assert(mv(a, z0, n, i) == vf(b@)(i));
        }
    }
//@ end
}
