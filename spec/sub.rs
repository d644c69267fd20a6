//@ include kinds.rs
//@ include sparse.rs
//@ include la.rs
verus! {
// ---- triangular substitution
pub open spec fn mf<M: MatSpec>(m: &M) -> A2 { |i: int, j: int| m.at(i, j) }
pub open spec fn vf(x: Seq<R>) -> A1 { |j: int| x[j].r() }
pub open spec fn tr(a: A2) -> A2 { |i: int, j: int| a(j, i) }
pub open spec fn blk(a: A2, s: int) -> A2 { |i: int, j: int| a(s + i, s + j) }
pub open spec fn upd(x: A1, i: int, v: real) -> A1 { |j: int| if j == i { v } else { x(j) } }
pub open spec fn low(a: A2, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] a(i, j) == 0real }
pub open spec fn upp(a: A2, n: int) -> bool { forall|i: int, j: int| 0 <= j < i < n ==> #[trigger] a(i, j) == 0real }
pub open spec fn ndiag(a: A2, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] a(i, i) != 0real }
pub open spec fn solves(a: A2, x: A1, b: A1, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] mv(a, x, n, i) == b(i) }
pub open spec fn agree(x: A1, y: A1, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] x(j) == y(j) }
pub proof fn lem_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lem_mul0(x: real) ensures 0real * x == 0real, x * 0real == 0real { assert(0real * x == 0real && x * 0real == 0real) by (nonlinear_arith); }
pub proof fn lem_div(a: real, b: real) requires b != 0real, ensures b * (a / b) == a, (a / b) * b == a { assert(b * (a / b) == a) by (nonlinear_arith) requires b != 0real; assert((a / b) * b == a) by (nonlinear_arith) requires b != 0real; }
pub proof fn mv_agree(a: A2, x: A1, y: A1, n: int, i: int)
    requires agree(x, y, n),
    ensures mv(a, x, n, i) == mv(a, y, n, i),
{ assert forall|k: int| 0 <= k < n implies mvt(a, x, i)(k) == #[trigger] mvt(a, y, i)(k) by { assert(x(k) == y(k)); } rsum_eq(mvt(a, x, i), mvt(a, y, i), n); }
// changing x(i) matters only where column i is not zero
pub proof fn mv_upd(a: A2, x: A1, y: A1, n: int, i: int, r: int)
    requires forall|j: int| 0 <= j < n && j != i ==> #[trigger] x(j) == y(j), a(r, i) == 0real,
    ensures mv(a, x, n, r) == mv(a, y, n, r),
{
    assert forall|k: int| 0 <= k < n implies mvt(a, x, r)(k) == #[trigger] mvt(a, y, r)(k) by { if k == i { lem_mul0(x(k)); lem_mul0(y(k)); } else { assert(x(k) == y(k)); } }
    rsum_eq(mvt(a, x, r), mvt(a, y, r), n);
}
pub proof fn lem_fwd(a: A2, x: A1, y: A1, b: A1, n: int, i: int)
    requires low(a, n), ndiag(a, n), 0 <= i < n, solves_to(a, x, b, n, i), forall|j: int| 0 <= j < n && j != i ==> #[trigger] x(j) == y(j),
        y(i) == (b(i) - rsum(mvt(a, x, i), i)) / a(i, i),
    ensures solves_to(a, y, b, n, i + 1),
{
    assert forall|r: int| 0 <= r < i + 1 implies #[trigger] mv(a, y, n, r) == b(r) by {
        if r < i { assert(a(r, i) == 0real); mv_upd(a, x, y, n, i, r); assert(mv(a, x, n, r) == b(r)); }
        else {
            let f = mvt(a, y, i);
            assert forall|k: int| i + 1 <= k < n implies #[trigger] f(k) == 0real by { assert(a(i, k) == 0real); lem_mul0(y(k)); }
            rs_rest(f, i + 1, n);
            assert forall|k: int| 0 <= k < i implies mvt(a, x, i)(k) == #[trigger] f(k) by { assert(x(k) == y(k)); }
            rsum_eq(mvt(a, x, i), f, i);
            assert(a(i, i) != 0real); lem_div(b(i) - rsum(mvt(a, x, i), i), a(i, i));
        }
    }
}
pub open spec fn solves_to(a: A2, x: A1, b: A1, n: int, i: int) -> bool { forall|r: int| 0 <= r < i ==> #[trigger] mv(a, x, n, r) == b(r) }
pub open spec fn solves_from(a: A2, x: A1, b: A1, n: int, i: int) -> bool { forall|r: int| i <= r < n ==> #[trigger] mv(a, x, n, r) == b(r) }
pub proof fn lem_bwd(a: A2, x: A1, y: A1, b: A1, n: int, i: int)
    requires upp(a, n), ndiag(a, n), 0 <= i < n, solves_from(a, x, b, n, i + 1), forall|j: int| i < j < n ==> #[trigger] x(j) == y(j),
        y(i) == (b(i) - tsum(mvt(a, x, i), i + 1, n)) / a(i, i),
    ensures solves_from(a, y, b, n, i),
{
    assert forall|r: int| i <= r < n implies #[trigger] mv(a, y, n, r) == b(r) by {
        if r > i {
            assert forall|k: int| 0 <= k < n implies mvt(a, x, r)(k) == #[trigger] mvt(a, y, r)(k) by { if k < r { assert(a(r, k) == 0real); lem_mul0(x(k)); lem_mul0(y(k)); } else { assert(x(k) == y(k)); } }
            rsum_eq(mvt(a, x, r), mvt(a, y, r), n); assert(mv(a, x, n, r) == b(r)); }
        else {
            let f = mvt(a, y, i);
            assert forall|k: int| 0 <= k < i implies #[trigger] f(k) == 0real by { assert(a(i, k) == 0real); lem_mul0(y(k)); }
            rs_zero(f, i); lem_ts(f, i + 1, n);
            assert forall|k: int| i + 1 <= k < n implies mvt(a, x, i)(k) == #[trigger] f(k) by { assert(x(k) == y(k)); }
            ts_eq(mvt(a, x, i), f, i + 1, n);
            assert(a(i, i) != 0real); lem_div(b(i) - tsum(mvt(a, x, i), i + 1, n), a(i, i));
        }
    }
}
pub proof fn lem_upper_exists(a: A2, b: A1, n: int, m: int) -> (z: A1)
    requires upp(a, n), ndiag(a, n), 0 <= m <= n,
    ensures solves_from(a, z, b, n, m),
    decreases n - m,
{
    if m == n { b } else {
        let y = lem_upper_exists(a, b, n, m + 1);
        let z = upd(y, m, (b(m) - tsum(mvt(a, y, m), m + 1, n)) / a(m, m));
        lem_bwd(a, y, z, b, n, m);
        z
    }
}
pub proof fn lem_low_head(a: A2, x: A1, n: int, m: int)
    requires low(a, n), ndiag(a, n), 0 <= m <= n, forall|i: int| 0 <= i < m ==> #[trigger] mv(a, x, n, i) == 0real,
    ensures forall|i: int| 0 <= i < m ==> #[trigger] x(i) == 0real,
    decreases m,
{
    if m > 0 {
        lem_low_head(a, x, n, m - 1);
        let i = m - 1; let f = mvt(a, x, i);
        assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by { if k < i { assert(x(k) == 0real); lem_mul0(a(i, k)); } else { assert(a(i, k) == 0real); lem_mul0(x(k)); } }
        rs_one(f, n, i); assert(mv(a, x, n, i) == 0real);
        let (p, q) = (a(i, i), x(i)); assert(q == 0real) by (nonlinear_arith) requires p * q == 0real, p != 0real;
    }
}
pub proof fn lem_upp_tail(a: A2, x: A1, n: int, m: int)
    requires upp(a, n), ndiag(a, n), 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] mv(a, x, n, i) == 0real,
    ensures forall|i: int| m <= i < n ==> #[trigger] x(i) == 0real,
    decreases n - m,
{
    if m < n {
        lem_upp_tail(a, x, n, m + 1);
        let i = m; let f = mvt(a, x, i);
        assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by { if k > i { assert(x(k) == 0real); lem_mul0(a(i, k)); } else { assert(a(i, k) == 0real); lem_mul0(x(k)); } }
        rs_one(f, n, i); assert(mv(a, x, n, i) == 0real);
        let (p, q) = (a(i, i), x(i)); assert(q == 0real) by (nonlinear_arith) requires p * q == 0real, p != 0real;
    }
}
pub proof fn lem_tri_inj(a: A2, n: int)
    requires low(a, n) || upp(a, n), ndiag(a, n), n >= 0,
    ensures injective(a, n),
{
    assert forall|x: A1| #[trigger] kernel(a, x, n) implies nil(x, n) by { if low(a, n) { lem_low_head(a, x, n, n); } else { lem_upp_tail(a, x, n, 0); } }
}
// the solution is unique, so what the output held before cannot matter
pub proof fn lem_unique(a: A2, x: A1, y: A1, b: A1, n: int)
    requires low(a, n) || upp(a, n), ndiag(a, n), n >= 0, solves(a, x, b, n), solves(a, y, b, n),
    ensures agree(x, y, n),
{
    lem_tri_inj(a, n);
    let z = |j: int| x(j) - y(j);
    assert forall|i: int| 0 <= i < n implies #[trigger] mv(a, z, n, i) == 0real by {
        assert(mv(a, x, n, i) == b(i) && mv(a, y, n, i) == b(i));
        let (f, g, h) = (mvt(a, z, i), mvt(a, y, i), mvt(a, x, i));
        assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == f(k) + g(k) by { let (p, q, s) = (a(i, k), x(k), y(k)); assert(p * q == p * (q - s) + p * s) by (nonlinear_arith); }
        rs_add(f, g, h, n);
    }
    assert(kernel(a, z, n)); assert(nil(z, n));
    assert forall|j: int| 0 <= j < n implies #[trigger] x(j) == y(j) by { assert(z(j) == 0real); }
}
pub open spec fn is_inv(a: A2, b: A2, n: int) -> bool { forall|i: int, k: int| 0 <= i < n && 0 <= k < n ==> #[trigger] mm(a, b, n, i, k) == delta(i, k) }
impl LowerTriangular {
    pub proof fn lem_low(&self) ensures low(mf(self), self.nr()) { }
//@ fn LowerTriangular::forward_sub -> res
//@ requires
    self.wf(), b@.len() == self.nr(), ndiag(mf(self), self.nr()),
//@ ensures
    res@.len() == self.nr(), solves(mf(self), vf(res@), vf(b@), self.nr()),
//@ before let mut x
    let ghost (a, bb, n) = (mf(self), vf(b@), self.nr());
    proof { self.lem_low(); }
//@ loop 0
    x@.len() == n, len0 == n, solves_to(a, vf(x@), bb, n, k0 as int),
//@ loop 0 start
    let ghost x0 = vf(x@);
//@ loop 1
    len1 == i0, acc1.r() == rsum(mvt(a, x0, i0 as int), k1 as int),
//@ loop 0 end
    proof { assert(a(i0 as int, i0 as int) != 0real); lem_fwd(a, x0, vf(x@), bb, n, i0 as int); }
//@ end
//@ fn LowerTriangular::tri_inv -> res
//@ requires
    self.wf(), ndiag(mf(self), self.nr()),
//@ ensures
    res.wf(), res.nr() == self.nr(), is_inv(mf(self), mf(&res), self.nr()), is_inv(mf(&res), mf(self), self.nr()),
//@ start
    let ghost (a, n) = (mf(self), self.nr());
    proof { self.lem_low(); lem_tri_inj(a, n); }
//@ loop 0
    b@.len() == n, len0 == n, forall|r: int| 0 <= r < n ==> (#[trigger] b@[r]).r() == 0real,
    res.wf(), res.nr() == n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < k0 ==> #[trigger] mm(a, mf(&res), n, r, c) == delta(r, c),
//@ loop 0 start
    let ghost res0 = res;
//@ loop 1 before
    let ghost xs = x@;
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, vf(xs), n, r) == delta(r, i0 as int) by { assert(vf(b@)(r) == delta(r, i0 as int)); }
        assert forall|r: int| 0 <= r < i0 implies #[trigger] mv(a, vf(xs), n, r) == 0real by { assert(mv(a, vf(xs), n, r) == delta(r, i0 as int)); }
        lem_low_head(a, vf(xs), n, i0 as int);
    }
//@ loop 1
    res.wf(), res.nr() == n, len1 == n - i0, x@ == xs,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n && c != i0 ==> #[trigger] res.at(r, c) == res0.at(r, c),
    forall|r: int| i0 <= r < i0 + k1 ==> #[trigger] res.at(r, i0 as int) == xs[r].r(),
//@ loop 0 end
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] res.at(r, i0 as int) == xs[r].r() by { if r < i0 { assert(vf(xs)(r) == 0real); } }
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < k0 implies #[trigger] mm(a, mf(&res), n, r, c) == delta(r, c) by {
            if c < i0 {
                assert(mm(a, mf(&res0), n, r, c) == delta(r, c));
                let f = |j: int| a(r, j) * mf(&res0)(j, c); let g = |j: int| a(r, j) * mf(&res)(j, c);
                assert forall|j: int| 0 <= j < n implies f(j) == #[trigger] g(j) by { assert(res.at(j, c) == res0.at(j, c)); }
                rsum_eq(f, g, n);
            } else {
                let f = mvt(a, vf(xs), r); let g = |j: int| a(r, j) * mf(&res)(j, c);
                assert forall|j: int| 0 <= j < n implies f(j) == #[trigger] g(j) by { assert(res.at(j, i0 as int) == xs[j].r()); }
                rsum_eq(f, g, n); assert(mv(a, vf(xs), n, r) == delta(r, i0 as int));
            }
        }
    }
//@ tail
    proof {
        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] mm(mf(&ret_), a, n, i, k) == delta(i, k) by { left_inv(a, mf(&ret_), n, k, i); }
    }
//@ end
}
impl UpperTriangular {
    pub proof fn lem_upp(&self) ensures upp(mf(self), self.nr()) { }
//@ fn UpperTriangular::backward_sub -> res
//@ requires
    self.wf(), b@.len() == self.nr(), ndiag(mf(self), self.nr()),
//@ ensures
    res@.len() == self.nr(), solves(mf(self), vf(res@), vf(b@), self.nr()),
//@ before let mut x
    let ghost (a, bb, n) = (mf(self), vf(b@), self.nr());
    proof { self.lem_upp(); }
//@ loop 0
    x@.len() == n, len0 == n, solves_from(a, vf(x@), bb, n, n - k0),
//@ loop 0 start
    let ghost x0 = vf(x@); let ghost ii = n - 1 - i0;
//@ loop 1
    len1 == n - (ii + 1), temp.r() == rsum(mvt(a, x0, ii), ii + 1 + k1) - rsum(mvt(a, x0, ii), ii + 1),
//@ loop 0 end
    proof { assert(a(ii, ii) != 0real); lem_ts(mvt(a, x0, ii), ii + 1, n); lem_bwd(a, x0, vf(x@), bb, n, ii); }
//@ end
//@ fn UpperTriangular::tri_inv -> res
//@ requires
    self.wf(), ndiag(mf(self), self.nr()),
//@ ensures
    res.wf(), res.nr() == self.nr(), is_inv(mf(self), mf(&res), self.nr()), is_inv(mf(&res), mf(self), self.nr()),
//@ start
    let ghost (a, n) = (mf(self), self.nr());
    proof { self.lem_upp(); lem_tri_inj(a, n); }
//@ loop 0
    b@.len() == n, len0 == n, forall|r: int| 0 <= r < n ==> (#[trigger] b@[r]).r() == 0real,
    res.wf(), res.nr() == n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < k0 ==> #[trigger] mm(a, mf(&res), n, r, c) == delta(r, c),
//@ loop 0 start
    let ghost res0 = res;
//@ loop 1 before
    let ghost xs = x@;
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] mv(a, vf(xs), n, r) == delta(r, i0 as int) by { assert(vf(b@)(r) == delta(r, i0 as int)); }
        assert forall|r: int| i0 + 1 <= r < n implies #[trigger] mv(a, vf(xs), n, r) == 0real by { assert(mv(a, vf(xs), n, r) == delta(r, i0 as int)); }
        lem_upp_tail(a, vf(xs), n, i0 + 1);
    }
//@ loop 1
    res.wf(), res.nr() == n, len1 == i0 + 1, x@ == xs,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n && c != i0 ==> #[trigger] res.at(r, c) == res0.at(r, c),
    forall|r: int| 0 <= r < k1 ==> #[trigger] res.at(r, i0 as int) == xs[r].r(),
//@ loop 0 end
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] res.at(r, i0 as int) == xs[r].r() by { if r > i0 { assert(vf(xs)(r) == 0real); } }
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < k0 implies #[trigger] mm(a, mf(&res), n, r, c) == delta(r, c) by {
            if c < i0 {
                assert(mm(a, mf(&res0), n, r, c) == delta(r, c));
                let f = |j: int| a(r, j) * mf(&res0)(j, c); let g = |j: int| a(r, j) * mf(&res)(j, c);
                assert forall|j: int| 0 <= j < n implies f(j) == #[trigger] g(j) by { assert(res.at(j, c) == res0.at(j, c)); }
                rsum_eq(f, g, n);
            } else {
                let f = mvt(a, vf(xs), r); let g = |j: int| a(r, j) * mf(&res)(j, c);
                assert forall|j: int| 0 <= j < n implies f(j) == #[trigger] g(j) by { assert(res.at(j, i0 as int) == xs[j].r()); }
                rsum_eq(f, g, n); assert(mv(a, vf(xs), n, r) == delta(r, i0 as int));
            }
        }
    }
//@ tail
    proof {
        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n implies #[trigger] mm(mf(&ret_), a, n, i, k) == delta(i, k) by { left_inv(a, mf(&ret_), n, k, i); }
    }
//@ end
}
impl Diagonal {
//@ fn Diagonal::solve
//@ requires
    self.wf(), old(x)@.len() == self.nr(), ndiag(mf(self), self.nr()),
//@ ensures
    final(x)@.len() == old(x)@.len(), solves(mf(self), vf(final(x)@), vf(old(x)@), self.nr()),
//@ start
    let ghost x0 = x@;
//@ loop 0
    x@.len() == x0.len(), len0 == self.nr(), self.data@.len() == x0.len(),
    forall|r: int| k0 <= r < x0.len() ==> #[trigger] x@[r] == x0[r],
    forall|r: int| 0 <= r < k0 ==> self.at(r, r) * (#[trigger] x@[r]).r() == x0[r].r(),
//@ loop 0 end
    proof { assert(mf(self)(i0 as int, i0 as int) != 0real); lem_div(x0[i0 as int].r(), self.at(i0 as int, i0 as int)); }
//@ finish
    proof {
        let a = mf(self); let n = self.nr();
        assert forall|i: int| 0 <= i < n implies #[trigger] mv(a, vf(x@), n, i) == vf(x0)(i) by {
            let f = mvt(a, vf(x@), i);
            assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == 0real by { lem_mul0(vf(x@)(k)); }
            rs_one(f, n, i); assert(self.at(i, i) * x@[i].r() == x0[i].r());
        }
    }
//@ end
}
// an unknown that is already zero needs no step
pub proof fn lem_out(a: A2, x: A1, y: A1, n: int, i: int)
    requires upp(a, n), ndiag(a, n), 0 <= i < n, solves_from(a, x, y, n, i + 1), x(i) == 0real, x(i) + tsum(mvt(a, x, i), i + 1, n) == y(i),
        forall|r: int| 0 <= r < i + 1 ==> x(r) + #[trigger] tsum(mvt(a, x, r), i + 1, n) == y(r),
    ensures solves_from(a, x, y, n, i), forall|r: int| 0 <= r < i ==> x(r) + #[trigger] tsum(mvt(a, x, r), i, n) == y(r),
{
    let d = a(i, i);
    assert((y(i) - tsum(mvt(a, x, i), i + 1, n)) / d == x(i)) by { assert(0real / d == 0real) by (nonlinear_arith) requires d != 0real; }
    lem_bwd(a, x, x, y, n, i);
    assert forall|r: int| 0 <= r < i implies x(r) + #[trigger] tsum(mvt(a, x, r), i, n) == y(r) by { lem_mul0(a(r, i)); assert(mvt(a, x, r)(i) == 0real); assert(x(r) + tsum(mvt(a, x, r), i + 1, n) == y(r)); }
}
impl LowerRowEnvelope {
    pub proof fn lem_low(&self) requires self.wf(), ensures low(mf(self), self.nr()) { assert forall|i: int, j: int| 0 <= i < j < self.nr() implies #[trigger] mf(self)(i, j) == 0real by { self.lem_in(i); } }
//@ fn LowerRowEnvelope::solve
//@ requires
    self.wf(), b@.len() == self.nr(), old(x)@.len() == self.nr(), ndiag(mf(self), self.nr()),
//@ ensures
    final(x)@.len() == self.nr(), solves(mf(self), vf(final(x)@), vf(b@), self.nr()),
//@ loop 0 before
    let ghost (a, bb, n) = (mf(self), vf(b@), self.nr());
    proof { self.lem_low(); }
//@ loop 0
    x@.len() == n, len0 == n, solves_to(a, vf(x@), bb, n, k0 as int),
//@ loop 0 start
    let ghost x0 = vf(x@);
    proof { self.lem_in(i0 as int); assert forall|k: int| 0 <= k < self.sc(i0 as int) implies #[trigger] mvt(a, x0, i0 as int)(k) == 0real by { lem_mul0(x0(k)); }
        rs_zero(mvt(a, x0, i0 as int), self.sc(i0 as int)); }
//@ loop 1
    len1 == i0 - start_col, acc1.r() == rsum(mvt(a, x0, i0 as int), start_col + k1),
//@ loop 0 end
    proof { assert(row_stored@[row_stored@.len() - 1].r() == a(i0 as int, i0 as int)); assert(a(i0 as int, i0 as int) != 0real); lem_fwd(a, x0, vf(x@), bb, n, i0 as int); }
//@ end
//@ fn LowerRowEnvelope::solve_submatrix
//@ requires
    self.wf(), range.0 <= range.1 <= self.n, b@.len() == range.1 - range.0, old(x)@.len() == b@.len(), ndiag(blk(mf(self), range.0 as int), range.1 - range.0),
//@ ensures
    final(x)@.len() == b@.len(), solves(blk(mf(self), range.0 as int), vf(final(x)@), vf(b@), range.1 - range.0),
//@ loop 0 before
    let ghost (s0, a, bb, n) = (range.0 as int, blk(mf(self), range.0 as int), vf(b@), range.1 - range.0);
    proof { self.lem_low(); assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] a(i, j) == 0real by { assert(mf(self)(s0 + i, s0 + j) == 0real); } }
//@ loop 0
    x@.len() == n, len0 == n, solves_to(a, vf(x@), bb, n, k0 as int),
//@ loop 0 start
    let ghost x0 = vf(x@); let ghost q = self.sc(s0 + i0); let ghost p = if q < s0 { 0 } else { q - s0 };
    proof { self.lem_in(s0 + i0); assert forall|k: int| 0 <= k < p implies #[trigger] mvt(a, x0, i0 as int)(k) == 0real by { lem_mul0(x0(k)); }
        rs_zero(mvt(a, x0, i0 as int), p); }
//@ loop 1 before
    proof { assert forall|k: int| 0 <= k < row_stored@.len() implies (#[trigger] row_stored@[k]).r() == a(i0 as int, p + k) by { } }
//@ loop 1
    len1 == i0 - p, lo4 == p, acc1.r() == rsum(mvt(a, x0, i0 as int), p + k1),
//@ loop 0 end
    proof { assert(row_stored@[row_stored@.len() - 1].r() == a(i0 as int, i0 as int)); assert(a(i0 as int, i0 as int) != 0real); lem_fwd(a, x0, vf(x@), bb, n, i0 as int); }
//@ end
//@ fn LowerRowEnvelope::solve_transposed
//@ opt double-ended
//@ requires
    self.wf(), y@.len() == self.nr(), old(x)@.len() == self.nr(), ndiag(mf(self), self.nr()),
//@ ensures
    final(x)@.len() == self.nr(), solves(tr(mf(self)), vf(final(x)@), vf(y@), self.nr()),
//@ loop 0 before
    let ghost (a, n, yy) = (tr(mf(self)), self.nr(), vf(y@));
    proof { self.lem_low(); assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] a(i, j) == 0real by { assert(mf(self)(j, i) == 0real); }
        assert forall|r: int| 0 <= r < n implies x@[r].r() + #[trigger] tsum(mvt(a, vf(x@), r), n, n) == y@[r].r() by { } }
//@ loop 0
    x@.len() == n, len0 == n, solves_from(a, vf(x@), yy, n, n - k0),
    forall|r: int| 0 <= r < n - k0 ==> x@[r].r() + #[trigger] tsum(mvt(a, vf(x@), r), n - k0, n) == y@[r].r(),
//@ loop 0 start
    let ghost x0 = x@; let ghost ii = n - 1 - i0;
    proof { self.lem_in(ii); assert(a(ii, ii) != 0real); assert(tsum(mvt(a, vf(x0), ii), ii + 1, n) == y@[ii].r() - x0[ii].r()); }
//@ before continue
    proof { lem_out(a, vf(x0), yy, n, ii); }
//@ loop 1 before
    let ghost x1 = x@;
    assert(row_stored@[row_stored@.len() - 1].r() == a(ii, ii));
//@ loop 1
    x@.len() == n, len1 == ii - start_col, sk6 == 0,
    forall|r: int| 0 <= r < n ==> (#[trigger] x@[r]).r() == x1[r].r() - if start_col <= r < start_col + k1 { s.r() * a(r, ii) } else { 0real },
//@ loop 0 end
    proof {
        assert forall|r: int| 0 <= r < ii implies (#[trigger] x@[r]).r() == x0[r].r() - a(r, ii) * s.r() by {
            let (p, q) = (a(r, ii), s.r()); assert(p * q == q * p) by (nonlinear_arith); if r < start_col { lem_mul0(s.r()); } assert(x1[r] == x0[r]); }
        lem_bwd(a, vf(x0), vf(x@), yy, n, ii);
        assert forall|r: int| 0 <= r < ii implies x@[r].r() + #[trigger] tsum(mvt(a, vf(x@), r), ii, n) == y@[r].r() by {
            ts_eq(mvt(a, vf(x0), r), mvt(a, vf(x@), r), ii + 1, n); assert(x0[r].r() + tsum(mvt(a, vf(x0), r), ii + 1, n) == y@[r].r()); }
    }
//@ end
}
}
