//@ include env.rs
verus! {
// ---- compressed rows from labelled values
pub open spec fn cut(s: Seq<((usize, usize), R)>, q: int, x: int) -> bool {
    0 <= x <= s.len() && (forall|k: int| 0 <= k < x ==> (#[trigger] s[k]).0.0 < q) && (forall|k: int| x <= k < s.len() ==> (#[trigger] s[k]).0.0 >= q)
}
pub open spec fn lex_le(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn lex_ord(a: (usize, usize), b: (usize, usize)) -> Ordering { if a == b { Ordering::Equal } else if lex_le(a, b) { Ordering::Less } else { Ordering::Greater } }
pub proof fn lem_cr_lv(m: &CompressedRow, s: Seq<((usize, usize), R)>, nr: int, nc: int)
    requires lv_ok(s, nr, nc), 0 <= nr < usize::MAX, 0 <= nc < usize::MAX, m.shape == (nr as usize, nc as usize), m.nz_count == s.len(), m.data@.len() == s.len(), m.col_indices@.len() == s.len(), m.row_starts@.len() == nr,
        forall|k: int| 0 <= k < s.len() ==> #[trigger] m.data@[k] == s[k].1, forall|k: int| 0 <= k < s.len() ==> #[trigger] m.col_indices@[k] == s[k].0.1,
        forall|q: int| 0 <= q < nr ==> cut(s, q, #[trigger] m.row_starts@[q] as int),
    ensures m.wf(), forall|r: int, c: int| inr(m, r, c) ==> #[trigger] m.at(r, c) == lv_at(s, r, c),
{
    assert forall|r: int| 0 <= r < nr implies #[trigger] m.st(r) <= m.en(r) && cut(s, r, m.st(r)) && cut(s, r + 1, m.en(r)) by {
        assert(cut(s, r, m.row_starts@[r] as int));
        if r + 1 < nr { assert(cut(s, r + 1, m.row_starts@[r + 1] as int)); }
        if m.st(r) > m.en(r) { assert(s[m.en(r)].0.0 < r); }
    }
    assert forall|r: int, r2: int| 0 <= r < r2 < nr implies #[trigger] m.en(r) <= #[trigger] m.st(r2) by { assert(m.st(r) <= m.en(r)); assert(m.st(r2) <= m.en(r2)); if m.en(r) > m.st(r2) { let k = m.st(r2); assert(s[k].0.0 < r + 1); } }
    assert forall|r: int, i: int, j: int| 0 <= r < nr && #[trigger] m.st(r) <= i < j < m.en(r) implies #[trigger] m.col_indices@[i] != #[trigger] m.col_indices@[j] by { assert(m.st(r) <= m.en(r)); assert(s[i].0 != s[j].0); assert(s[i].0.0 == r && s[j].0.0 == r); }
    assert forall|i: int| 0 <= i < m.nz_count implies #[trigger] m.col_indices@[i] < nc by { assert(s[i].0.1 < nc); }
    assert forall|r: int| 0 <= r < nr implies 0 <= #[trigger] m.st(r) <= m.en(r) <= m.nz_count by {}
    assert(m.wf());
    assert forall|r: int, c: int| inr(m, r, c) implies #[trigger] m.at(r, c) == lv_at(s, r, c) by {
        assert(m.st(r) <= m.en(r));
        if m.has(r, c) { let i = m.idx(r, c); assert(m.is_at(r, c, i)); assert(s[i].0.0 == r); assert(s[i].0 == key(r, c)); lem_lv(s, nr, nc, i); }
        else if lv_has(s, r, c) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == key(r, c); if k < m.st(r) { assert(s[k].0.0 < r); } if k >= m.en(r) { assert(s[k].0.0 >= r + 1); } assert(m.is_at(r, c, k)); }
    }
}
impl CompressedRow {
//@ fn CompressedRow::from_labeled_vals -> res
//@ let sort0 : |q0: &((usize, usize), R), q1: &((usize, usize), R)| -> (o: Ordering) ensures o == lex_ord(q0.0, q1.0)
//@ let cur_row : usize
//@ requires
    lv_ok(vals@, shape.0 as int, shape.1 as int), shape.0 < usize::MAX, shape.1 < usize::MAX,
//@ ensures
    res.wf(), res.nr() == shape.0, res.nc() == shape.1,
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == lv_at(vals@, r, c),
//@ start
    let ghost v0 = vals@;
//@ after vals.sort_by(
    let ghost s = vals@;
    proof {
        lem_rearr(v0, s, shape.0 as int, shape.1 as int);
        assert forall|i: int, j: int| 0 <= i <= j < s.len() implies (#[trigger] s[i]).0.0 <= (#[trigger] s[j]).0.0 by { }
    }
//@ loop 0
    vals@ == s, acc0@.len() == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] acc0@[k] == s[k].1,
//@ loop 1
    vals@ == s, acc1@.len() == k1, forall|k: int| 0 <= k < k1 ==> #[trigger] acc1@[k] == s[k].0.1,
//@ loop 2
    vals@ == s, row_starts@.len() == cur_row + 1, forall|q: int| 0 <= q <= cur_row ==> cut(s, q, #[trigger] row_starts@[q] as int),
    k2 > 0 ==> cur_row == s[k2 - 1].0.0, k2 == 0 ==> cur_row == 0,
//@ loop 2 start
    proof { assert(s[i2 as int].0.0 < shape.0); if i2 > 0 { assert(s[i2 - 1].0.0 <= s[i2 as int].0.0); } }
//@ loop 3
    vals@ == s, row_starts@.len() == cur_row + 1, forall|q: int| 0 <= q <= cur_row ==> cut(s, q, #[trigger] row_starts@[q] as int),
    cur_row <= s[i2 as int].0.0,
    i2 > 0 ==> cur_row >= s[i2 - 1].0.0,
    decreases s[i2 as int].0.0 - cur_row,
//@ before row_starts.resize
    let ghost rs0 = row_starts@;
    proof { if s.len() > 0 { assert(s[s.len() - 1].0.0 < shape.0); } }
//@ tail
    proof {
        assert forall|q: int| 0 <= q < shape.0 implies cut(s, q, #[trigger] ret_.row_starts@[q] as int) by {
            if q <= cur_row { assert(rs0[q] == ret_.row_starts@[q]); }
            else { assert(ret_.row_starts@[q] == s.len()); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0.0 < q by { assert(s[k].0.0 <= s[s.len() - 1].0.0); } }
        }
        lem_cr_lv(&ret_, s, shape.0 as int, shape.1 as int); }
//@ end
}
}
verus! {
impl CompressedRow {
//@ fn From<Dictionary> for CompressedRow::from -> res
//@ sig
    pub fn v_from_dict(dct: Dictionary) -> (res: Self)
//@ requires
    dct.wf(),
//@ ensures
    res.wf(), same_mat(&res, &dct),
//@ loop 0
    entries_of(dct.data@, es0@), len0 == es0@.len(), acc0@.len() == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] acc0@[k] == es0@[k],
//@ loop 0 after
    proof { lem_entries(&dct, es0@); assert(acc0@ =~= es0@); }
//@ end
}
impl LinearMatrix {
//@ fn From<Dictionary> for LinearMatrix::from -> res
//@ sig
    pub fn v_from_dict(dct: Dictionary) -> (res: Self)
//@ requires
    dct.wf(), fits(dct.nr(), dct.nc()),
//@ ensures
    res.wf(), same_mat(&res, &dct),
//@ loop 0
    dct.wf(), res.wf(), res.nr() == dct.nr(), res.nc() == dct.nc(),
    forall|r: int, c: int| inr(&res, r, c) && r < k0 ==> #[trigger] res.at(r, c) == dct.at(r, c),
//@ loop 1
    dct.wf(), res.wf(), res.nr() == dct.nr(), res.nc() == dct.nc(), i0 < res.nr(), len1 == res.nc(),
    forall|r: int, c: int| inr(&res, r, c) && (r < i0 || (r == i0 && c < k1)) ==> #[trigger] res.at(r, c) == dct.at(r, c),
//@ end
}
impl Dictionary { pub open spec fn has_lower(&self, r: int) -> bool { exists|c: int| 0 <= c <= r && #[trigger] self.has(r, c) } }
impl LowerRowEnvelope {
//@ fn From<Dictionary> for LowerRowEnvelope::from -> res
//@ tupleidx loc
//@ sig
    pub fn v_from_dict(dct: Dictionary) -> (res: Self)
//@ requires
    dct.wf(), dct.nr() == dct.nc(), tri_fits(dct.nr()), forall|r: int| 0 <= r < dct.nr() ==> #[trigger] dct.has_lower(r),
//@ ensures
    res.wf(), res.nr() == dct.nr(), res.nc() == dct.nc(), forall|r: int| 0 <= r < dct.nr() ==> #[trigger] dct.is_env(r, res.row_nnz@[r] as int),
    forall|r: int, c: int| inr(&dct, r, c) ==> #[trigger] res.at(r, c) == if c <= r { dct.at(r, c) } else { 0real },
//@ after let env = dct.envelope
    proof {
        assert forall|r: int| 0 <= r < env@.len() implies 1 <= #[trigger] env@[r] <= r + 1 by { assert(dct.is_env(r, env@[r] as int)); assert(dct.has_lower(r)); let c = choose|c: int| 0 <= c <= r && #[trigger] dct.has(r, c); assert(env@[r] >= r - c + 1); }
    }
//@ after let mut res =
    let ghost rn = res.row_nnz@;
//@ loop 0 before
    proof { lem_entries(&dct, es0@); }
//@ loop 0
    res.wf(), res.n == dct.nr(), dct.wf(), dct.nr() == dct.nc(), entries_of(dct.data@, es0@), lv_ok(es0@, dct.nr(), dct.nc()), len0 == es0@.len(),
    forall|r: int| 0 <= r < dct.nr() ==> #[trigger] dct.is_env(r, rn[r] as int), forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.writable(r, c) == (r + 1 - rn[r] <= c < r + 1),
    rn.len() == dct.nr(),
    forall|k: int| 0 <= k < es0@.len() ==> dct.at((#[trigger] es0@[k]).0.0 as int, es0@[k].0.1 as int) == es0@[k].1.r() && dct.data@.dom().contains(es0@[k].0),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if c <= r && seen(es0@, k0 as int, r, c) { dct.at(r, c) } else { 0real },
//@ loop 0 start
    let ghost res0 = res;
    proof {
        let (rr, cc) = (es0@[i0 as int].0.0 as int, es0@[i0 as int].0.1 as int);
        assert(inr(&dct, rr, cc)); assert(key(rr, cc) == es0@[i0 as int].0); assert(dct.has(rr, cc));
        if cc <= rr { assert(dct.is_env(rr, rn[rr] as int)); assert(res.writable(rr, cc)); }
        assert forall|r: int, c: int| inr(&dct, r, c) implies #[trigger] seen(es0@, k0 as int, r, c) == (seen(es0@, i0 as int, r, c) || (r == rr && c == cc)) by { lem_seen(es0@, i0 as int, r, c); }
    }
//@ tail
    proof {
        lem_seen_all(&dct, es0@);
        assert forall|r: int, c: int| inr(&dct, r, c) implies #[trigger] ret_.at(r, c) == if c <= r { dct.at(r, c) } else { 0real } by { assert(seen(es0@, es0@.len() as int, r, c) == dct.has(r, c)); }
        assert forall|r: int| 0 <= r < dct.nr() implies #[trigger] dct.is_env(r, ret_.row_nnz@[r] as int) by { assert(dct.is_env(r, rn[r] as int)); assert(ret_.row_nnz@[r] == rn[r]) by {
            let a = r + 1 - rn[r]; let b = r + 1 - ret_.row_nnz@[r]; assert(1 <= rn[r] <= r + 1); assert(1 <= ret_.row_nnz@[r]); assert(inr(&ret_, r, a)); assert(ret_.writable(r, a)); assert(inr(&ret_, r, b)); assert(ret_.writable(r, b)); } }
    }
//@ end
}
pub open spec fn bwid(b: (usize, usize)) -> int { b.1 - b.0 }
pub open spec fn bsum(b: Seq<(usize, usize)>, k: int) -> int decreases k { if k <= 0 { 0 } else { bsum(b, k - 1) + bwid(b[k - 1]) } }
pub proof fn lem_bsum(b: Seq<(usize, usize)>, a: int, k: int, n: int)
    requires 0 <= a <= k <= b.len(), 0 <= n, forall|r: int| 0 <= r < b.len() ==> 0 <= bwid(#[trigger] b[r]) <= n,
    ensures 0 <= bsum(b, a) <= bsum(b, k) <= n * k,
    decreases k,
{
    if k > 0 { assert(0 <= bwid(b[k - 1]) <= n); if a < k { lem_bsum(b, a, k - 1, n); } else { lem_bsum(b, k - 1, k - 1, n); } assert(n * k == n * (k - 1) + n) by (nonlinear_arith); } else { assert(n * k == 0) by (nonlinear_arith) requires k == 0; }
}
pub open spec fn bfix(b: (usize, usize), i: int) -> (usize, usize) { if b.0 > b.1 { (i as usize, i as usize) } else { b } }
impl BiEnvelope {
//@ fn BiEnvelope::from_row_bounds -> res
//@ requires
    fits(bnd@.len() as int, bnd@.len() as int), forall|r: int| 0 <= r < bnd@.len() ==> (#[trigger] bnd@[r]).1 <= bnd@.len() && bnd@[r].0 <= bnd@.len(),
//@ ensures
    res.wf(), res.n == bnd@.len(),
    forall|r: int| 0 <= r < bnd@.len() ==> #[trigger] res.row_bounds@[r] == bfix(bnd@[r], r),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == 0real,
//@ start
    let ghost b0 = bnd@;
//@ loop 0
    bnd@.len() == n, b0.len() == n, len0 == n, forall|r: int| 0 <= r < n ==> #[trigger] bnd@[r] == if r < k0 { bfix(b0[r], r) } else { b0[r] },
//@ loop 1
    bnd@.len() == n, b0.len() == n, len1 == n, fits(n as int, n as int), forall|r: int| 0 <= r < n ==> #[trigger] bnd@[r] == bfix(b0[r], r), forall|r: int| 0 <= r < n ==> 0 <= bwid(#[trigger] bnd@[r]) <= n,
    row_starts@.len() == k1 + 1, forall|r: int| 0 <= r <= k1 ==> #[trigger] row_starts@[r] == bsum(bnd@, r),
//@ loop 1 before
    proof { assert forall|r: int| 0 <= r < n implies 0 <= bwid(#[trigger] bnd@[r]) <= n by { assert(b0[r].1 <= n); } }
//@ loop 1 start
    proof { assert(0 <= bwid(bnd@[i1 as int])); lem_bsum(bnd@, i1 as int, k1 as int, n as int); assert(n * k1 <= n * n) by (nonlinear_arith) requires k1 <= n, n >= 0; assert(bsum(bnd@, k1 as int) == bsum(bnd@, i1 as int) + bwid(bnd@[i1 as int])); assert(row_starts@[i1 as int] == bsum(bnd@, i1 as int)); }
//@ tail
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= ret_.data@.len() by { assert(row_starts@[r] == bsum(bnd@, r)); assert(bsum(bnd@, r + 1) == bsum(bnd@, r) + bwid(bnd@[r])); lem_bsum(bnd@, r + 1, n as int, n as int); }
        assert forall|r: int, r2: int| 0 <= r < r2 < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= #[trigger] ret_.st(r2) by { assert(row_starts@[r] == bsum(bnd@, r)); assert(bsum(bnd@, r + 1) == bsum(bnd@, r) + bwid(bnd@[r])); lem_bsum(bnd@, r + 1, r2, n as int); assert(row_starts@[r2] == bsum(bnd@, r2)); }
        assert forall|r: int| 0 <= r < n implies (#[trigger] ret_.row_bounds@[r]).0 <= ret_.row_bounds@[r].1 <= n by { assert(0 <= bwid(bnd@[r]) <= n); assert(b0[r].1 <= n); }
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == 0real by { ret_.lem_in(r); if ret_.has(r, c) { assert(0 <= ret_.idx(r, c) < ret_.data@.len()); } }
    }
//@ end
//@ fn From<Dictionary> for BiEnvelope::from -> res
//@ tupleidx loc
//@ sig
    pub fn v_from_dict(dct: Dictionary) -> (res: Self)
//@ requires
    dct.wf(), dct.nr() == dct.nc(), fits(dct.nr(), dct.nr()),
//@ ensures
    res.wf(), same_mat(&res, &dct),
//@ after let bnd =
    proof {
        assert forall|r: int| 0 <= r < bnd@.len() implies (#[trigger] bnd@[r]).1 <= bnd@.len() && bnd@[r].0 <= bnd@.len() by { assert(dct.is_bounds(r, bnd@[r])); }
    }
    let ghost b0 = bnd@;
//@ loop 0 before
    proof {
        lem_entries(&dct, es0@);
        assert forall|r: int, c: int| inr(&dct, r, c) && #[trigger] dct.has(r, c) implies res.writable(r, c) by { assert(dct.is_bounds(r, b0[r])); assert(res.row_bounds@[r] == bfix(b0[r], r)); }
    }
//@ loop 0
    res.wf(), res.n == dct.nr(), dct.wf(), dct.nr() == dct.nc(), entries_of(dct.data@, es0@), lv_ok(es0@, dct.nr(), dct.nc()), len0 == es0@.len(),
    forall|r: int, c: int| inr(&dct, r, c) && #[trigger] dct.has(r, c) ==> res.writable(r, c),
    forall|k: int| 0 <= k < es0@.len() ==> dct.at((#[trigger] es0@[k]).0.0 as int, es0@[k].0.1 as int) == es0@[k].1.r() && dct.data@.dom().contains(es0@[k].0),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if seen(es0@, k0 as int, r, c) { dct.at(r, c) } else { 0real },
//@ loop 0 start
    let ghost res0 = res;
    proof {
        let (rr, cc) = (es0@[i0 as int].0.0 as int, es0@[i0 as int].0.1 as int);
        assert(inr(&dct, rr, cc)); assert(key(rr, cc) == es0@[i0 as int].0); assert(dct.has(rr, cc));
        assert forall|r: int, c: int| inr(&dct, r, c) implies #[trigger] seen(es0@, k0 as int, r, c) == (seen(es0@, i0 as int, r, c) || (r == rr && c == cc)) by { lem_seen(es0@, i0 as int, r, c); }
    }
//@ loop 0 end
    proof { assert forall|r: int, c: int| inr(&dct, r, c) && #[trigger] dct.has(r, c) implies res.writable(r, c) by { assert(inr(&res0, r, c)); assert(res0.writable(r, c)); } }
//@ tail
    proof { lem_seen_all(&dct, es0@); assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == dct.at(r, c) by { assert(seen(es0@, es0@.len() as int, r, c) == dct.has(r, c)); } }
//@ end
}
}
verus! {
impl Dictionary {
//@ fn MatrixLike for Dictionary::nzs -> res
//@ sig
    pub fn v_nzs(&self) -> (res: Vec<((usize, usize), R)>)
//@ opt collect
//@ requires
    self.wf(),
//@ ensures
    entries_of(self.data@, res@),
//@ loop 0
    entries_of(self.data@, es0@), len0 == es0@.len(), acc0@.len() == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] acc0@[k] == es0@[k],
//@ loop 0 after
    proof { assert(acc0@ =~= es0@); }
//@ end
}
impl LowerRowEnvelope {
    // rows 0..k of it are the lower parts of the rows of b
    pub open spec fn low_rows(dt: Seq<R>, rs: Seq<usize>, nz: Seq<usize>, b: &BiEnvelope, k: int) -> bool {
        &&& rs.len() == nz.len() && k <= rs.len()
        &&& forall|r: int| 0 <= r < k ==> #[trigger] rs[r] + nz[r] <= dt.len() && nz[r] == r + 1 - b.sc(r) && 1 <= nz[r] <= r + 1 && b.ec(r) > r
        &&& forall|r: int, q: int| 0 <= r < q < k ==> #[trigger] rs[r] + nz[r] <= #[trigger] rs[q]
        &&& forall|r: int, i: int| 0 <= r < k && 0 <= i < nz[r] ==> dt[#[trigger] (rs[r] + i)] == b.data@[#[trigger] (b.st(r) + i)]
    }
//@ fn LowerRowEnvelope::from_bienv -> res
//@ requires
    b.wf(), forall|r: int| 0 <= r < b.n ==> (#[trigger] b.sc(r)) <= r && r < b.ec(r),
//@ ensures
    res.wf(), res.nr() == b.nr(), forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if c <= r { b.at(r, c) } else { 0real },
//@ let data : Vec<R>
//@ let row_starts : Vec<usize>
//@ let row_nnz : Vec<usize>
//@ loop 0
    b.wf(), n == b.n, row_starts@.len() == k0, row_nnz@.len() == k0, Self::low_rows(data@, row_starts@, row_nnz@, b, k0 as int),
//@ loop 0 start
    let ghost (d0, rs0, nz0) = (data@, row_starts@, row_nnz@);
    proof { assert(b.data@.len() == b.data.len() as int); b.lem_in(i0 as int); assert(b.st(i0 as int) >= 0); assert(b.sc(i0 as int) <= i0); }
//@ loop 0 end
    proof {
        let r0 = i0 as int;
        assert(forall|i: int| 0 <= i < d0.len() ==> #[trigger] data@[i] == d0[i]);
        assert forall|r: int, i: int| 0 <= r < k0 && 0 <= i < row_nnz@[r] implies data@[#[trigger] (row_starts@[r] + i)] == b.data@[#[trigger] (b.st(r) + i)] by {
            if r < r0 { assert(rs0[r] + nz0[r] <= d0.len()); assert(d0[rs0[r] + i] == b.data@[b.st(r) + i]); } }
        assert forall|r: int| 0 <= r < k0 implies #[trigger] row_starts@[r] + row_nnz@[r] <= data@.len() && row_nnz@[r] == r + 1 - b.sc(r) && 1 <= row_nnz@[r] <= r + 1 && b.ec(r) > r by { if r < r0 { assert(rs0[r] + nz0[r] <= d0.len()); } }
        assert forall|r: int, q: int| 0 <= r < q < k0 implies #[trigger] row_starts@[r] + row_nnz@[r] <= #[trigger] row_starts@[q] by { assert(rs0[r] + nz0[r] <= d0.len()); if q < r0 { assert(rs0[r] + nz0[r] <= rs0[q]); } }
    }
//@ tail
    proof {
        let rs = ret_.row_starts@; let nz = ret_.row_nnz@;
        assert forall|r: int| 0 <= r < n implies 1 <= #[trigger] ret_.row_nnz@[r] <= r + 1 by { assert(rs[r] + nz[r] <= data@.len()); }
        assert forall|r: int| 0 <= r < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= ret_.data@.len() by { assert(rs[r] + nz[r] <= data@.len()); }
        assert forall|r: int, q: int| 0 <= r < q < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= #[trigger] ret_.st(q) by { assert(rs[r] + nz[r] <= rs[q]); }
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == if c <= r { b.at(r, c) } else { 0real } by {
            assert(rs[r] + nz[r] <= data@.len()); assert(ret_.sc(r) == b.sc(r));
            if ret_.has(r, c) { let i = c - b.sc(r); assert(rs[r] + i == ret_.idx(r, c)); assert(b.st(r) + i == b.idx(r, c)); } }
    }
//@ end
}
}
verus! {
// a lower envelope from a flat list: the entries to store (ts) and the length of each row (en)
pub open spec fn ts_has(ts: Seq<((usize, usize), R)>, r: int, c: int) -> bool { exists|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]).0 == key(r, c) }
pub open spec fn ts_ok(ts: Seq<((usize, usize), R)>, v: Seq<R>, n: int) -> bool {
    forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]).0.1 <= ts[k].0.0 && ts[k].0.0 < n && ts[k].1.r() == fv(v, n * ts[k].0.0, ts[k].0.1 as int)
}
// columns below m of row r, e of them stored, up to the last one
pub open spec fn fe_row(ts: Seq<((usize, usize), R)>, v: Seq<R>, n: int, r: int, m: int, e: int) -> bool {
    &&& 0 <= e <= m
    &&& forall|c: int| 0 <= c < m - e ==> #[trigger] fv(v, n * r, c) == 0real
    &&& forall|c: int| m - e <= c < m ==> #[trigger] ts_has(ts, r, c)
    &&& forall|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]).0.0 == r ==> m - e <= ts[k].0.1 < m
}
pub open spec fn upper_zero(v: Seq<R>, n: int, r: int, k: int) -> bool { forall|c: int| r < c < k ==> #[trigger] fv(v, n * r, c) == 0real }
pub open spec fn low_some(v: Seq<R>, n: int, r: int) -> bool { exists|c: int| 0 <= c <= r && #[trigger] fv(v, n * r, c) != 0real }
pub open spec fn fe_rows(ts: Seq<((usize, usize), R)>, en: Seq<usize>, v: Seq<R>, n: int) -> bool {
    forall|r: int| 0 <= r < en.len() ==> fe_row(ts, v, n, r, r + 1, #[trigger] en[r] as int) && upper_zero(v, n, r, n)
}
pub proof fn lem_has_ext(a: Seq<((usize, usize), R)>, b: Seq<((usize, usize), R)>, r: int, c: int)
    requires prefix(a, b), ts_has(a, r, c),
    ensures ts_has(b, r, c),
{ let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == key(r, c); assert(b[k].0 == key(r, c)); }
pub proof fn lem_fe_ext(a: Seq<((usize, usize), R)>, b: Seq<((usize, usize), R)>, v: Seq<R>, n: int, r: int, m: int, e: int)
    requires fe_row(a, v, n, r, m, e), prefix(a, b), forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]).0.0 != r,
    ensures fe_row(b, v, n, r, m, e),
{
    assert forall|c: int| m - e <= c < m implies #[trigger] ts_has(b, r, c) by { assert(ts_has(a, r, c)); lem_has_ext(a, b, r, c); }
    assert forall|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0.0 == r implies m - e <= b[k].0.1 < m by { if k < a.len() { assert(a[k].0.0 == r); } }
}
impl LowerRowEnvelope {
//@ fn MatrixLike for LowerRowEnvelope::from_flat -> res
//@ opt hidden
//@ tupleidx loc
//@ diverge
//@ sig
    fn from_flat_any<S: VIntoShape>(shape: S, vals: Vec<R>) -> (res: Self)
//@ requires
    shape.s_ok(), tri_fits(shape.sr()), forall|r: int| 0 <= r < shape.sr() ==> #[trigger] low_some(vals@, shape.sr(), r),
//@ ensures
    shape.sr() == shape.sc(), vals@.len() >= shape.sr() * shape.sr(), res.wf(), res.nr() == shape.sr(),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == fv(vals@, shape.sr() * r, c),
//@ let row_nnz : usize
//@ start
    let ghost v0 = vals@;
    let ghost gn = shape.sr();
    proof { assert(vals@.len() == vals.len() as int); lem_tri_fits_n(gn); }
//@ loop 0
    n == gn, n < usize::MAX, vals@ == v0, n0 == v0.len(), pos1 == gn * k0, pos1 <= v0.len(), envelope@.len() == k0, ts_ok(to_set@, v0, gn),
    fe_rows(to_set@, envelope@, v0, gn), forall|k: int| 0 <= k < to_set@.len() ==> (#[trigger] to_set@[k]).0.0 < k0,
//@ loop 0 start
    let ghost ts0 = to_set@;
    proof { lem_idx_end(i0 as int, gn, gn); }
//@ loop 1
    n == gn, vals@ == v0, n0 == v0.len(), pos1 == gn * i0 + k1, pos1 <= v0.len(), envelope@.len() == i0, k0 == i0 + 1, k0 <= len0, len1 == n, ts_ok(to_set@, v0, gn), prefix(ts0, to_set@),
    forall|k: int| ts0.len() <= k < to_set@.len() ==> (#[trigger] to_set@[k]).0.0 == i0,
    forall|k: int| 0 <= k < ts0.len() ==> (#[trigger] ts0[k]).0.0 < i0,
    fe_row(to_set@, v0, gn, i0 as int, if k1 <= i0 + 1 { k1 as int } else { i0 + 1 }, row_nnz as int), upper_zero(v0, gn, i0 as int, k1 as int),
    k1 <= i0 + 1 ==> (in_env <==> row_nnz > 0),
//@ loop 1 start
    let ghost ts1 = to_set@; let ghost e1 = row_nnz as int;
    let ghost m1 = if i1 <= i0 + 1 { i1 as int } else { i0 + 1 };
    proof { assert(to_set@ =~= ts1); }
//@ loop 1 end
    proof {
        assert(pos1 <= v0.len()); assert(fv(v0, gn * i0, i1 as int) == val.r());
        let m2 = if k1 <= i0 + 1 { k1 as int } else { i0 + 1 };
        if to_set@.len() > ts1.len() { assert(to_set@[ts1.len() as int].0 == key(i0 as int, i1 as int)); assert(ts_has(to_set@, i0 as int, i1 as int)); }
        assert forall|c: int| m2 - row_nnz <= c < m2 implies #[trigger] ts_has(to_set@, i0 as int, c) by { if c < i1 && m1 - e1 <= c { assert(ts_has(ts1, i0 as int, c)); lem_has_ext(ts1, to_set@, i0 as int, c); } }
        assert forall|k: int| 0 <= k < to_set@.len() && (#[trigger] to_set@[k]).0.0 == i0 implies m2 - row_nnz <= to_set@[k].0.1 < m2 by { if k < ts1.len() { assert(ts1[k].0.0 == i0); } }
    }
//@ loop 0 end
    proof {
        assert forall|r: int| 0 <= r < envelope@.len() implies fe_row(to_set@, v0, gn, r, r + 1, #[trigger] envelope@[r] as int) && upper_zero(v0, gn, r, gn) by {
            if r < i0 { lem_fe_ext(ts0, to_set@, v0, gn, r, r + 1, envelope@[r] as int); } }
    }
//@ before let mut res =
    let ghost en = envelope@;
    let ghost ts = to_set@;
    proof {
        assert forall|r: int| 0 <= r < envelope@.len() implies 1 <= #[trigger] envelope@[r] <= r + 1 by {
            assert(fe_row(ts, v0, gn, r, r + 1, envelope@[r] as int)); assert(low_some(v0, gn, r)); let c = choose|c: int| 0 <= c <= r && #[trigger] fv(v0, gn * r, c) != 0real; }
    }
//@ loop 2
    res.wf(), res.n == gn, to_set@ == ts, ts_ok(ts, v0, gn), fe_rows(ts, en, v0, gn), en.len() == gn,
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.writable(r, c) == (r + 1 - en[r] <= c < r + 1),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if seen(ts, k2 as int, r, c) { fv(v0, gn * r, c) } else { 0real },
//@ loop 2 start
    let ghost res0 = res;
    proof {
        let (rr, cc) = (ts[i2 as int].0.0 as int, ts[i2 as int].0.1 as int);
        assert(inr(&res, rr, cc)); assert(fe_row(ts, v0, gn, rr, rr + 1, en[rr] as int)); assert(res.writable(rr, cc));
        assert forall|r: int, c: int| inr(&res, r, c) implies #[trigger] seen(ts, k2 as int, r, c) == (seen(ts, i2 as int, r, c) || (r == rr && c == cc)) by { lem_seen(ts, i2 as int, r, c); }
    }
//@ tail
    proof {
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == fv(v0, gn * r, c) by {
            assert(fe_row(ts, v0, gn, r, r + 1, en[r] as int)); assert(upper_zero(v0, gn, r, gn));
            if r + 1 - en[r] <= c <= r { assert(ts_has(ts, r, c)); let k = choose|k: int| 0 <= k < ts.len() && (#[trigger] ts[k]).0 == key(r, c); assert(ts[k].0 == key(r, c)); assert(seen(ts, ts.len() as int, r, c)); }
            else if c <= r { assert(fv(v0, gn * r, c) == 0real); } else { assert(fv(v0, gn * r, c) == 0real); }
        }
        assert(gn * gn <= v0.len()) by { assert(gn * gn == gn * gn); }
    }
//@ end
}
}
