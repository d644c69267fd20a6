//@ include mat.rs
//@ include tri.rs
//@ include vmap.rs
//@ map Dictionary.data
verus! {
//@ enum Entry
//@ struct CompressedRow
//@ struct LowerRowEnvelope
//@ struct BiEnvelope
//@ struct Dictionary

// ---- where rows start
pub open spec fn psum(e: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 0 } else { psum(e, k - 1) + e[k - 1] } }
pub proof fn lem_psum(e: Seq<usize>, k: int) ensures k > 0 ==> psum(e, k) == psum(e, k - 1) + e[k - 1] {}
pub proof fn lem_psum_mono(e: Seq<usize>, a: int, b: int) requires 0 <= a <= b, ensures 0 <= psum(e, a) <= psum(e, b), decreases b { if b > 0 { if a < b { lem_psum_mono(e, a, b - 1); } else { lem_psum_mono(e, a - 1, b - 1); } } }
pub proof fn lem_psum_le(e: Seq<usize>, k: int)
    requires 0 <= k <= e.len(), forall|r: int| 0 <= r < k ==> #[trigger] e[r] <= r + 1,
    ensures 0 <= psum(e, k) <= tri(k),
    decreases k,
{ lem_psum_mono(e, 0, k); if k > 0 { lem_psum_le(e, k - 1); lem_tri(k - 1); assert(e[k - 1] <= k); } }
// ---- one stored row against the flat list it was made from
pub open spec fn fv(v: Seq<R>, base: int, c: int) -> real { v[base + c].r() }
pub open spec fn row_done(ci: Seq<usize>, dt: Seq<R>, s: int, e: int, v: Seq<R>, base: int, cc: int) -> bool {
    &&& 0 <= s <= e <= ci.len() && ci.len() == dt.len()
    &&& forall|i: int| s <= i < e ==> (#[trigger] ci[i]) < cc && dt[i].r() == fv(v, base, ci[i] as int)
    &&& forall|i: int, j: int| s <= i < j < e ==> #[trigger] ci[i] < #[trigger] ci[j]
    &&& forall|c: int| 0 <= c < cc && #[trigger] fv(v, base, c) != 0real ==> exists|i: int| s <= i < e && #[trigger] ci[i] == c
}
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub proof fn lem_rd_ext(ci: Seq<usize>, dt: Seq<R>, ci2: Seq<usize>, dt2: Seq<R>, s: int, e: int, v: Seq<R>, base: int, cc: int)
    requires row_done(ci, dt, s, e, v, base, cc), prefix(ci, ci2), prefix(dt, dt2), ci2.len() == dt2.len(),
    ensures row_done(ci2, dt2, s, e, v, base, cc),
{
    assert forall|c: int| 0 <= c < cc && #[trigger] fv(v, base, c) != 0real implies exists|i: int| s <= i < e && #[trigger] ci2[i] == c by {
        let i = choose|i: int| s <= i < e && #[trigger] ci[i] == c; assert(ci2[i] == c); }
    assert forall|i: int| s <= i < e implies (#[trigger] ci2[i]) < cc && dt2[i].r() == fv(v, base, ci2[i] as int) by { assert(ci[i] < cc); assert(dt2[i] == dt[i]); }
}
pub proof fn lem_rd_step(ci: Seq<usize>, dt: Seq<R>, ci2: Seq<usize>, dt2: Seq<R>, s: int, v: Seq<R>, base: int, cc: int)
    requires row_done(ci, dt, s, ci.len() as int, v, base, cc), 0 <= cc, prefix(ci, ci2), prefix(dt, dt2), ci2.len() == dt2.len(),
        (ci2.len() == ci.len() && fv(v, base, cc) == 0real) || (ci2.len() == ci.len() + 1 && ci2[ci.len() as int] == cc && dt2[ci.len() as int].r() == fv(v, base, cc)),
    ensures row_done(ci2, dt2, s, ci2.len() as int, v, base, cc + 1),
{
    let n = ci.len() as int;
    assert forall|i: int| s <= i < ci2.len() implies (#[trigger] ci2[i]) < cc + 1 && dt2[i].r() == fv(v, base, ci2[i] as int) by { if i < n { assert(ci[i] < cc); assert(dt2[i] == dt[i]); } }
    assert forall|i: int, j: int| s <= i < j < ci2.len() implies #[trigger] ci2[i] < #[trigger] ci2[j] by { assert(ci2[i] == ci[i]); assert(ci[i] < cc); if j < n { assert(ci[i] < ci[j]); } }
    assert forall|c: int| 0 <= c < cc + 1 && #[trigger] fv(v, base, c) != 0real implies exists|i: int| s <= i < ci2.len() && #[trigger] ci2[i] == c by {
        if c == cc { assert(ci2[n] == cc); } else { let i = choose|i: int| s <= i < n && #[trigger] ci[i] == c; assert(ci2[i] == c); } }
}
// all the rows so far
pub open spec fn rows_done(ci: Seq<usize>, dt: Seq<R>, rs: Seq<usize>, v: Seq<R>, nc: int) -> bool {
    &&& ci.len() == dt.len()
    &&& forall|r: int| 0 <= r < rs.len() ==> #[trigger] rs[r] <= ci.len()
    &&& forall|r: int, r2: int| 0 <= r <= r2 < rs.len() ==> #[trigger] rs[r] <= #[trigger] rs[r2]
    &&& forall|r: int| 0 <= r && r + 1 < rs.len() ==> row_done(ci, dt, #[trigger] rs[r] as int, rs[r + 1] as int, v, nc * r, nc)
}
pub proof fn lem_rs_ext(ci: Seq<usize>, dt: Seq<R>, ci2: Seq<usize>, dt2: Seq<R>, rs: Seq<usize>, v: Seq<R>, nc: int)
    requires rows_done(ci, dt, rs, v, nc), prefix(ci, ci2), prefix(dt, dt2), ci2.len() == dt2.len(),
    ensures rows_done(ci2, dt2, rs, v, nc),
{
    assert forall|r: int| 0 <= r && r + 1 < rs.len() implies row_done(ci2, dt2, #[trigger] rs[r] as int, rs[r + 1] as int, v, nc * r, nc) by { lem_rd_ext(ci, dt, ci2, dt2, rs[r] as int, rs[r + 1] as int, v, nc * r, nc); }
    assert forall|r: int| 0 <= r < rs.len() implies #[trigger] rs[r] <= ci2.len() by {}
}
// ---- compressed rows
impl CompressedRow {
    pub open spec fn st(&self, r: int) -> int { self.row_starts@[r] as int }
    pub open spec fn en(&self, r: int) -> int { if r + 1 < self.shape.0 { self.row_starts@[r + 1] as int } else { self.nz_count as int } }
    // entry i is the one stored for (r, c)
    pub open spec fn is_at(&self, r: int, c: int, i: int) -> bool { self.st(r) <= i < self.en(r) && self.col_indices@[i] == c }
    pub open spec fn has(&self, r: int, c: int) -> bool { exists|i: int| #[trigger] self.is_at(r, c, i) }
    pub open spec fn idx(&self, r: int, c: int) -> int { choose|i: int| #[trigger] self.is_at(r, c, i) }
}
impl MatSpec for CompressedRow {
    open spec fn wf(&self) -> bool {
        &&& self.shape.0 < usize::MAX && self.shape.1 < usize::MAX
        &&& self.data@.len() == self.nz_count && self.col_indices@.len() == self.nz_count && self.row_starts@.len() == self.shape.0
        &&& forall|r: int| 0 <= r < self.shape.0 ==> 0 <= #[trigger] self.st(r) <= self.en(r) <= self.nz_count
        &&& forall|r: int, r2: int| 0 <= r < r2 < self.shape.0 ==> #[trigger] self.en(r) <= #[trigger] self.st(r2)
        &&& forall|r: int, i: int, j: int| 0 <= r < self.shape.0 && #[trigger] self.st(r) <= i < j < self.en(r) ==> #[trigger] self.col_indices@[i] != #[trigger] self.col_indices@[j]
        &&& forall|i: int| 0 <= i < self.nz_count ==> #[trigger] self.col_indices@[i] < self.shape.1
    }
    open spec fn nr(&self) -> int { self.shape.0 as int }
    open spec fn nc(&self) -> int { self.shape.1 as int }
    open spec fn at(&self, r: int, c: int) -> real { if self.has(r, c) { self.data@[self.idx(r, c)].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { self.has(r, c) }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { nr < usize::MAX && nc < usize::MAX }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { false }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { nr * nc == len && fits(nr, nc) }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) {}
}
pub proof fn lem_idx_end(r: int, nr: int, nc: int) requires 0 <= r < nr, 0 <= nc, ensures nc * r + nc <= nr * nc, nc * (r + 1) == nc * r + nc, 0 <= nc * r { assert(nc * r + nc <= nr * nc) by (nonlinear_arith) requires 0 <= r < nr, 0 <= nc; assert(nc * (r + 1) == nc * r + nc) by (nonlinear_arith); assert(0 <= nc * r) by (nonlinear_arith) requires 0 <= r, 0 <= nc; }
pub proof fn lem_cr_flat(m: &CompressedRow, v: Seq<R>, nr: int, nc: int)
    requires 0 <= nr < usize::MAX, 0 <= nc < usize::MAX, m.shape == (nr as usize, nc as usize), v.len() == nr * nc, m.row_starts@.len() == nr, m.nz_count == m.data@.len(),
        rows_done(m.col_indices@, m.data@, m.row_starts@, v, nc),
        nr > 0 ==> row_done(m.col_indices@, m.data@, m.row_starts@[nr - 1] as int, m.data@.len() as int, v, nc * (nr - 1), nc),
        nr == 0 ==> m.data@.len() == 0,
        forall|i: int| 0 <= i < m.nz_count ==> #[trigger] m.col_indices@[i] < nc,
    ensures m.wf(), forall|r: int, c: int| inr(m, r, c) ==> 0 <= nc * r + c < v.len() && #[trigger] m.at(r, c) == v[nc * r + c].r(),
{
    assert forall|r: int| 0 <= r < nr implies #[trigger] m.st(r) <= m.en(r) && row_done(m.col_indices@, m.data@, m.st(r), m.en(r), v, nc * r, nc) by { assert(m.row_starts@[r] <= m.col_indices@.len()); if r + 1 < nr { assert(m.row_starts@[r] <= m.row_starts@[r + 1]); } }
    assert forall|r: int, r2: int| 0 <= r < r2 < nr implies #[trigger] m.en(r) <= #[trigger] m.st(r2) by { assert(m.row_starts@[r + 1] <= m.row_starts@[r2]); }
    assert forall|r: int| 0 <= r < nr implies 0 <= #[trigger] m.st(r) <= m.en(r) <= m.nz_count by { if r + 1 < nr { assert(m.row_starts@[r + 1] <= m.col_indices@.len()); } }
    assert forall|r: int, i: int, j: int| 0 <= r < nr && #[trigger] m.st(r) <= i < j < m.en(r) implies #[trigger] m.col_indices@[i] != #[trigger] m.col_indices@[j] by { assert(m.col_indices@[i] < m.col_indices@[j]); }
    assert(m.wf()); lem_flat(nr, nc);
    assert forall|r: int, c: int| inr(m, r, c) implies 0 <= nc * r + c < v.len() && #[trigger] m.at(r, c) == v[nc * r + c].r() by {
        lem_idx(r, c, nr, nc); assert(fv(v, nc * r, c) == v[nc * r + c].r()); assert(m.st(r) <= m.en(r));
        if m.has(r, c) { let i = m.idx(r, c); assert(m.is_at(r, c, i)); }
        else if fv(v, nc * r, c) != 0real { let i = choose|i: int| m.st(r) <= i < m.en(r) && #[trigger] m.col_indices@[i] == c; assert(m.is_at(r, c, i)); }
    }
}
impl CompressedRow {
    pub proof fn lem_only(&self, r: int, c: int, i: int)
        requires self.wf(), 0 <= r < self.nr(), self.is_at(r, c, i),
        ensures self.has(r, c), self.idx(r, c) == i,
    { let j = self.idx(r, c); assert(self.is_at(r, c, j)); assert(self.st(r) <= i); if i < j { assert(self.col_indices@[i] != self.col_indices@[j]); } if j < i { assert(self.col_indices@[j] != self.col_indices@[i]); } }
    // writing one entry
    pub proof fn lem_wr(a: &Self, b: &Self, r0: int, c0: int, i0: int)
        requires a.wf(), 0 <= r0 < a.nr(), a.is_at(r0, c0, i0), b.shape == a.shape, b.nz_count == a.nz_count, b.col_indices@ == a.col_indices@, b.row_starts@ == a.row_starts@,
            b.data@.len() == a.data@.len(), forall|k: int| 0 <= k < a.data@.len() && k != i0 ==> #[trigger] b.data@[k] == a.data@[k],
        ensures b.wf(), same_shape(b, a), framed(b, a, r0, c0), b.at(r0, c0) == b.data@[i0].r(), a.at(r0, c0) == a.data@[i0].r(),
    {
        assert forall|r: int| b.st(r) == #[trigger] a.st(r) by {}
        assert forall|r: int| b.en(r) == #[trigger] a.en(r) by {}
        assert forall|r: int, c: int, i: int| #[trigger] b.is_at(r, c, i) == a.is_at(r, c, i) by {}
        assert forall|r: int, c: int| #[trigger] b.has(r, c) == a.has(r, c) by {
            if b.has(r, c) { let i = b.idx(r, c); assert(b.is_at(r, c, i)); assert(a.is_at(r, c, i)); }
            if a.has(r, c) { let i = a.idx(r, c); assert(b.is_at(r, c, i)); }
        }
        assert(b.wf()) by {
            assert forall|r: int| 0 <= r < b.shape.0 implies 0 <= #[trigger] b.st(r) <= b.en(r) <= b.nz_count by { assert(a.st(r) <= a.en(r)); }
            assert forall|r: int, r2: int| 0 <= r < r2 < b.shape.0 implies #[trigger] b.en(r) <= #[trigger] b.st(r2) by { assert(a.en(r) <= a.st(r2)); }
            assert forall|r: int, i: int, j: int| 0 <= r < b.shape.0 && #[trigger] b.st(r) <= i < j < b.en(r) implies #[trigger] b.col_indices@[i] != #[trigger] b.col_indices@[j] by { assert(a.st(r) <= i); assert(a.col_indices@[i] != a.col_indices@[j]); }
        }
        a.lem_only(r0, c0, i0); assert(b.is_at(r0, c0, i0)); b.lem_only(r0, c0, i0);
        assert forall|r: int, c: int| (r != r0 || c != c0) && inr(b, r, c) implies #[trigger] b.at(r, c) == a.at(r, c) by {
            if a.has(r, c) { let i = a.idx(r, c); assert(a.is_at(r, c, i)); assert(b.is_at(r, c, i)); a.lem_only(r, c, i); b.lem_only(r, c, i);
                if r < r0 { assert(a.en(r) <= a.st(r0)); } if r0 < r { assert(a.en(r0) <= a.st(r)); } assert(i != i0); }
        }
    }
    pub open spec fn wrote(a: &Self, b: &Self, i0: int) -> bool {
        b.shape == a.shape && b.nz_count == a.nz_count && b.col_indices@ == a.col_indices@ && b.row_starts@ == a.row_starts@
            && b.data@.len() == a.data@.len() && forall|k: int| 0 <= k < a.data@.len() && k != i0 ==> #[trigger] b.data@[k] == a.data@[k]
    }
    pub proof fn lem_wrs(&self, r0: int, c0: int)
        requires self.wf(), inr(self, r0, c0), self.has(r0, c0),
        ensures forall|b: Self| #![trigger b.wf()] #![trigger same_shape(&b, self)] #![trigger framed(&b, self, r0, c0)] #![trigger b.at(r0, c0)]
            Self::wrote(self, &b, self.idx(r0, c0)) ==> b.wf() && same_shape(&b, self) && framed(&b, self, r0, c0) && b.at(r0, c0) == b.data@[self.idx(r0, c0)].r(),
    {
        let i0 = self.idx(r0, c0); assert(self.is_at(r0, c0, i0));
        assert forall|b: Self| Self::wrote(self, &b, i0) implies #[trigger] b.wf() && same_shape(&b, self) && framed(&b, self, r0, c0) && b.at(r0, c0) == b.data@[i0].r() by { Self::lem_wr(self, &b, r0, c0, i0); }
    }
//@ fn CompressedRow::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        Entry::Oob => !inr(self, loc.0 as int, loc.1 as int),
        Entry::Zero => inr(self, loc.0 as int, loc.1 as int) && !self.has(loc.0 as int, loc.1 as int),
        Entry::Data(i) => inr(self, loc.0 as int, loc.1 as int) && self.is_at(loc.0 as int, loc.1 as int, i as int) && i < self.data@.len()
            && self.has(loc.0 as int, loc.1 as int) && self.idx(loc.0 as int, loc.1 as int) == i },
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) { assert(self.st(loc.0 as int) <= self.en(loc.0 as int)); } }
//@ loop 0
    inr(self, loc.0 as int, loc.1 as int), rstart == self.st(loc.0 as int), rend == self.en(loc.0 as int), rstart <= rend,
    forall|i: int| rstart <= i < rstart + k0 ==> #[trigger] self.col_indices@[i] != col,
//@ loop 0 start
    proof { if self.col_indices@[i as int] == col { assert(self.is_at(row as int, col as int, i as int)); self.lem_only(row as int, col as int, i as int); } }
//@ end
//@ fn CompressedRow::row_nzs -> res
//@ requires
    self.wf(), row < self.nr(),
//@ ensures
    res.source == self, res.cur == self.st(row as int), res.end == self.en(row as int),
//@ end
//@ fn CompressedRow::non_zero_count -> res
//@ requires
    self.wf(),
//@ ensures
    res == self.data@.len(),
//@ end
}
//@ struct CompressedRowRow
impl<'a> CompressedRowRow<'a> {
//@ fn Iterator for CompressedRowRow::next -> res
//@ requires
    old(self).source.wf(), old(self).cur <= old(self).end <= old(self).source.nz_count,
//@ ensures
    final(self).source == old(self).source, final(self).end == old(self).end,
    old(self).cur >= old(self).end ==> res is None && final(self).cur == old(self).cur,
    old(self).cur < old(self).end ==> final(self).cur == old(self).cur + 1 && res == Some((old(self).source.col_indices@[old(self).cur as int], old(self).source.data@[old(self).cur as int])),
//@ end
}
impl MatrixLike for CompressedRow {
//@ fn MatrixLike for CompressedRow::shape
//@ end
//@ fn MatrixLike for CompressedRow::get
//@ end
//@ fn MatrixLike for CompressedRow::get_mut
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) && self.has(loc.0 as int, loc.1 as int) { self.lem_wrs(loc.0 as int, loc.1 as int); } }
//@ end
//@ fn Index<(usize,usize)> for CompressedRow::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for CompressedRow::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { self.lem_wrs(loc.0 as int, loc.1 as int); }
//@ end
//@ fn MatrixLike for CompressedRow::transpose
//@ end
//@ fn MatrixLike for CompressedRow::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ end
//@ fn MatrixLike for CompressedRow::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(shape: S, vals: Vec<R>) -> (res: Self)
//@ let data : Vec<R>
//@ let col_indices : Vec<usize>
//@ let row_starts : Vec<usize>
//@ let nz_count : usize
//@ start
    let ghost v0 = vals@;
    let ghost (gr, gc) = (shape.sr(), shape.sc());
    proof { assert(vals@.len() == vals.len() as int); lem_flat(gr, gc); }
//@ loop 0
    shape == (gr as usize, gc as usize), vals@ == v0, n0 == v0.len(), v0.len() == gr * gc, pos1 == gc * k0, nz_count == data@.len(), nz_count <= pos1, row_starts@.len() == k0,
    rows_done(col_indices@, data@, row_starts@, v0, gc), forall|i: int| 0 <= i < data@.len() ==> #[trigger] col_indices@[i] < gc,
    k0 > 0 ==> row_done(col_indices@, data@, row_starts@[k0 - 1] as int, data@.len() as int, v0, gc * (k0 - 1), gc),
//@ loop 0 start
    proof { lem_idx_end(i0 as int, gr, gc); }
//@ loop 1
    shape == (gr as usize, gc as usize), vals@ == v0, n0 == v0.len(), v0.len() == gr * gc, pos1 == gc * i0 + k1, nz_count == data@.len(), nz_count <= pos1, row_starts@.len() == k0, k0 == i0 + 1, k0 <= len0,
    rows_done(col_indices@, data@, row_starts@, v0, gc), forall|i: int| 0 <= i < data@.len() ==> #[trigger] col_indices@[i] < gc,
    row_done(col_indices@, data@, row_starts@[i0 as int] as int, data@.len() as int, v0, gc * i0, k1 as int),
//@ loop 1 start
    let ghost (ci0, dt0) = (col_indices@, data@);
    proof { lem_idx(i0 as int, i1 as int, gr, gc); }
//@ loop 1 end
    proof { assert(fv(v0, gc * i0, i1 as int) == v0[gc * i0 + i1].r()); assert(row_starts@.len() > 0);
        lem_rs_ext(ci0, dt0, col_indices@, data@, row_starts@, v0, gc); lem_rd_step(ci0, dt0, col_indices@, data@, row_starts@[i0 as int] as int, v0, gc * i0, i1 as int); }
//@ tail
    proof { lem_cr_flat(&ret_, v0, gr, gc); }
//@ end
}
impl CompressedRow {
//@ fn Index<(usize,usize)> for CompressedRow::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for CompressedRow::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
//@ end
}

impl LowerRowEnvelope {
    pub open spec fn sc(&self, r: int) -> int { r + 1 - self.row_nnz@[r] }
    pub open spec fn ec(&self, r: int) -> int { r + 1 }
    pub open spec fn st(&self, r: int) -> int { self.row_starts@[r] as int }
    pub open spec fn has(&self, r: int, c: int) -> bool { self.sc(r) <= c < self.ec(r) }
    pub open spec fn idx(&self, r: int, c: int) -> int { self.st(r) + (c - self.sc(r)) }
}
impl MatSpec for LowerRowEnvelope {
    open spec fn wf(&self) -> bool {
        &&& self.n < usize::MAX && self.row_nnz@.len() == self.n && self.row_starts@.len() == self.n && (forall|r: int| 0 <= r < self.n ==> 1 <= #[trigger] self.row_nnz@[r] <= r + 1)
        &&& forall|r: int| 0 <= r < self.n ==> #[trigger] self.st(r) + (self.ec(r) - self.sc(r)) <= self.data@.len()
        &&& forall|r: int, r2: int| 0 <= r < r2 < self.n ==> #[trigger] self.st(r) + (self.ec(r) - self.sc(r)) <= #[trigger] self.st(r2)
    }
    open spec fn nr(&self) -> int { self.n as int }
    open spec fn nc(&self) -> int { self.n as int }
    open spec fn at(&self, r: int, c: int) -> real { if self.has(r, c) { self.data@[self.idx(r, c)].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { self.has(r, c) }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { false }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { false }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { false }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) {}
}
impl LowerRowEnvelope {
    pub proof fn lem_in(&self, r: int)
        requires self.wf(), 0 <= r < self.n,
        ensures 0 <= self.sc(r) <= self.ec(r) <= self.n, 0 <= self.st(r), self.st(r) + (self.ec(r) - self.sc(r)) <= self.data@.len(),
            forall|c: int| self.has(r, c) ==> 0 <= #[trigger] self.idx(r, c) < self.data@.len(),
    { assert(self.st(r) >= 0); }
    pub proof fn lem_inj2(&self, r: int, c: int, r2: int, c2: int)
        requires self.wf(), 0 <= r < self.n, 0 <= r2 < self.n, self.has(r, c), self.has(r2, c2), (r != r2 || c != c2),
        ensures self.idx(r, c) != self.idx(r2, c2),
    { if r < r2 { assert(self.st(r) + (self.ec(r) - self.sc(r)) <= self.st(r2)); } if r2 < r { assert(self.st(r2) + (self.ec(r2) - self.sc(r2)) <= self.st(r)); } }
    pub open spec fn same_frame(a: &Self, b: &Self) -> bool {
        b.n == a.n && b.row_starts@ == a.row_starts@ && b.row_nnz@ == a.row_nnz@ && b.data@.len() == a.data@.len()
    }
    pub open spec fn wrote(a: &Self, b: &Self, i0: int) -> bool {
        Self::same_frame(a, b) && forall|k: int| 0 <= k < a.data@.len() && k != i0 ==> #[trigger] b.data@[k] == a.data@[k]
    }
    pub proof fn lem_frame(a: &Self, b: &Self)
        requires a.wf(), Self::same_frame(a, b),
        ensures b.wf(), same_shape(b, a), forall|r: int| #[trigger] b.sc(r) == a.sc(r), forall|r: int| #[trigger] b.ec(r) == a.ec(r), forall|r: int| #[trigger] b.st(r) == a.st(r),
            forall|r: int, c: int| #[trigger] b.has(r, c) == a.has(r, c), forall|r: int, c: int| #[trigger] b.idx(r, c) == a.idx(r, c),
    {
        assert forall|r: int| 0 <= r < b.n implies #[trigger] b.st(r) + (b.ec(r) - b.sc(r)) <= b.data@.len() by { assert(a.st(r) == b.st(r)); }
        assert forall|r: int, r2: int| 0 <= r < r2 < b.n implies #[trigger] b.st(r) + (b.ec(r) - b.sc(r)) <= #[trigger] b.st(r2) by { assert(a.st(r) == b.st(r) && a.st(r2) == b.st(r2)); }
    }
    pub proof fn lem_wr(a: &Self, b: &Self, r0: int, c0: int)
        requires a.wf(), inr(a, r0, c0), a.has(r0, c0), Self::wrote(a, b, a.idx(r0, c0)),
        ensures b.wf(), same_shape(b, a), framed(b, a, r0, c0), b.at(r0, c0) == b.data@[a.idx(r0, c0)].r(),
    {
        Self::lem_frame(a, b);
        assert forall|r: int, c: int| (r != r0 || c != c0) && inr(b, r, c) implies #[trigger] b.at(r, c) == a.at(r, c) by {
            if a.has(r, c) { a.lem_inj2(r, c, r0, c0); a.lem_in(r); assert(b.idx(r, c) == a.idx(r, c)); } }
        assert(b.has(r0, c0) && b.idx(r0, c0) == a.idx(r0, c0));
    }
    pub proof fn lem_wrs(&self, r0: int, c0: int)
        requires self.wf(), inr(self, r0, c0), self.has(r0, c0),
        ensures forall|b: Self| #![trigger b.wf()] #![trigger same_shape(&b, self)] #![trigger framed(&b, self, r0, c0)] #![trigger b.at(r0, c0)]
            Self::wrote(self, &b, self.idx(r0, c0)) ==> b.wf() && same_shape(&b, self) && framed(&b, self, r0, c0) && b.at(r0, c0) == b.data@[self.idx(r0, c0)].r(),
    { assert forall|b: Self| Self::wrote(self, &b, self.idx(r0, c0)) implies #[trigger] b.wf() && same_shape(&b, self) && framed(&b, self, r0, c0) && b.at(r0, c0) == b.data@[self.idx(r0, c0)].r() by { Self::lem_wr(self, &b, r0, c0); } }
//@ fn LowerRowEnvelope::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        Entry::Oob => !inr(self, loc.0 as int, loc.1 as int),
        Entry::Zero => inr(self, loc.0 as int, loc.1 as int) && !self.has(loc.0 as int, loc.1 as int),
        Entry::Data(i) => inr(self, loc.0 as int, loc.1 as int) && self.has(loc.0 as int, loc.1 as int) && i == self.idx(loc.0 as int, loc.1 as int) && i < self.data@.len() },
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); if inr(self, loc.0 as int, loc.1 as int) { self.lem_in(loc.0 as int); assert(self.st(loc.0 as int) >= 0); if self.has(loc.0 as int, loc.1 as int) { assert(self.idx(loc.0 as int, loc.1 as int) < self.data@.len()); } } }
//@ end
//@ fn LowerRowEnvelope::row_stored -> res
//@ requires
    self.wf(), row < self.n,
//@ ensures
    res.0 == self.sc(row as int), res.1@.len() == self.ec(row as int) - self.sc(row as int),
    forall|k: int| 0 <= k < res.1@.len() ==> (#[trigger] res.1@[k]).r() == self.at(row as int, self.sc(row as int) + k),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); self.lem_in(row as int); assert(self.st(row as int) >= 0); }
//@ end
//@ fn LowerRowEnvelope::row_pos -> res
//@ requires
    self.wf(), row < self.n,
//@ ensures
    res.0 == self.st(row as int), res.1 == self.idx(row as int, row as int), res.2 == self.sc(row as int),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); self.lem_in(row as int); assert(self.st(row as int) >= 0); }
//@ end
//@ fn LowerRowEnvelope::row_stored_nodiag -> res
//@ requires
    self.wf(), row < self.n,
//@ ensures
    res.0 == self.sc(row as int), res.1@.len() == row - self.sc(row as int),
    forall|k: int| 0 <= k < res.1@.len() ==> (#[trigger] res.1@[k]).r() == self.at(row as int, self.sc(row as int) + k),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); self.lem_in(row as int); assert(self.st(row as int) >= 0); }
//@ end
    pub proof fn lem_wr_row(&self, row: int)
        requires self.wf(), 0 <= row < self.n,
        ensures forall|b: Self| #![trigger b.wf()] #![trigger same_shape(&b, self)]
            Self::same_frame(self, &b) && (forall|k: int| 0 <= k < self.data@.len() && !(self.st(row) <= k <= self.idx(row, row)) ==> #[trigger] b.data@[k] == self.data@[k])
            ==> b.wf() && same_shape(&b, self) && (forall|r: int, c: int| inr(self, r, c) && r != row ==> #[trigger] b.at(r, c) == self.at(r, c))
                && (forall|c: int| self.has(row, c) ==> #[trigger] b.at(row, c) == b.data@[self.idx(row, c)].r()),
    {
        assert forall|b: Self| Self::same_frame(self, &b) && (forall|k: int| 0 <= k < self.data@.len() && !(self.st(row) <= k <= self.idx(row, row)) ==> #[trigger] b.data@[k] == self.data@[k])
            implies #[trigger] b.wf() && same_shape(&b, self) && (forall|r: int, c: int| inr(self, r, c) && r != row ==> #[trigger] b.at(r, c) == self.at(r, c))
                && (forall|c: int| self.has(row, c) ==> #[trigger] b.at(row, c) == b.data@[self.idx(row, c)].r()) by {
            Self::lem_frame(self, &b);
            assert forall|r: int, c: int| inr(self, r, c) && r != row implies #[trigger] b.at(r, c) == self.at(r, c) by {
                if self.has(r, c) { self.lem_in(r); let k = self.idx(r, c); assert(b.idx(r, c) == k);
                    if r < row { assert(self.st(r) + (self.ec(r) - self.sc(r)) <= self.st(row)); } else { assert(self.st(row) + (self.ec(row) - self.sc(row)) <= self.st(r)); } } }
            assert forall|c: int| self.has(row, c) implies #[trigger] b.at(row, c) == b.data@[self.idx(row, c)].r() by { assert(b.has(row, c) && b.idx(row, c) == self.idx(row, c)); }
        }
    }
//@ fn LowerRowEnvelope::row_stored_mut -> res
//@ requires
    old(self).wf(), row < old(self).n,
//@ ensures
    final(self).wf(), same_shape(final(self), old(self)), final(self).row_nnz == old(self).row_nnz,
    res.0 == old(self).sc(row as int), res.1@.len() == old(self).ec(row as int) - old(self).sc(row as int),
    forall|k: int| 0 <= k < res.1@.len() ==> (#[trigger] res.1@[k]).r() == old(self).at(row as int, old(self).sc(row as int) + k),
    forall|r: int, c: int| inr(old(self), r, c) && r != row ==> #[trigger] final(self).at(r, c) == old(self).at(r, c),
    forall|c: int| old(self).has(row as int, c) ==> #[trigger] final(self).at(row as int, c) == final(res.1)@[c - old(self).sc(row as int)].r(),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); self.lem_in(row as int); assert(self.st(row as int) >= 0); self.lem_wr_row(row as int); }
//@ end
//@ fn LowerRowEnvelope::from_envelope -> res
//@ requires
    tri_fits(env@.len() as int), forall|r: int| 0 <= r < env@.len() ==> 1 <= #[trigger] env@[r] <= r + 1,
//@ ensures
    res.wf(), res.n == env@.len(), res.row_nnz@ == env@,
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == 0real,
//@ start
    let ghost e0 = env@;
    proof { lem_tri_fits_n(env@.len() as int); }
//@ loop 0
    env@ == e0, !acc0,
    !acc0 ==> forall|r: int| 0 <= r < k0 ==> #[trigger] e0[r] <= r + 1,
//@ loop 1 sum=usize
    env@ == e0, acc1 == psum(e0, k1 as int), forall|r: int| 0 <= r < e0.len() ==> #[trigger] e0[r] <= r + 1,
//@ loop 1 start
    proof { lem_psum(e0, k1 as int); lem_psum_le(e0, k1 as int); lem_tri(i1 as int); if k1 < e0.len() { lem_tri_mono(k1 as int, e0.len() as int); } }
//@ loop 2
    env@ == e0, row_starts@.len() == k2 + 1, forall|r: int| 0 <= r <= k2 ==> #[trigger] row_starts@[r] == psum(e0, r),
    forall|r: int| 0 <= r < k2 ==> 1 <= #[trigger] e0[r],
//@ loop 2 start
    proof { lem_psum(e0, k2 as int); lem_psum_le(e0, k2 as int); if k2 < e0.len() { lem_tri_mono(k2 as int, e0.len() as int); } }
//@ tail
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= ret_.data@.len() by { lem_psum(e0, r + 1); lem_psum_mono(e0, r + 1, n as int); }
        assert forall|r: int, r2: int| 0 <= r < r2 < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= #[trigger] ret_.st(r2) by { lem_psum(e0, r + 1); lem_psum_mono(e0, r + 1, r2); }
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == 0real by { ret_.lem_in(r); if ret_.has(r, c) { assert(0 <= ret_.idx(r, c) < ret_.data@.len()); } }
    }
//@ end
//@ fn LowerRowEnvelope::from_envelope -> res
//@ diverge
//@ opt hidden
//@ as from_envelope_any
//@ requires
    tri_fits(env@.len() as int),
//@ ensures
    forall|r: int| 0 <= r < env@.len() ==> 1 <= #[trigger] env@[r] <= r + 1,
    res.wf(), res.n == env@.len(), res.row_nnz@ == env@,
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == 0real,
//@ start
    let ghost e0 = env@;
    proof { lem_tri_fits_n(env@.len() as int); }
//@ loop 0
    env@ == e0,
    !acc0 ==> forall|r: int| 0 <= r < k0 ==> #[trigger] e0[r] <= r + 1,
//@ loop 1 sum=usize
    env@ == e0, acc1 == psum(e0, k1 as int), forall|r: int| 0 <= r < e0.len() ==> #[trigger] e0[r] <= r + 1,
//@ loop 1 start
    proof { lem_psum(e0, k1 as int); lem_psum_le(e0, k1 as int); lem_tri(i1 as int); if k1 < e0.len() { lem_tri_mono(k1 as int, e0.len() as int); } }
//@ loop 2
    env@ == e0, row_starts@.len() == k2 + 1, forall|r: int| 0 <= r <= k2 ==> #[trigger] row_starts@[r] == psum(e0, r),
    forall|r: int| 0 <= r < k2 ==> 1 <= #[trigger] e0[r],
//@ loop 2 start
    proof { lem_psum(e0, k2 as int); lem_psum_le(e0, k2 as int); if k2 < e0.len() { lem_tri_mono(k2 as int, e0.len() as int); } }
//@ tail
    proof {
        assert forall|r: int| 0 <= r < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= ret_.data@.len() by { lem_psum(e0, r + 1); lem_psum_mono(e0, r + 1, n as int); }
        assert forall|r: int, r2: int| 0 <= r < r2 < n implies #[trigger] ret_.st(r) + (ret_.ec(r) - ret_.sc(r)) <= #[trigger] ret_.st(r2) by { lem_psum(e0, r + 1); lem_psum_mono(e0, r + 1, r2); }
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == 0real by { ret_.lem_in(r); if ret_.has(r, c) { assert(0 <= ret_.idx(r, c) < ret_.data@.len()); } }
    }
//@ end
//@ fn LowerRowEnvelope::envelope -> res
//@ requires
    self.wf(),
//@ ensures
    res@ == self.row_nnz@,
//@ end
//@ fn LowerRowEnvelope::non_zero_count -> res
//@ requires
    self.wf(),
//@ ensures
    res == self.data@.len(),
//@ end
}
impl MatrixLike for LowerRowEnvelope {
//@ fn MatrixLike for LowerRowEnvelope::shape
//@ end
//@ fn MatrixLike for LowerRowEnvelope::get
//@ end
//@ fn MatrixLike for LowerRowEnvelope::get_mut
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) && self.has(loc.0 as int, loc.1 as int) { self.lem_wrs(loc.0 as int, loc.1 as int); } }
//@ end
//@ fn Index<(usize,usize)> for LowerRowEnvelope::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for LowerRowEnvelope::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { self.lem_wrs(loc.0 as int, loc.1 as int); }
//@ end
//@ fn MatrixLike for LowerRowEnvelope::transpose
//@ end
//@ fn MatrixLike for LowerRowEnvelope::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(_shape: S) -> (res: Self)
//@ end
//@ fn MatrixLike for LowerRowEnvelope::from_flat -> res
//@ tupleidx loc
//@ sig
    fn from_flat<S: VIntoShape>(shape: S, vals: Vec<R>) -> (res: Self)
//@ end
}
impl LowerRowEnvelope {
//@ fn Index<(usize,usize)> for LowerRowEnvelope::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for LowerRowEnvelope::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
//@ end
}

impl BiEnvelope {
    pub open spec fn sc(&self, r: int) -> int { self.row_bounds@[r].0 as int }
    pub open spec fn ec(&self, r: int) -> int { self.row_bounds@[r].1 as int }
    pub open spec fn st(&self, r: int) -> int { self.row_starts@[r] as int }
    pub open spec fn has(&self, r: int, c: int) -> bool { self.sc(r) <= c < self.ec(r) }
    pub open spec fn idx(&self, r: int, c: int) -> int { self.st(r) + (c - self.sc(r)) }
}
impl MatSpec for BiEnvelope {
    open spec fn wf(&self) -> bool {
        &&& self.n < usize::MAX && self.row_bounds@.len() == self.n && self.row_starts@.len() == self.n + 1 && (forall|r: int| 0 <= r < self.n ==> (#[trigger] self.row_bounds@[r]).0 <= self.row_bounds@[r].1 <= self.n)
        &&& forall|r: int| 0 <= r < self.n ==> #[trigger] self.st(r) + (self.ec(r) - self.sc(r)) <= self.data@.len()
        &&& forall|r: int, r2: int| 0 <= r < r2 < self.n ==> #[trigger] self.st(r) + (self.ec(r) - self.sc(r)) <= #[trigger] self.st(r2)
    }
    open spec fn nr(&self) -> int { self.n as int }
    open spec fn nc(&self) -> int { self.n as int }
    open spec fn at(&self, r: int, c: int) -> real { if self.has(r, c) { self.data@[self.idx(r, c)].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { self.has(r, c) }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { false }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { false }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { false }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) {}
}
impl BiEnvelope {
    pub proof fn lem_in(&self, r: int)
        requires self.wf(), 0 <= r < self.n,
        ensures 0 <= self.sc(r) <= self.ec(r) <= self.n, 0 <= self.st(r), self.st(r) + (self.ec(r) - self.sc(r)) <= self.data@.len(),
            forall|c: int| self.has(r, c) ==> 0 <= #[trigger] self.idx(r, c) < self.data@.len(),
    { assert(self.st(r) >= 0); }
    pub proof fn lem_inj2(&self, r: int, c: int, r2: int, c2: int)
        requires self.wf(), 0 <= r < self.n, 0 <= r2 < self.n, self.has(r, c), self.has(r2, c2), (r != r2 || c != c2),
        ensures self.idx(r, c) != self.idx(r2, c2),
    { if r < r2 { assert(self.st(r) + (self.ec(r) - self.sc(r)) <= self.st(r2)); } if r2 < r { assert(self.st(r2) + (self.ec(r2) - self.sc(r2)) <= self.st(r)); } }
    pub open spec fn same_frame(a: &Self, b: &Self) -> bool {
        b.n == a.n && b.row_starts@ == a.row_starts@ && b.row_bounds@ == a.row_bounds@ && b.data@.len() == a.data@.len()
    }
    pub open spec fn wrote(a: &Self, b: &Self, i0: int) -> bool {
        Self::same_frame(a, b) && forall|k: int| 0 <= k < a.data@.len() && k != i0 ==> #[trigger] b.data@[k] == a.data@[k]
    }
    pub proof fn lem_frame(a: &Self, b: &Self)
        requires a.wf(), Self::same_frame(a, b),
        ensures b.wf(), same_shape(b, a), forall|r: int| #[trigger] b.sc(r) == a.sc(r), forall|r: int| #[trigger] b.ec(r) == a.ec(r), forall|r: int| #[trigger] b.st(r) == a.st(r),
            forall|r: int, c: int| #[trigger] b.has(r, c) == a.has(r, c), forall|r: int, c: int| #[trigger] b.idx(r, c) == a.idx(r, c),
    {
        assert forall|r: int| 0 <= r < b.n implies #[trigger] b.st(r) + (b.ec(r) - b.sc(r)) <= b.data@.len() by { assert(a.st(r) == b.st(r)); }
        assert forall|r: int, r2: int| 0 <= r < r2 < b.n implies #[trigger] b.st(r) + (b.ec(r) - b.sc(r)) <= #[trigger] b.st(r2) by { assert(a.st(r) == b.st(r) && a.st(r2) == b.st(r2)); }
    }
    pub proof fn lem_wr(a: &Self, b: &Self, r0: int, c0: int)
        requires a.wf(), inr(a, r0, c0), a.has(r0, c0), Self::wrote(a, b, a.idx(r0, c0)),
        ensures b.wf(), same_shape(b, a), framed(b, a, r0, c0), b.at(r0, c0) == b.data@[a.idx(r0, c0)].r(),
    {
        Self::lem_frame(a, b);
        assert forall|r: int, c: int| (r != r0 || c != c0) && inr(b, r, c) implies #[trigger] b.at(r, c) == a.at(r, c) by {
            if a.has(r, c) { a.lem_inj2(r, c, r0, c0); a.lem_in(r); assert(b.idx(r, c) == a.idx(r, c)); } }
        assert(b.has(r0, c0) && b.idx(r0, c0) == a.idx(r0, c0));
    }
    pub proof fn lem_wrs(&self, r0: int, c0: int)
        requires self.wf(), inr(self, r0, c0), self.has(r0, c0),
        ensures forall|b: Self| #![trigger b.wf()] #![trigger same_shape(&b, self)] #![trigger framed(&b, self, r0, c0)] #![trigger b.at(r0, c0)]
            Self::wrote(self, &b, self.idx(r0, c0)) ==> b.wf() && same_shape(&b, self) && framed(&b, self, r0, c0) && b.at(r0, c0) == b.data@[self.idx(r0, c0)].r(),
    { assert forall|b: Self| Self::wrote(self, &b, self.idx(r0, c0)) implies #[trigger] b.wf() && same_shape(&b, self) && framed(&b, self, r0, c0) && b.at(r0, c0) == b.data@[self.idx(r0, c0)].r() by { Self::lem_wr(self, &b, r0, c0); } }
//@ fn BiEnvelope::pos -> res
//@ requires
    self.wf(),
//@ ensures
    match res {
        Entry::Oob => !inr(self, loc.0 as int, loc.1 as int),
        Entry::Zero => inr(self, loc.0 as int, loc.1 as int) && !self.has(loc.0 as int, loc.1 as int),
        Entry::Data(i) => inr(self, loc.0 as int, loc.1 as int) && self.has(loc.0 as int, loc.1 as int) && i == self.idx(loc.0 as int, loc.1 as int) && i < self.data@.len() },
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); if inr(self, loc.0 as int, loc.1 as int) { self.lem_in(loc.0 as int); assert(self.st(loc.0 as int) >= 0); if self.has(loc.0 as int, loc.1 as int) { assert(self.idx(loc.0 as int, loc.1 as int) < self.data@.len()); } } }
//@ end
//@ fn BiEnvelope::row_stored -> res
//@ requires
    self.wf(), row < self.n,
//@ ensures
    res.0 == self.sc(row as int), res.1@.len() == self.ec(row as int) - self.sc(row as int),
    forall|k: int| 0 <= k < res.1@.len() ==> (#[trigger] res.1@[k]).r() == self.at(row as int, self.sc(row as int) + k),
//@ start
    proof { assert(self.data@.len() == self.data.len() as int); self.lem_in(row as int); assert(self.st(row as int) >= 0); }
//@ end
}
impl MatrixLike for BiEnvelope {
//@ fn MatrixLike for BiEnvelope::shape
//@ end
//@ fn MatrixLike for BiEnvelope::get
//@ end
//@ fn MatrixLike for BiEnvelope::get_mut
//@ start
    proof { if inr(self, loc.0 as int, loc.1 as int) && self.has(loc.0 as int, loc.1 as int) { self.lem_wrs(loc.0 as int, loc.1 as int); } }
//@ end
//@ fn Index<(usize,usize)> for BiEnvelope::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for BiEnvelope::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ start
    proof { self.lem_wrs(loc.0 as int, loc.1 as int); }
//@ end
//@ fn MatrixLike for BiEnvelope::transpose
//@ end
//@ fn MatrixLike for BiEnvelope::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(_shape: S) -> (res: Self)
//@ end
//@ fn MatrixLike for BiEnvelope::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(_shape: S, _vals: Vec<R>) -> (res: Self)
//@ end
}
impl BiEnvelope {
//@ fn Index<(usize,usize)> for BiEnvelope::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for BiEnvelope::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
//@ end
}

// ---- dictionary
pub open spec fn key(r: int, c: int) -> (usize, usize) { (r as usize, c as usize) }
impl MatSpec for Dictionary {
    open spec fn wf(&self) -> bool {
        &&& self.shape.0 < usize::MAX && self.shape.1 < usize::MAX
        &&& forall|k: (usize, usize)| #[trigger] self.data@.dom().contains(k) ==> k.0 < self.shape.0 && k.1 < self.shape.1
    }
    open spec fn nr(&self) -> int { self.shape.0 as int }
    open spec fn nc(&self) -> int { self.shape.1 as int }
    open spec fn at(&self, r: int, c: int) -> real { if self.data@.dom().contains(key(r, c)) { self.data@[key(r, c)].r() } else { 0real } }
    open spec fn writable(&self, r: int, c: int) -> bool { true }
    open spec fn zeros_ok(nr: int, nc: int) -> bool { nr < usize::MAX && nc < usize::MAX }
    open spec fn zdim(nr: int, nc: int) -> (int, int) { (nr, nc) }
    open spec fn zwr(r: int, c: int) -> bool { true }
    open spec fn flat_ok(nr: int, nc: int, len: int) -> bool { nr * nc == len && fits(nr, nc) }
    open spec fn can_transpose() -> bool { false }
    proof fn lem_dims(&self) {}
}
impl Dictionary {
//@ fn Dictionary::in_bounds -> res
//@ requires
    self.wf(),
//@ ensures
    res == inr(self, loc.0 as int, loc.1 as int),
//@ end
//@ fn Dictionary::get_unchecked -> res
//@ ensures
    match res { Some(x) => self.data@.dom().contains(loc) && self.data@[loc] == *x, None => !self.data@.dom().contains(loc) },
//@ end
//@ fn Dictionary::get_unchecked_mut -> res
//@ ensures
    match res { Some(x) => x.r() == (if old(self).data@.dom().contains(loc) { old(self).data@[loc].r() } else { 0real })
        && final(self).shape == old(self).shape && final(self).data@ == old(self).data@.insert(loc, *final(x)), None => false },
//@ end
}
impl MatrixLike for Dictionary {
//@ fn MatrixLike for Dictionary::shape
//@ end
//@ fn MatrixLike for Dictionary::get
//@ end
//@ fn MatrixLike for Dictionary::get_mut
//@ end
//@ fn Index<(usize,usize)> for Dictionary::index -> res
//@ sig
    fn v_index(&self, loc: (usize, usize)) -> (res: &R)
//@ end
//@ fn IndexMut<(usize,usize)> for Dictionary::index_mut -> res
//@ sig
    fn v_index_mut(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ end
//@ fn MatrixLike for Dictionary::transpose
//@ end
//@ fn MatrixLike for Dictionary::zeros -> res
//@ sig
    fn zeros<S: VIntoShape>(shape: S) -> (res: Self)
//@ end
//@ fn MatrixLike for Dictionary::from_flat -> res
//@ sig
    fn from_flat<S: VIntoShape>(shape: S, vals: Vec<R>) -> (res: Self)
//@ start
    let ghost v0 = vals@;
    let ghost (gr, gc) = (shape.sr(), shape.sc());
    proof { assert(vals@.len() == vals.len() as int); lem_flat(gr, gc); }
//@ loop 0
    res.wf(), res.nr() == gr, res.nc() == gc, vals@ == v0, n0 == v0.len(), v0.len() == gr * gc, pos1 == gc * k0, fits(gr, gc),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if r < k0 { fv(v0, gc * r, c) } else { 0real },
//@ loop 0 start
    proof { lem_idx_end(i0 as int, gr, gc); }
//@ loop 1
    res.wf(), res.nr() == gr, res.nc() == gc, vals@ == v0, n0 == v0.len(), v0.len() == gr * gc, pos1 == gc * i0 + k1, fits(gr, gc), k0 == i0 + 1, k0 <= len0,
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == if r < i0 || (r == i0 && c < k1) { fv(v0, gc * r, c) } else { 0real },
//@ loop 1 start
    let ghost res0 = res;
    proof { lem_idx(i0 as int, i1 as int, gr, gc); }
//@ loop 1 end
    proof { assert(fv(v0, gc * i0, i1 as int) == v0[gc * i0 + i1].r()); assert(res0.at(i0 as int, i1 as int) == 0real);
        assert forall|r: int, c: int| inr(&res, r, c) implies #[trigger] res.at(r, c) == if r < i0 || (r == i0 && c < k1) { fv(v0, gc * r, c) } else { 0real } by {
            assert(res0.at(r, c) == if r < i0 || (r == i0 && c < i1) { fv(v0, gc * r, c) } else { 0real }); assert(key(r, c) == key(i0 as int, i1 as int) ==> r == i0 && c == i1); } }
//@ tail
    proof { assert forall|r: int, c: int| inr(&ret_, r, c) implies 0 <= gc * r + c < v0.len() && #[trigger] ret_.at(r, c) == v0[gc * r + c].r() by { lem_idx(r, c, gr, gc); } }
//@ end
}
impl Dictionary {
//@ fn Index<(usize,usize)> for Dictionary::index -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_any(&self, loc: (usize, usize)) -> (res: &R)
//@ requires
    self.wf(),
//@ ensures
    inr(self, loc.0 as int, loc.1 as int), res.r() == self.at(loc.0 as int, loc.1 as int),
//@ end
//@ fn IndexMut<(usize,usize)> for Dictionary::index_mut -> res
//@ opt hidden
//@ diverge
//@ sig
    fn v_index_mut_any(&mut self, loc: (usize, usize)) -> (res: &mut R)
//@ requires
    old(self).wf(),
//@ ensures
    inr(old(self), loc.0 as int, loc.1 as int), old(self).writable(loc.0 as int, loc.1 as int),
//@ end
}
}
