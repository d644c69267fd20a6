//@ include env.rs
//@ include perm.rs
//@ map Dictionary.data Dictionary.new_data Dictionary.temp
verus! {
// ---- renumbering
pub open spec fn moved(a: &Dictionary, b: &Dictionary, f: Seq<usize>) -> bool {
    a.nr() == b.nr() && a.nc() == b.nc() && forall|r: int, c: int| inr(a, r, c) ==> #[trigger] a.at(r, c) == b.at(f[r] as int, f[c] as int) && a.has(r, c) == b.has(f[r] as int, f[c] as int)
}
pub open spec fn cnt(m: Seq<bool>, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(m, k - 1) + if m[k - 1] { 1int } else { 0 } } }
pub proof fn lem_cnt(m: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= m.len(),
    ensures 0 <= cnt(m, a) <= cnt(m, b) <= b, a < b && m[a] ==> cnt(m, a) < cnt(m, b),
    decreases b,
{ if b > 0 { if a < b { lem_cnt(m, a, b - 1); } else { lem_cnt(m, a - 1, b - 1); } } }
// the edges: the positions of the entries, each once
pub open spec fn key_list(d: &Dictionary, s: Seq<(usize, usize)>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> d.data@.dom().contains(#[trigger] s[k])
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> #[trigger] s[k] != #[trigger] s[l]
    &&& forall|x: (usize, usize)| #[trigger] d.data@.dom().contains(x) ==> s.contains(x)
}
pub open spec fn lower_list(d: &Dictionary, s: Seq<(usize, usize)>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> d.data@.dom().contains(#[trigger] s[k]) && s[k].0 <= s[k].1
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> #[trigger] s[k] != #[trigger] s[l]
    &&& forall|x: (usize, usize)| #[trigger] d.data@.dom().contains(x) && x.0 <= x.1 ==> s.contains(x)
}
// ---- products
pub open spec fn prod(a: &Dictionary, b: &Dictionary, c: &Dictionary) -> bool {
    c.wf() && c.nr() == a.nr() && c.nc() == b.nc() && forall|i: int, j: int| inr(c, i, j) ==> #[trigger] c.at(i, j) == mat_dot(a, b, i, j)
}
pub open spec fn in_sl(s: Seq<((usize, usize), R)>, k: int, c: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] s[j]).0.1 == c }
pub open spec fn is_row(s: Seq<((usize, usize), R)>, d: &Dictionary, q: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0.0 == q && s[k].0.1 < d.nc() && s[k].1.r() == d.at(q, s[k].0.1 as int)
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> (#[trigger] s[k]).0.1 != (#[trigger] s[l]).0.1
    &&& forall|c: int| 0 <= c < d.nc() && #[trigger] d.at(q, c) != 0real ==> in_sl(s, s.len() as int, c)
}
pub open spec fn rcut(s: Seq<((usize, usize), R)>, q: int, x: int) -> bool {
    0 <= x <= s.len() && (forall|k: int| 0 <= k < x ==> (#[trigger] s[k]).0.0 < q) && (forall|k: int| x <= k < s.len() ==> (#[trigger] s[k]).0.0 >= q)
}
pub proof fn lem_is_row(d: &Dictionary, v: Seq<((usize, usize), R)>, q: int, a: int, b: int)
    requires d.wf(), lv_ok(v, d.nr(), d.nc()), forall|r: int, c: int| inr(d, r, c) ==> #[trigger] lv_at(v, r, c) == d.at(r, c), rcut(v, q, a), rcut(v, q + 1, b), a <= b, 0 <= q < d.nr(),
    ensures is_row(v.subrange(a, b), d, q),
{
    let s = v.subrange(a, b);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0.0 == q && s[k].0.1 < d.nc() && s[k].1.r() == d.at(q, s[k].0.1 as int) by {
        assert(s[k] == v[a + k]); assert(v[a + k].0.0 < q + 1); lem_lv(v, d.nr(), d.nc(), a + k); assert(lv_at(v, q, v[a + k].0.1 as int) == d.at(q, v[a + k].0.1 as int)); }
    assert forall|k: int, l: int| 0 <= k < l < s.len() implies (#[trigger] s[k]).0.1 != (#[trigger] s[l]).0.1 by { assert(v[a + k].0 != v[a + l].0); assert(s[k].0.0 == q && s[l].0.0 == q); }
    assert forall|c: int| 0 <= c < d.nc() && #[trigger] d.at(q, c) != 0real implies in_sl(s, s.len() as int, c) by {
        assert(lv_at(v, q, c) == d.at(q, c)); let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == key(q, c);
        if k < a { assert(v[k].0.0 < q); } if k >= b { assert(v[k].0.0 >= q + 1); } assert(s[k - a].0.1 == c); }
}
pub proof fn lem_rsum_bump(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int, j: int, d: real)
    requires 0 <= j < n, forall|k: int| 0 <= k < n ==> #[trigger] g(k) == if k == j { f(k) + d } else { f(k) },
    ensures rsum(g, n) == rsum(f, n) + d,
    decreases n,
{ assert(g(n - 1) == if n - 1 == j { f(n - 1) + d } else { f(n - 1) }); if n - 1 == j { rsum_eq(f, g, n - 1); } else { lem_rsum_bump(f, g, n - 1, j, d); } }
pub open spec fn term(a: &Dictionary, b: &Dictionary, es: Seq<((usize, usize), R)>, k: int, r: int, c: int) -> real {
    rsum(|j: int| if seen(es, k, r, j) { a.at(r, j) * b.at(j, c) } else { 0real }, a.nc())
}
pub proof fn lem_term(a: &Dictionary, b: &Dictionary, es: Seq<((usize, usize), R)>, k: int, r: int, c: int)
    requires a.wf(), entries_of(a.data@, es), 0 <= k < es.len(), 0 <= r < a.nr(),
    ensures term(a, b, es, k + 1, r, c) == term(a, b, es, k, r, c) + if es[k].0.0 == r { es[k].1.r() * b.at(es[k].0.1 as int, c) } else { 0real },
{
    let f = |j: int| if seen(es, k, r, j) { a.at(r, j) * b.at(j, c) } else { 0real };
    let g = |j: int| if seen(es, k + 1, r, j) { a.at(r, j) * b.at(j, c) } else { 0real };
    lem_entries(a, es);
    assert forall|j: int| 0 <= j < a.nc() implies seen(es, k + 1, r, j) == (seen(es, k, r, j) || (es[k].0.0 == r && es[k].0.1 == j)) by { lem_seen(es, k, r, j); }
    if es[k].0.0 == r {
        let jj = es[k].0.1 as int;
        if seen(es, k, r, jj) { let i = choose|i: int| 0 <= i < k && (#[trigger] es[i]).0 == key(r, jj); assert(es[i].0 != es[k].0); }
        assert(a.at(r, jj) == es[k].1.r());
        lem_rsum_bump(f, g, a.nc(), jj, a.at(r, jj) * b.at(jj, c));
    } else { rsum_eq(f, g, a.nc()); }
}
pub proof fn lem_term0(a: &Dictionary, b: &Dictionary, es: Seq<((usize, usize), R)>, r: int, c: int, n: int)
    ensures rsum(|j: int| if seen(es, 0, r, j) { a.at(r, j) * b.at(j, c) } else { 0real }, n) == 0real,
    decreases n,
{ if n > 0 { lem_term0(a, b, es, r, c, n - 1); assert(!seen(es, 0, r, n - 1)); } }
impl Dictionary {
//@ fn Dictionary::permute
//@ let new_data : VMap<(usize, usize), R>
//@ requires
    old(self).wf(), p.wf(), old(self).nr() == p.n(), old(self).nc() == p.n(),
//@ ensures
    final(self).wf(), moved(old(self), final(self), p.forward@),
//@ loop 0
    p.wf(), entries_of(old(self).data@, es0@), lv_ok(es0@, old(self).nr(), old(self).nc()), len0 == es0@.len(), self.shape == old(self).shape,
    old(self).nr() == p.n(), old(self).nc() == p.n(), old(self).wf(),
    forall|x: (usize, usize)| #[trigger] new_data@.dom().contains(x) ==> x.0 < p.n() && x.1 < p.n(),
    forall|r: int, c: int| inr(old(self), r, c) ==> #[trigger] new_data@.dom().contains(key(p.forward@[r] as int, p.forward@[c] as int)) == seen(es0@, k0 as int, r, c),
    forall|r: int, c: int| inr(old(self), r, c) && #[trigger] seen(es0@, k0 as int, r, c) ==> new_data@[key(p.forward@[r] as int, p.forward@[c] as int)].r() == old(self).at(r, c),
//@ loop 0 before
    proof { lem_entries(old(self), es0@); }
//@ loop 0 start
    let ghost nd0 = new_data@;
    proof {
        let (rr, cc) = (es0@[i0 as int].0.0 as int, es0@[i0 as int].0.1 as int);
        lem_entries(old(self), es0@);
        assert(inr(old(self), rr, cc)); assert(key(rr, cc) == es0@[i0 as int].0);
        assert forall|r: int, c: int| inr(old(self), r, c) implies #[trigger] seen(es0@, k0 as int, r, c) == (seen(es0@, i0 as int, r, c) || (r == rr && c == cc)) by { lem_seen(es0@, i0 as int, r, c); }
        assert forall|r: int, c: int| inr(old(self), r, c) && #[trigger] key(p.forward@[r] as int, p.forward@[c] as int) == key(p.forward@[rr] as int, p.forward@[cc] as int) implies r == rr && c == cc by {
            assert(p.back@[p.forward@[r] as int] == r && p.back@[p.forward@[c] as int] == c && p.back@[p.forward@[rr] as int] == rr && p.back@[p.forward@[cc] as int] == cc); }
    }
//@ loop 0 end
    proof {
        let (rr, cc) = (es0@[i0 as int].0.0 as int, es0@[i0 as int].0.1 as int);
        assert(new_data@ == nd0.insert(key(p.forward@[rr] as int, p.forward@[cc] as int), es0@[i0 as int].1));
    }
//@ finish
    proof {
        lem_seen_all(old(self), es0@);
        assert forall|r: int, c: int| inr(old(self), r, c) implies #[trigger] old(self).at(r, c) == self.at(p.forward@[r] as int, p.forward@[c] as int) && old(self).has(r, c) == self.has(p.forward@[r] as int, p.forward@[c] as int) by {
            assert(seen(es0@, es0@.len() as int, r, c) == old(self).has(r, c)); }
    }
//@ end
//@ fn Dictionary::transposed -> res
//@ requires
    self.wf(),
//@ ensures
    res.wf(), res.nr() == self.nc(), res.nc() == self.nr(), forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == self.at(c, r) && res.has(r, c) == self.has(c, r),
//@ loop 0
    entries_of(self.data@, es0@), len0 == es0@.len(), res.wf(), res.nr() == self.nc(), res.nc() == self.nr(),
    forall|r: int, c: int| inr(self, r, c) ==> #[trigger] res.data@.dom().contains(key(c, r)) == seen(es0@, k0 as int, r, c),
    forall|r: int, c: int| inr(self, r, c) && #[trigger] seen(es0@, k0 as int, r, c) ==> res.data@[key(c, r)].r() == self.at(r, c),
//@ loop 0 start
    let ghost nd0 = res.data@;
    proof {
        let (rr, cc) = (es0@[i0 as int].0.0 as int, es0@[i0 as int].0.1 as int);
        lem_entries(self, es0@);
        assert(inr(self, rr, cc)); assert(key(rr, cc) == es0@[i0 as int].0);
        assert forall|r: int, c: int| inr(self, r, c) implies #[trigger] seen(es0@, k0 as int, r, c) == (seen(es0@, i0 as int, r, c) || (r == rr && c == cc)) by { lem_seen(es0@, i0 as int, r, c); }
        assert forall|r: int, c: int| inr(self, r, c) && #[trigger] key(c, r) == key(cc, rr) implies r == rr && c == cc by {}
    }
//@ loop 0 end
    proof {
        let (rr, cc) = (es0@[i0 as int].0.0 as int, es0@[i0 as int].0.1 as int);
        assert(res.data@ == nd0.insert(key(cc, rr), es0@[i0 as int].1));
    }
//@ tail
    proof {
        lem_seen_all(self, es0@);
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == self.at(c, r) && ret_.has(r, c) == self.has(c, r) by { assert(inr(self, c, r)); assert(seen(es0@, es0@.len() as int, c, r) == self.has(c, r)); assert(ret_.data@.dom().contains(key(r, c)) == seen(es0@, es0@.len() as int, c, r)); }
    }
//@ end
//@ fn Dictionary::edges -> res
//@ opt collect
//@ sig
    pub fn edges(&self) -> (res: Vec<(usize, usize)>)
//@ requires
    self.wf(),
//@ ensures
    key_list(self, res@),
//@ loop 0
    entries_of(self.data@, es0@), len0 == es0@.len(), acc0@.len() == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] acc0@[k] == es0@[k].0,
//@ tail
    proof {
        assert forall|x: (usize, usize)| #[trigger] self.data@.dom().contains(x) implies ret_@.contains(x) by { let k = choose|k: int| 0 <= k < es0@.len() && #[trigger] es0@[k].0 == x; assert(ret_@[k] == x); }
        assert forall|k: int, l: int| 0 <= k < l < ret_@.len() implies #[trigger] ret_@[k] != #[trigger] ret_@[l] by { assert(es0@[k].0 != es0@[l].0); }
        assert forall|k: int| 0 <= k < ret_@.len() implies self.data@.dom().contains(#[trigger] ret_@[k]) by { assert(self.data@.dom().contains(es0@[k].0)); }
    }
//@ end
//@ fn Dictionary::edges_lower -> res
//@ opt collect
//@ sig
    pub fn edges_lower(&self) -> (res: Vec<(usize, usize)>)
//@ requires
    self.wf(),
//@ ensures
    lower_list(self, res@),
//@ let acc0 : Vec<(usize, usize)>
//@ loop 0
    entries_of(self.data@, es0@), len0 == es0@.len(),
    forall|k: int| 0 <= k < acc0@.len() ==> self.data@.dom().contains(#[trigger] acc0@[k]) && acc0@[k].0 <= acc0@[k].1,
    forall|k: int, l: int| 0 <= k < acc0@.len() && k0 <= l < es0@.len() ==> #[trigger] acc0@[k] != (#[trigger] es0@[l]).0,
    forall|k: int, l: int| 0 <= k < l < acc0@.len() ==> #[trigger] acc0@[k] != #[trigger] acc0@[l],
    forall|k: int| 0 <= k < k0 && (#[trigger] es0@[k]).0.0 <= es0@[k].0.1 ==> acc0@.contains(es0@[k].0),
//@ loop 0 start
    let ghost a0 = acc0@;
    proof { assert(self.data@.dom().contains(es0@[i0 as int].0)); assert forall|l: int| k0 <= l < es0@.len() implies es0@[i0 as int].0 != (#[trigger] es0@[l]).0 by {} }
//@ loop 0 end
    proof {
        assert forall|k: int| 0 <= k < k0 && (#[trigger] es0@[k]).0.0 <= es0@[k].0.1 implies acc0@.contains(es0@[k].0) by {
            if k < i0 { let j = choose|j: int| 0 <= j < a0.len() && a0[j] == es0@[k].0; assert(acc0@[j] == es0@[k].0); } else { assert(acc0@[acc0@.len() - 1] == es0@[k].0); } }
    }
//@ tail
    proof { assert forall|x: (usize, usize)| #[trigger] self.data@.dom().contains(x) && x.0 <= x.1 implies ret_@.contains(x) by { let k = choose|k: int| 0 <= k < es0@.len() && #[trigger] es0@[k].0 == x; assert(es0@[k].0.0 <= es0@[k].0.1); } }
//@ end
//@ fn Dictionary::mask -> res
//@ requires
    self.wf(), self.nr() == self.nc(), mask@.len() == self.nr(),
//@ ensures
    res.wf(), res.nr() == cnt(mask@, self.nr()), res.nc() == cnt(mask@, self.nr()),
    forall|r: int, c: int| inr(&self, r, c) && mask@[r] && mask@[c] ==> #[trigger] self.at(r, c) == res.at(cnt(mask@, r), cnt(mask@, c)),
//@ let idxs : Vec<Option<usize>>
//@ let idx : usize
//@ loop 0
    len0 == mask@.len(), idx == cnt(mask@, k0 as int), idxs@.len() == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] idxs@[k] == if mask@[k] { Some(cnt(mask@, k) as usize) } else { None },
//@ loop 0 start
    proof { lem_cnt(mask@, i0 as int, k0 as int); assert(cnt(mask@, k0 as int) == cnt(mask@, i0 as int) + if mask@[i0 as int] { 1int } else { 0 }); }
//@ before let mut res = Self::zeros
    proof { lem_cnt(mask@, 0, mask@.len() as int); }
//@ loop 1 before
    proof { lem_cnt(mask@, 0, mask@.len() as int); lem_entries(&self, es1@);
        assert forall|r: int, c: int| inr(&self, r, c) && mask@[r] && mask@[c] implies #[trigger] res.at(cnt(mask@, r), cnt(mask@, c)) == 0real by { lem_cnt(mask@, r, mask@.len() as int); lem_cnt(mask@, c, mask@.len() as int); } }
//@ loop 1
    entries_of(self.data@, es1@), lv_ok(es1@, self.nr(), self.nc()), len1 == es1@.len(), res.wf(), res.nr() == cnt(mask@, self.nr()), res.nc() == res.nr(),
    mask@.len() == self.nr(), idxs@.len() == mask@.len(), forall|k: int| 0 <= k < mask@.len() ==> #[trigger] idxs@[k] == if mask@[k] { Some(cnt(mask@, k) as usize) } else { None },
    forall|r: int, c: int| inr(&self, r, c) && mask@[r] && mask@[c] ==> #[trigger] res.at(cnt(mask@, r), cnt(mask@, c)) == if seen(es1@, k1 as int, r, c) { self.at(r, c) } else { 0real },
//@ loop 1 start
    let ghost res0 = res;
    let ghost (rr, cc) = (es1@[i1 as int].0.0 as int, es1@[i1 as int].0.1 as int);
    proof {
        lem_entries(&self, es1@); lem_cnt(mask@, rr, mask@.len() as int); lem_cnt(mask@, cc, mask@.len() as int); lem_cnt(mask@, 0, mask@.len() as int);
        assert(inr(&self, rr, cc)); assert(key(rr, cc) == es1@[i1 as int].0);
        assert forall|r: int, c: int| inr(&self, r, c) implies #[trigger] seen(es1@, k1 as int, r, c) == (seen(es1@, i1 as int, r, c) || (r == rr && c == cc)) by { lem_seen(es1@, i1 as int, r, c); }
    }
//@ loop 1 end
    proof {
        assert forall|r: int, c: int| inr(&self, r, c) && mask@[r] && mask@[c] implies #[trigger] res.at(cnt(mask@, r), cnt(mask@, c)) == if seen(es1@, k1 as int, r, c) { self.at(r, c) } else { 0real } by {
            assert(res0.at(cnt(mask@, r), cnt(mask@, c)) == if seen(es1@, i1 as int, r, c) { self.at(r, c) } else { 0real });
            lem_cnt(mask@, r, mask@.len() as int); lem_cnt(mask@, c, mask@.len() as int);
            assert(inr(&res, cnt(mask@, r), cnt(mask@, c)));
            if mask@[rr] && mask@[cc] {
                if r < rr { lem_cnt(mask@, r, rr); } if rr < r { lem_cnt(mask@, rr, r); }
                if c < cc { lem_cnt(mask@, c, cc); } if cc < c { lem_cnt(mask@, cc, c); }
            }
        }
    }
//@ tail
    proof { lem_seen_all(&self, es1@); assert forall|r: int, c: int| inr(&self, r, c) && mask@[r] && mask@[c] implies #[trigger] self.at(r, c) == ret_.at(cnt(mask@, r), cnt(mask@, c)) by { assert(seen(es1@, es1@.len() as int, r, c) == self.has(r, c)); } }
//@ end
//@ fn Dictionary::mul_dict -> res
//@ let sort0 : |q0: &((usize, usize), R)| -> (o: usize) ensures o == q0.0.0
//@ let other_row_slices : Vec<&[((usize, usize), R)]>
//@ let cur_start : usize
//@ requires
    self.wf(), other.wf(), self.nc() == other.nr(),
//@ ensures
    prod(self, other, &res),
//@ loop 0
    entries_of(other.data@, es0@), len0 == es0@.len(), acc0@.len() == k0, forall|k: int| 0 <= k < k0 ==> #[trigger] acc0@[k] == es0@[k],
//@ loop 0 after
    let ghost u0 = acc0@;
    proof { assert(acc0@ =~= es0@); lem_entries(other, es0@); }
//@ before let mut other_row_slices
    let ghost bb = other_nzs@;
    proof { lem_rearr(u0, bb, other.nr(), other.nc()); assert forall|i: int, j: int| 0 <= i <= j < bb.len() implies (#[trigger] bb[i]).0.0 <= (#[trigger] bb[j]).0.0 by { } }
//@ loop 1
    other_nzs@ == bb, len1 == other.nr(), rcut(bb, k1 as int, cur_start as int), other_row_slices@.len() == k1, forall|q: int| 0 <= q < k1 ==> #[trigger] is_row(other_row_slices@[q]@, other, q),
//@ loop 2
    other_nzs@ == bb, cur_start <= end <= bb.len(), forall|k: int| cur_start <= k < end ==> (#[trigger] bb[k]).0.0 == i1,
    decreases bb.len() - end,
//@ loop 2 after
    proof {
        assert(rcut(bb, i1 as int, cur_start as int));
        assert forall|k: int| end <= k < bb.len() implies (#[trigger] bb[k]).0.0 >= i1 + 1 by { assert(bb[end as int].0.0 <= bb[k].0.0); assert(bb[end as int].0.0 >= i1); }
        assert forall|k: int| 0 <= k < end implies (#[trigger] bb[k]).0.0 < i1 + 1 by {}
        lem_is_row(other, bb, i1 as int, cur_start as int, end as int);
    }
//@ loop 3 before
    proof { lem_entries(self, es3@); assert forall|r: int, c: int| inr(&res, r, c) implies #[trigger] res.at(r, c) == term(self, other, es3@, 0, r, c) by { lem_term0(self, other, es3@, r, c, self.nc()); } }
//@ loop 3
    other_row_slices@.len() == other.nr(), forall|q: int| 0 <= q < other.nr() ==> #[trigger] is_row(other_row_slices@[q]@, other, q),
    entries_of(self.data@, es3@), len3 == es3@.len(), res.wf(), res.nr() == self.nr(), res.nc() == other.nc(),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == term(self, other, es3@, k3 as int, r, c),
//@ loop 3 start
    let ghost res0 = res;
    let ghost (rr, jj) = (es3@[i3 as int].0.0 as int, es3@[i3 as int].0.1 as int);
    proof { lem_entries(self, es3@); assert(inr(self, rr, jj)); assert(is_row(other_row_slices@[jj]@, other, jj)); }
    let ghost sl = other_row_slices@[jj]@;
//@ loop 4
    res.wf(), res.nr() == self.nr(), res.nc() == other.nc(),
    forall|r: int, c: int| inr(&res, r, c) ==> #[trigger] res.at(r, c) == res0.at(r, c) + if r == rr && in_sl(sl, k4 as int, c) { es3@[i3 as int].1.r() * other.at(jj, c) } else { 0real },
//@ loop 4 start
    let ghost res1 = res;
    proof { let cc = sl[i4 as int].0.1 as int; assert(sl[i4 as int].0.0 == jj); assert(inr(&res, rr, cc));
        if in_sl(sl, i4 as int, cc) { let j = choose|j: int| 0 <= j < i4 && (#[trigger] sl[j]).0.1 == cc; assert(sl[j].0.1 != sl[i4 as int].0.1); }
        assert forall|c: int| #[trigger] in_sl(sl, k4 as int, c) == (in_sl(sl, i4 as int, c) || c == cc) by {
            if in_sl(sl, i4 as int, c) { let j = choose|j: int| 0 <= j < i4 && (#[trigger] sl[j]).0.1 == c; assert(sl[j].0.1 == c); }
            if in_sl(sl, k4 as int, c) { let j = choose|j: int| 0 <= j < k4 && (#[trigger] sl[j]).0.1 == c; if j < i4 { assert(sl[j].0.1 == c); } } } }
//@ loop 3 end
    proof {
        assert forall|r: int, c: int| inr(&res, r, c) implies #[trigger] res.at(r, c) == term(self, other, es3@, k3 as int, r, c) by {
            assert(res0.at(r, c) == term(self, other, es3@, i3 as int, r, c)); lem_term(self, other, es3@, i3 as int, r, c);
            if r == rr && !in_sl(sl, sl.len() as int, c) { assert(other.at(jj, c) == 0real); assert(es3@[i3 as int].1.r() * 0real == 0real) by (nonlinear_arith); }
        }
    }
//@ tail
    proof {
        lem_seen_all(self, es3@);
        assert forall|r: int, c: int| inr(&ret_, r, c) implies #[trigger] ret_.at(r, c) == mat_dot(self, other, r, c) by {
            let n = es3@.len() as int;
            let f = |j: int| if seen(es3@, n, r, j) { self.at(r, j) * other.at(j, c) } else { 0real };
            let g = |j: int| self.at(r, j) * other.at(j, c);
            assert forall|j: int| 0 <= j < self.nc() implies f(j) == #[trigger] g(j) by { assert(seen(es3@, n, r, j) == self.has(r, j)); if !self.has(r, j) { assert(self.at(r, j) == 0real); assert(0real * other.at(j, c) == 0real) by (nonlinear_arith); } }
            rsum_eq(f, g, self.nc());
        }
    }
//@ end
}
}
