//@ include sparse.rs
verus! {
// ---- labelled values
pub open spec fn lv_ok(v: Seq<((usize, usize), R)>, nr: int, nc: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0.0 < nr && v[k].0.1 < nc
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> #[trigger] v[k].0 != #[trigger] v[l].0
}
pub open spec fn lv_has(v: Seq<((usize, usize), R)>, r: int, c: int) -> bool { exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == key(r, c) }
pub open spec fn lv_at(v: Seq<((usize, usize), R)>, r: int, c: int) -> real { if lv_has(v, r, c) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == key(r, c); v[k].1.r() } else { 0real } }
// the first k of them
pub open spec fn seen(v: Seq<((usize, usize), R)>, k: int, r: int, c: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] v[j]).0 == key(r, c) }
pub proof fn lem_lv(v: Seq<((usize, usize), R)>, nr: int, nc: int, k: int)
    requires lv_ok(v, nr, nc), 0 <= k < v.len(),
    ensures lv_has(v, v[k].0.0 as int, v[k].0.1 as int), lv_at(v, v[k].0.0 as int, v[k].0.1 as int) == v[k].1.r(),
{ let (r, c) = (v[k].0.0 as int, v[k].0.1 as int); assert(v[k].0 == key(r, c)); let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == key(r, c); if j < k { assert(v[j].0 != v[k].0); } if k < j { assert(v[k].0 != v[j].0); } }
pub proof fn lem_rearr(a: Seq<((usize, usize), R)>, b: Seq<((usize, usize), R)>, nr: int, nc: int)
    requires lv_ok(a, nr, nc), rearranged(a, b), nr < usize::MAX, nc < usize::MAX,
    ensures lv_ok(b, nr, nc), forall|r: int, c: int| 0 <= r < nr && 0 <= c < nc ==> #[trigger] lv_at(b, r, c) == lv_at(a, r, c),
{
    let p = choose|p: Seq<int>| #[trigger] rearranges(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]];
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).0.0 < nr && b[k].0.1 < nc by { assert(b[k] == a[p[k]]); }
    assert forall|k: int, l: int| 0 <= k < l < b.len() implies #[trigger] b[k].0 != #[trigger] b[l].0 by { assert(b[k] == a[p[k]] && b[l] == a[p[l]]); if p[k] < p[l] { assert(a[p[k]].0 != a[p[l]].0); } else { assert(a[p[l]].0 != a[p[k]].0); } }
    assert forall|r: int, c: int| 0 <= r < nr && 0 <= c < nc implies #[trigger] lv_at(b, r, c) == lv_at(a, r, c) by {
        if lv_has(b, r, c) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == key(r, c); assert(b[k] == a[p[k]]); lem_lv(b, nr, nc, k); lem_lv(a, nr, nc, p[k]); }
        else if lv_has(a, r, c) { let j = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == key(r, c); assert(hits(p, j)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(b[i] == a[j]); assert(lv_has(b, r, c)); }
    }
}
// a dictionary and the list of its entries
pub proof fn lem_entries(d: &Dictionary, v: Seq<((usize, usize), R)>)
    requires d.wf(), entries_of(d.data@, v),
    ensures lv_ok(v, d.nr(), d.nc()), forall|r: int, c: int| inr(d, r, c) ==> #[trigger] lv_at(v, r, c) == d.at(r, c),
        forall|r: int, c: int| inr(d, r, c) ==> #[trigger] lv_has(v, r, c) == d.data@.dom().contains(key(r, c)),
        forall|k: int| 0 <= k < v.len() ==> d.at((#[trigger] v[k]).0.0 as int, v[k].0.1 as int) == v[k].1.r() && d.data@.dom().contains(v[k].0),
{
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).0.0 < d.nr() && v[k].0.1 < d.nc() by { assert(d.data@.dom().contains(v[k].0)); }
    assert forall|r: int, c: int| inr(d, r, c) implies #[trigger] lv_has(v, r, c) == d.data@.dom().contains(key(r, c)) by {
        if d.data@.dom().contains(key(r, c)) { let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k].0 == key(r, c); }
    }
    assert forall|k: int| 0 <= k < v.len() implies d.at((#[trigger] v[k]).0.0 as int, v[k].0.1 as int) == v[k].1.r() && d.data@.dom().contains(v[k].0) by { assert(d.data@.dom().contains(v[k].0)); assert(key(v[k].0.0 as int, v[k].0.1 as int) == v[k].0); }
}
pub proof fn lem_seen(v: Seq<((usize, usize), R)>, k: int, r: int, c: int)
    requires 0 <= k < v.len(), 0 <= r <= usize::MAX, 0 <= c <= usize::MAX,
    ensures seen(v, k + 1, r, c) == (seen(v, k, r, c) || (v[k].0.0 == r && v[k].0.1 == c)),
{
    if seen(v, k, r, c) { let j = choose|j: int| 0 <= j < k && (#[trigger] v[j]).0 == key(r, c); assert(v[j].0 == key(r, c)); }
    if v[k].0.0 == r && v[k].0.1 == c { assert(v[k].0 == key(r, c)); }
    if seen(v, k + 1, r, c) { let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] v[j]).0 == key(r, c); if j < k { assert(seen(v, k, r, c)); } }
}
pub open spec fn env_s(v: Seq<((usize, usize), R)>, k: int, r: int, e: int) -> bool {
    (forall|c: int| 0 <= c <= r && #[trigger] seen(v, k, r, c) ==> e >= r - c + 1) && (e == 0 || exists|c: int| 0 <= c <= r && #[trigger] seen(v, k, r, c) && e == r - c + 1)
}
pub open spec fn estep(x: (usize, usize), r: int, e: int) -> int { if x.0 == r && x.1 <= r && e < r - x.1 + 1 { r - x.1 + 1 } else { e } }
pub proof fn lem_env_step(v: Seq<((usize, usize), R)>, k: int, r: int, e: int)
    requires 0 <= k < v.len(), 0 <= r <= usize::MAX, env_s(v, k, r, e),
    ensures env_s(v, k + 1, r, estep(v[k].0, r, e)),
{
    let e1 = estep(v[k].0, r, e);
    assert forall|c: int| 0 <= c <= r && #[trigger] seen(v, k + 1, r, c) implies e1 >= r - c + 1 by { lem_seen(v, k, r, c); }
    if e1 != 0 {
        if e1 == e { let c = choose|c: int| 0 <= c <= r && #[trigger] seen(v, k, r, c) && e == r - c + 1; lem_seen(v, k, r, c); assert(seen(v, k + 1, r, c)); }
        else { let c = v[k].0.1 as int; lem_seen(v, k, r, c); assert(seen(v, k + 1, r, c)); }
    }
}
pub open spec fn bnd_s(v: Seq<((usize, usize), R)>, k: int, r: int, nc: int, b: (usize, usize)) -> bool {
    (forall|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) ==> b.0 <= c < b.1)
        && ((b.0 == nc && b.1 == 0) || ((exists|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) && c == b.0) && (exists|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) && c + 1 == b.1)))
}
pub open spec fn bstep(x: (usize, usize), r: int, b: (usize, usize)) -> (usize, usize) {
    if x.0 == r { (if x.1 < b.0 { x.1 } else { b.0 }, if x.1 + 1 > b.1 { (x.1 + 1) as usize } else { b.1 }) } else { b }
}
pub proof fn lem_bnd_step(v: Seq<((usize, usize), R)>, k: int, r: int, nc: int, b: (usize, usize))
    requires 0 <= k < v.len(), 0 <= r <= usize::MAX, bnd_s(v, k, r, nc, b), v[k].0.1 < nc < usize::MAX,
    ensures bnd_s(v, k + 1, r, nc, bstep(v[k].0, r, b)),
{
    let x = v[k].0;
    let b1 = bstep(x, r, b);
    assert forall|c: int| 0 <= c < nc && #[trigger] seen(v, k + 1, r, c) implies b1.0 <= c < b1.1 by { lem_seen(v, k, r, c); }
    lem_seen(v, k, r, x.1 as int);
    if b1 != b || x.0 == r {
        assert(seen(v, k + 1, r, x.1 as int));
        if b.0 == nc && b.1 == 0 { } else {
            let c = choose|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) && c == b.0; lem_seen(v, k, r, c); assert(seen(v, k + 1, r, c));
            let c2 = choose|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) && c + 1 == b.1; lem_seen(v, k, r, c2); assert(seen(v, k + 1, r, c2));
        }
    } else if !(b.0 == nc && b.1 == 0) {
        let c = choose|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) && c == b.0; lem_seen(v, k, r, c); assert(seen(v, k + 1, r, c));
        let c2 = choose|c: int| 0 <= c < nc && #[trigger] seen(v, k, r, c) && c + 1 == b.1; lem_seen(v, k, r, c2); assert(seen(v, k + 1, r, c2));
    }
}
pub proof fn lem_seen_all(d: &Dictionary, v: Seq<((usize, usize), R)>)
    requires d.wf(), entries_of(d.data@, v),
    ensures forall|r: int, c: int| inr(d, r, c) ==> #[trigger] seen(v, v.len() as int, r, c) == d.has(r, c),
{ lem_entries(d, v); assert forall|r: int, c: int| inr(d, r, c) implies #[trigger] seen(v, v.len() as int, r, c) == d.has(r, c) by { assert(lv_has(v, r, c) == d.has(r, c)); } }
impl Dictionary {
    // something is stored at (r, c)
    pub open spec fn has(&self, r: int, c: int) -> bool { self.data@.dom().contains(key(r, c)) }
    // distance from the leftmost stored entry on or left of the diagonal to the diagonal, itself included; nothing if there is none
    pub open spec fn is_env(&self, r: int, e: int) -> bool {
        (forall|c: int| 0 <= c <= r && c < self.nc() && #[trigger] self.has(r, c) ==> e >= r - c + 1)
            && (e == 0 || exists|c: int| 0 <= c <= r && c < self.nc() && #[trigger] self.has(r, c) && e == r - c + 1)
    }
    // first and one past the last stored column
    pub open spec fn is_bounds(&self, r: int, b: (usize, usize)) -> bool {
        (forall|c: int| 0 <= c < self.nc() && #[trigger] self.has(r, c) ==> b.0 <= c < b.1)
            && ((b.0 == self.nc() && b.1 == 0) || ((exists|c: int| 0 <= c < self.nc() && #[trigger] self.has(r, c) && c == b.0) && (exists|c: int| 0 <= c < self.nc() && #[trigger] self.has(r, c) && c + 1 == b.1)))
    }
//@ fn Dictionary::envelope -> res
//@ requires
    self.wf(),
//@ ensures
    res@.len() == self.nr(), forall|r: int| 0 <= r < self.nr() ==> #[trigger] self.is_env(r, res@[r] as int),
//@ loop 0
    env@.len() == self.nr(), entries_of(self.data@, es0@), lv_ok(es0@, self.nr(), self.nc()), len0 == es0@.len(),
    forall|r: int| 0 <= r < self.nr() ==> env_s(es0@, k0 as int, r, #[trigger] env@[r] as int),
//@ loop 0 before
    proof { lem_entries(self, es0@); }
//@ loop 0 start
    let ghost e_0 = env@;
    proof {
        assert(es0@[i0 as int].0.0 < self.nr());
        assert forall|r: int| 0 <= r < self.nr() implies env_s(es0@, k0 as int, r, estep(es0@[i0 as int].0, r, #[trigger] e_0[r] as int)) by { lem_env_step(es0@, i0 as int, r, e_0[r] as int); }
    }
//@ loop 0 end
    proof { assert forall|r: int| 0 <= r < self.nr() implies env_s(es0@, k0 as int, r, #[trigger] env@[r] as int) by { assert(env@[r] == estep(es0@[i0 as int].0, r, e_0[r] as int)); } }
//@ tail
    proof { lem_seen_all(self, es0@); assert forall|r: int| 0 <= r < self.nr() implies #[trigger] self.is_env(r, ret_@[r] as int) by {
        let e = ret_@[r] as int; assert(env_s(es0@, es0@.len() as int, r, e));
        assert forall|c: int| 0 <= c <= r && c < self.nc() && #[trigger] self.has(r, c) implies e >= r - c + 1 by { assert(seen(es0@, es0@.len() as int, r, c)); }
        if e != 0 { let c = choose|c: int| 0 <= c <= r && #[trigger] seen(es0@, es0@.len() as int, r, c) && e == r - c + 1;
            let j = choose|j: int| 0 <= j < es0@.len() && (#[trigger] es0@[j]).0 == key(r, c); assert(es0@[j].0.1 < self.nc()); assert(self.has(r, c)); }
    } }
//@ end
//@ fn Dictionary::row_bounds -> res
//@ requires
    self.wf(),
//@ ensures
    res@.len() == self.nr(), forall|r: int| 0 <= r < self.nr() ==> #[trigger] self.is_bounds(r, res@[r]),
//@ loop 0
    bnd@.len() == self.nr(), entries_of(self.data@, es0@), lv_ok(es0@, self.nr(), self.nc()), len0 == es0@.len(),
    forall|r: int| 0 <= r < self.nr() ==> bnd_s(es0@, k0 as int, r, self.nc(), #[trigger] bnd@[r]),
//@ loop 0 before
    proof { lem_entries(self, es0@); }
//@ loop 0 start
    let ghost b_0 = bnd@;
    proof {
        assert(es0@[i0 as int].0.0 < self.nr() && es0@[i0 as int].0.1 < self.nc());
        assert forall|r: int| 0 <= r < self.nr() implies bnd_s(es0@, k0 as int, r, self.nc(), bstep(es0@[i0 as int].0, r, #[trigger] b_0[r])) by { lem_bnd_step(es0@, i0 as int, r, self.nc(), b_0[r]); }
    }
//@ loop 0 end
    proof { assert forall|r: int| 0 <= r < self.nr() implies bnd_s(es0@, k0 as int, r, self.nc(), #[trigger] bnd@[r]) by { assert(bnd@[r] == bstep(es0@[i0 as int].0, r, b_0[r])); } }
//@ tail
    proof { lem_seen_all(self, es0@); assert forall|r: int| 0 <= r < self.nr() implies #[trigger] self.is_bounds(r, ret_@[r]) by {
        let b = ret_@[r]; let n = es0@.len() as int; assert(bnd_s(es0@, n, r, self.nc(), b));
        assert forall|c: int| 0 <= c < self.nc() && #[trigger] self.has(r, c) implies b.0 <= c < b.1 by { assert(seen(es0@, n, r, c)); }
        if !(b.0 == self.nc() && b.1 == 0) {
            let c = choose|c: int| 0 <= c < self.nc() && #[trigger] seen(es0@, n, r, c) && c == b.0; assert(self.has(r, c));
            let c2 = choose|c: int| 0 <= c < self.nc() && #[trigger] seen(es0@, n, r, c) && c + 1 == b.1; assert(self.has(r, c2)); }
    } }
//@ end
}
}
