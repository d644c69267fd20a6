//@ include node.rs
//@ include dofs.rs
verus! {
//@ map ElementAssemblage.concentrated_forces ElementAssemblage.line_forces
//@ struct ElementAssemblage
// ---- sums over the entries of a map come out the same in whatever order the entries are visited
pub proof fn rs_shift(f: A1, g: A1, j: int, n: int)
    requires 0 <= j < n, forall|k: int| 0 <= k < j ==> #[trigger] g(k) == f(k), forall|k: int| j <= k < n - 1 ==> #[trigger] g(k) == f(k + 1),
    ensures rsum(f, n) == rsum(g, n - 1) + f(j),
    decreases n,
{
    if j == n - 1 { rsum_eq(g, f, n - 1); } else { rs_shift(f, g, j, n - 1); assert(g(n - 2) == f(n - 1)); }
}
pub open spec fn tot<K, V>(s: Seq<(K, V)>, w: spec_fn((K, V)) -> real) -> real { rsum(|k: int| w(s[k]), s.len() as int) }
pub proof fn lem_order<K, V>(m: Map<K, V>, s: Seq<(K, V)>, t: Seq<(K, V)>, w: spec_fn((K, V)) -> real)
    requires entries_of(m, s), entries_of(m, t),
    ensures tot(s, w) == tot(t, w), s.len() == t.len(),
    decreases s.len(),
{
    let n = s.len() as int;
    if n == 0 { if t.len() > 0 { assert(m.dom().contains(t[0].0)); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 == t[0].0; } }
    else {
        let e = s[n - 1]; assert(m.dom().contains(e.0)); let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].0 == e.0; assert(t[j].1 == m[e.0]); assert(t[j] == e);
        let s2 = s.drop_last(); let t2 = t.remove(j); let m2 = m.remove(e.0);
        assert(entries_of(m2, s2)) by {
            assert forall|k: int| 0 <= k < s2.len() implies m2.dom().contains((#[trigger] s2[k]).0) && m2[s2[k].0] == s2[k].1 by { assert(s2[k] == s[k]); assert(s[k].0 != s[n - 1].0); }
            assert forall|k: int, l: int| 0 <= k < l < s2.len() implies #[trigger] s2[k].0 != #[trigger] s2[l].0 by { assert(s[k].0 != s[l].0); }
            assert forall|x: K| #[trigger] m2.dom().contains(x) implies exists|k: int| 0 <= k < s2.len() && #[trigger] s2[k].0 == x by { assert(m.dom().contains(x)); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 == x; assert(k != n - 1); assert(s2[k].0 == x); }
        }
        assert(entries_of(m2, t2)) by {
            assert forall|k: int| 0 <= k < t2.len() implies m2.dom().contains((#[trigger] t2[k]).0) && m2[t2[k].0] == t2[k].1 by { let l = if k < j { k } else { k + 1 }; assert(t2[k] == t[l]); if l < j { assert(t[l].0 != t[j].0); } else { assert(t[j].0 != t[l].0); } }
            assert forall|k: int, l: int| 0 <= k < l < t2.len() implies #[trigger] t2[k].0 != #[trigger] t2[l].0 by { let a = if k < j { k } else { k + 1 }; let b = if l < j { l } else { l + 1 }; assert(t[a].0 != t[b].0); }
            assert forall|x: K| #[trigger] m2.dom().contains(x) implies exists|k: int| 0 <= k < t2.len() && #[trigger] t2[k].0 == x by { assert(m.dom().contains(x)); let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k].0 == x; assert(k != j); let l = if k < j { k } else { k - 1 }; assert(t2[l].0 == x); }
        }
        lem_order(m2, s2, t2, w);
        rs_shift(|k: int| w(t[k]), |k: int| w(t2[k]), j, t.len() as int);
        rsum_eq(|k: int| w(s[k]), |k: int| w(s2[k]), n - 1);
    }
}
// ---- what the elements and forces contribute
impl Element {
    pub open spec fn ed(&self, t: int) -> int { self.node_ids@[t / 2].0 * 2 + t % 2 }
    pub open spec fn co(&self, mass: bool, a: int, b: int) -> real { if mass { self.mij(a, b) } else { self.kij(a, b) } }
    // what coefficient t of the element adds at (i, j)
    pub open spec fn ec(&self, mass: bool, t: int, i: int, j: int) -> real { if self.ed(t / 6) == i && self.ed(t % 6) == j { self.co(mass, t / 6, t % 6) } else { 0real } }
    pub open spec fn fe(&self, n: NodeId, m: NodeId, f: Point, t: int, i: int) -> real { if self.ed(t) == i { self.fl(n, m, f, t) } else { 0real } }
    pub open spec fn fs(&self, n: NodeId, m: NodeId, f: Point, i: int, k: int) -> real { rsum(|t: int| self.fe(n, m, f, t, i), k) }
    pub open spec fn es(&self, mass: bool, i: int, j: int, n: int) -> real { rsum(|t: int| self.ec(mass, t, i, j), n) }
}
// ---- concentrated forces, entry by entry
pub open spec fn conc_k(s: Seq<(NodeId, Point)>, k: int, i: int) -> real decreases k { if k <= 0 { 0real } else { conc_k(s, k - 1, i) + if i / 2 == s[k - 1].0.0 { s[k - 1].1.c(i % 2) } else { 0real } } }
pub proof fn lem_conc_none(s: Seq<(NodeId, Point)>, k: int, i: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).0.0 != i / 2,
    ensures conc_k(s, k, i) == 0real,
    decreases k,
{ if k > 0 { lem_conc_none(s, k - 1, i); assert(s[k - 1].0.0 != i / 2); } }
pub proof fn lem_conc_one(s: Seq<(NodeId, Point)>, k: int, j: int, i: int)
    requires 0 <= j < k <= s.len(), s[j].0.0 == i / 2, forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).0 != (#[trigger] s[b]).0,
    ensures conc_k(s, k, i) == s[j].1.c(i % 2),
    decreases k,
{
    if j < k - 1 { lem_conc_one(s, k - 1, j, i); assert(s[j].0 != s[k - 1].0); assert(s[k - 1].0.0 != i / 2) by { if s[k - 1].0.0 == i / 2 { assert(s[k - 1].0 == s[j].0); } } }
    else { assert forall|a: int| 0 <= a < j implies (#[trigger] s[a]).0.0 != i / 2 by { assert(s[a].0 != s[j].0); if s[a].0.0 == i / 2 { assert(s[a].0 == s[j].0); } } lem_conc_none(s, j, i); }
}
// the edge force f between nodes n and m, at degree of freedom i
pub open spec fn edge_at(nodes: Seq<Point>, n: NodeId, m: NodeId, f: Point, i: int) -> real { if i / 2 == n.0 || i / 2 == m.0 { f.c(i % 2) * seg_len(nodes[n.0 as int], nodes[m.0 as int]) / 2real } else { 0real } }
pub open spec fn pair_at(p: Point, y: Seq<R>, n: int) -> bool { p.wf() && p.n == 2 && p.c(0) == y[2 * n].r() && p.c(1) == y[2 * n + 1].r() }
impl ElementAssemblage {
    pub open spec fn nn(&self) -> int { self.nodes@.len() as int }
    pub open spec fn el_ok(&self, e: Element) -> bool { e.ok() && e.ids_ok() && forall|k: int| 0 <= k < 3 ==> (#[trigger] e.node_ids@[k]).0 < self.nn() && e.node_points@[k] == self.nodes@[e.node_ids@[k].0 as int] }
    pub open spec fn wf(&self) -> bool {
        &&& 2 * self.nn() < usize::MAX && self.constraints@.len() == self.nn()
        &&& forall|e: int| 0 <= e < self.elements@.len() ==> self.el_ok(#[trigger] self.elements@[e])
        &&& forall|n: NodeId| #[trigger] self.concentrated_forces@.dom().contains(n) ==> n.0 < self.nn() && self.concentrated_forces@[n].wf() && self.concentrated_forces@[n].n == 2
        &&& forall|k: (NodeId, NodeId)| #[trigger] self.line_forces@.dom().contains(k) ==> self.line_forces@[k].wf() && self.line_forces@[k].n == 2
    }
    pub open spec fn gsum_k(&self, mass: bool, i: int, j: int, n: int) -> real { rsum(|e: int| self.elements@[e].es(mass, i, j, 36), n) }
    pub open spec fn is_global(&self, mass: bool, res: &Dictionary) -> bool {
        res.wf() && res.nr() == 2 * self.nn() && res.nc() == 2 * self.nn() && forall|i: int, j: int| inr(res, i, j) ==> #[trigger] res.at(i, j) == self.gsum_k(mass, i, j, self.elements@.len() as int)
    }
    pub open spec fn meets(&self, n: NodeId, m: NodeId) -> bool { exists|e: int| 0 <= e < self.elements@.len() && (#[trigger] self.elements@[e]).conn(n, m) }
    pub open spec fn conc(&self, i: int) -> real { let n = NodeId((i / 2) as usize); if self.concentrated_forces@.dom().contains(n) { self.concentrated_forces@[n].c(i % 2) } else { 0real } }
    // the contribution of one edge force: once, however many elements share the edge
    pub open spec fn edge(&self, i: int, e: ((NodeId, NodeId), Point)) -> real { if self.meets(e.0.0, e.0.1) { edge_at(self.nodes@, e.0.0, e.0.1, e.1, i) } else { 0real } }
    pub open spec fn edge_k(&self, i: int, s: Seq<((NodeId, NodeId), Point)>, k: int) -> real { rsum(|j: int| self.edge(i, s[j]), k) }
    pub open spec fn edges(&self, i: int, s: Seq<((NodeId, NodeId), Point)>) -> real { tot(s, |e: ((NodeId, NodeId), Point)| self.edge(i, e)) }
//@ fn ElementAssemblage::node -> res
//@ requires
    n.0 < self.nn(),
//@ ensures
    res == self.nodes@[n.0 as int],
//@ end
//@ fn ElementAssemblage::node_count -> res
//@ ensures
    res == self.nn(),
//@ end
//@ fn ElementAssemblage::condition -> res
//@ ensures
    res == self.condition,
//@ end
//@ fn ElementAssemblage::material -> res
//@ ensures
    res == self.material,
//@ end
    proof fn lem_step(&self, mass: bool, r0: &Dictionary, r1: &Dictionary, e: int, t: int)
        requires self.wf(), 0 <= e < self.elements@.len(), 0 <= t < 36, r0.nr() == 2 * self.nn(), r0.nc() == 2 * self.nn(), same_shape(r1, r0),
            ({ let el = self.elements@[e]; let (i, j) = (el.ed(t / 6), el.ed(t % 6)); framed(r1, r0, i, j) && r1.at(i, j) == r0.at(i, j) + el.co(mass, t / 6, t % 6) }),
            forall|i: int, j: int| inr(r0, i, j) ==> #[trigger] r0.at(i, j) == self.gsum_k(mass, i, j, e) + self.elements@[e].es(mass, i, j, t),
        ensures forall|i: int, j: int| inr(r1, i, j) ==> #[trigger] r1.at(i, j) == self.gsum_k(mass, i, j, e) + self.elements@[e].es(mass, i, j, t + 1),
    {
        let el = self.elements@[e];
        assert forall|i: int, j: int| inr(r1, i, j) implies #[trigger] r1.at(i, j) == self.gsum_k(mass, i, j, e) + el.es(mass, i, j, t + 1) by {
            assert(inr(r0, i, j)); assert(el.es(mass, i, j, t + 1) == el.es(mass, i, j, t) + el.ec(mass, t, i, j));
            if i == el.ed(t / 6) && j == el.ed(t % 6) {} else { assert(r1.at(i, j) == r0.at(i, j)); }
        }
    }
//@ fn ElementAssemblage::calc_k -> res
//@ requires
    self.wf(),
//@ ensures
    self.is_global(false, &res),
//@ loop 0
    self.wf(), len0 == self.elements@.len(), res.wf(), res.nr() == 2 * self.nn(), res.nc() == 2 * self.nn(), forall|i: int, j: int| inr(&res, i, j) ==> #[trigger] res.at(i, j) == self.gsum_k(false, i, j, k0 as int),
//@ loop 1
    self.wf(), i0 < self.elements@.len(), el == self.elements@[i0 as int], self.el_ok(*el), el.coefs(s1@, |i: int, j: int| el.kij(i, j)), len1 == 36, res.wf(), res.nr() == 2 * self.nn(), res.nc() == 2 * self.nn(),
    forall|i: int, j: int| inr(&res, i, j) ==> #[trigger] res.at(i, j) == self.gsum_k(false, i, j, i0 as int) + self.elements@[i0 as int].es(false, i, j, k1 as int),
//@ loop 1 start
    let ghost r0 = res;
    proof { let t = i1 as int; assert(el.is_dof(s1@[t].0, t / 6) && el.is_dof(s1@[t].1, t % 6)); assert(el.node_ids@[(t / 6) / 2].0 < self.nn()); assert(el.node_ids@[(t % 6) / 2].0 < self.nn()); assert(inr(&res, el.ed(t / 6), el.ed(t % 6))); }
//@ loop 1 end
    proof { self.lem_step(false, &r0, &res, i0 as int, i1 as int); }
//@ end
//@ fn ElementAssemblage::calc_m -> res
//@ requires
    self.wf(),
//@ ensures
    self.is_global(true, &res),
//@ loop 0
    self.wf(), len0 == self.elements@.len(), res.wf(), res.nr() == 2 * self.nn(), res.nc() == 2 * self.nn(), forall|i: int, j: int| inr(&res, i, j) ==> #[trigger] res.at(i, j) == self.gsum_k(true, i, j, k0 as int),
//@ loop 1
    self.wf(), i0 < self.elements@.len(), el == self.elements@[i0 as int], self.el_ok(*el), el.coefs(s1@, |i: int, j: int| el.mij(i, j)), len1 == 36, res.wf(), res.nr() == 2 * self.nn(), res.nc() == 2 * self.nn(),
    forall|i: int, j: int| inr(&res, i, j) ==> #[trigger] res.at(i, j) == self.gsum_k(true, i, j, i0 as int) + self.elements@[i0 as int].es(true, i, j, k1 as int),
//@ loop 1 start
    let ghost r0 = res;
    proof { let t = i1 as int; assert(el.is_dof(s1@[t].0, t / 6) && el.is_dof(s1@[t].1, t % 6)); assert(el.node_ids@[(t / 6) / 2].0 < self.nn()); assert(el.node_ids@[(t % 6) / 2].0 < self.nn()); assert(inr(&res, el.ed(t / 6), el.ed(t % 6))); }
//@ loop 1 end
    proof { self.lem_step(true, &r0, &res, i0 as int, i1 as int); }
//@ end
    // the concentrated forces of the first k entries, at degree of freedom i
    proof fn lem_conc(&self, s: Seq<(NodeId, Point)>, i: int)
        requires self.wf(), entries_of(self.concentrated_forces@, s), 0 <= i < 2 * self.nn(),
        ensures conc_k(s, s.len() as int, i) == self.conc(i),
    {
        let n = NodeId((i / 2) as usize);
        if self.concentrated_forces@.dom().contains(n) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k].0 == n; lem_conc_one(s, s.len() as int, k, i); }
        else { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0.0 != i / 2 by { if s[k].0.0 == i / 2 { assert(s[k].0 == n); } } lem_conc_none(s, s.len() as int, i); }
    }
    // what an element gives for an edge is what the edge gives
    proof fn lem_el_edge(&self, e: int, n: NodeId, m: NodeId, f: Point, i: int)
        requires self.wf(), 0 <= e < self.elements@.len(), self.elements@[e].conn(n, m),
        ensures self.elements@[e].fs(n, m, f, i, 6) == self.edge(i, ((n, m), f)),
    {
        let el = self.elements@[e]; assert(self.el_ok(el)); assert(self.meets(n, m));
        let (a, b) = (el.loc(n), el.loc(m)); assert(a < 3 && b < 3 && a != b);
        assert(el.node_ids@[a] == n && el.node_ids@[b] == m); assert(el.node_points@[a] == self.nodes@[n.0 as int] && el.node_points@[b] == self.nodes@[m.0 as int]);
        let g = |t: int| el.fe(n, m, f, t, i); reveal_with_fuel(rsum, 7);
        assert(rsum(g, 6) == g(0) + g(1) + g(2) + g(3) + g(4) + g(5));
        let (x, y, z) = (el.node_ids@[0], el.node_ids@[1], el.node_ids@[2]);
        assert(el.ed(0) == x.0 * 2 && el.ed(1) == x.0 * 2 + 1 && el.ed(2) == y.0 * 2 && el.ed(3) == y.0 * 2 + 1 && el.ed(4) == z.0 * 2 && el.ed(5) == z.0 * 2 + 1);
        assert(x.0 != y.0 && y.0 != z.0 && x.0 != z.0);
        let c = i / 2; let d = i % 2; assert(i == 2 * c + d);
        assert forall|t: int| 0 <= t < 6 implies #[trigger] g(t) == (if c == el.node_ids@[t / 2].0 && t % 2 == d { el.fl(n, m, f, t) } else { 0real }) by {}
    }
//@ fn ElementAssemblage::calc_load -> res
//@ attr #[verifier::allow_complex_invariants]
//@ opt expand-assign
//@ oneidx f
//@ let res : Vec<R>
//@ requires
    self.wf(),
//@ ensures
    res@.len() == 2 * self.nn(), forall|i: int, s: Seq<((NodeId, NodeId), Point)>| #![trigger res@[i], self.edges(i, s)] 0 <= i < 2 * self.nn() && entries_of(self.line_forces@, s) ==> res@[i].r() == self.conc(i) + self.edges(i, s),
//@ loop 0
    self.wf(), entries_of(self.concentrated_forces@, es0@), len0 == es0@.len(), res@.len() == 2 * self.nn(), forall|i: int| 0 <= i < 2 * self.nn() ==> (#[trigger] res@[i]).r() == conc_k(es0@, k0 as int, i),
//@ loop 0 start
    proof { assert(self.concentrated_forces@.dom().contains(es0@[i0 as int].0)); }
//@ loop 1
    self.wf(), n.0 < self.nn(), f.wf(), f.n == 2, i0 < es0@.len(), n == es0@[i0 as int].0, f == es0@[i0 as int].1, len1 == 2, res@.len() == 2 * self.nn(),
    forall|i: int| 0 <= i < 2 * self.nn() ==> (#[trigger] res@[i]).r() == conc_k(es0@, i0 as int, i) + if i / 2 == n.0 && i % 2 < k1 { f.c(i % 2) } else { 0real },
//@ loop 2 before
    proof { assert forall|i: int| 0 <= i < 2 * self.nn() implies (#[trigger] res@[i]).r() == self.conc(i) by { self.lem_conc(es0@, i); } }
//@ loop 2
    self.wf(), entries_of(self.line_forces@, es3@), len2 == es3@.len(), res@.len() == 2 * self.nn(), forall|i: int| 0 <= i < 2 * self.nn() ==> (#[trigger] res@[i]).r() == self.conc(i) + self.edge_k(i, es3@, k2 as int),
//@ loop 2 start
    let ghost r2 = res@; proof { assert(self.line_forces@.dom().contains(es3@[i2 as int].0)); }
//@ loop 2 end
    proof { assert forall|i: int| 0 <= i < 2 * self.nn() implies (#[trigger] res@[i]).r() == self.conc(i) + self.edge_k(i, es3@, k2 as int) by { assert(r2[i].r() == self.conc(i) + self.edge_k(i, es3@, i2 as int)); } }
//@ loop 3 before
    let ghost mut done = false;
//@ loop 3
    self.wf(), i2 < es3@.len(), n == es3@[i2 as int].0.0, m == es3@[i2 as int].0.1, f == es3@[i2 as int].1, f.wf(), f.n == 2, len3 == self.elements@.len(), res@.len() == 2 * self.nn(),
    !done ==> res@ == r2 && forall|e: int| 0 <= e < k3 ==> !(#[trigger] self.elements@[e]).conn(n, m),
    invariant_except_break !done,
    done ==> forall|i: int| 0 <= i < 2 * self.nn() ==> (#[trigger] res@[i]).r() == r2[i].r() + self.edge(i, es3@[i2 as int]),
    ensures
    done || k3 >= len3,
//@ loop 4
    self.wf(), i3 < self.elements@.len(), el == self.elements@[i3 as int], self.el_ok(*el), len4 == 6, s7@.len() == 6, forall|t: int| 0 <= t < 6 ==> el.is_dof((#[trigger] s7@[t]).0, t) && s7@[t].1.r() == el.fl(n, m, f, t),
    res@.len() == 2 * self.nn(), forall|i: int| 0 <= i < 2 * self.nn() ==> (#[trigger] res@[i]).r() == r2[i].r() + el.fs(n, m, f, i, k4 as int),
//@ loop 4 start
    proof { let t = i4 as int; assert(el.is_dof(s7@[t].0, t)); assert(el.node_ids@[t / 2].0 < self.nn()); }
//@ loop 4 after
    proof { done = true; assert forall|i: int| 0 <= i < 2 * self.nn() implies (#[trigger] res@[i]).r() == r2[i].r() + self.edge(i, es3@[i2 as int]) by { self.lem_el_edge(i3 as int, n, m, f, i); } }
//@ tail
    proof {
        assert forall|i: int, s: Seq<((NodeId, NodeId), Point)>| #![trigger ret_@[i], self.edges(i, s)] 0 <= i < 2 * self.nn() && entries_of(self.line_forces@, s) implies ret_@[i].r() == self.conc(i) + self.edges(i, s) by {
            let w = |e: ((NodeId, NodeId), Point)| self.edge(i, e); lem_order(self.line_forces@, s, es3@, w);
            rsum_eq(|k: int| w(es3@[k]), |k: int| self.edge(i, es3@[k]), es3@.len() as int);
            assert(self.edges(i, s) == tot(s, w));
        }
    }
//@ end
//@ fn ElementAssemblage::raw_to_node_disp -> res
//@ oneidx disp
//@ let node_disp : Vec<Point>
//@ requires
    self.wf(), forall|d: &DofTransform| d.of(self.constraints@) ==> #[trigger] d.free() <= raw_disp@.len(),
//@ ensures
    res@.len() == self.nn(), exists|d: DofTransform, y: Seq<R>| d.of(self.constraints@) && #[trigger] d.is_unbar(raw_disp@, y) && forall|n: int| 0 <= n < self.nn() ==> pair_at(#[trigger] res@[n], y, n),
//@ loop 0
    self.wf(), len0 == self.nn(), dof_disp@.len() == 2 * self.nn(), node_disp@.len() == k0, forall|n: int| 0 <= n < k0 ==> pair_at(#[trigger] node_disp@[n], dof_disp@, n),
//@ loop 1
    dof_disp@.len() == 2 * self.nn(), i0 < self.nn(), n.0 == i0, len1 == 2, disp.wf(), disp.n == 2, k1 > 0 ==> disp.c(0) == dof_disp@[2 * i0].r(), k1 > 1 ==> disp.c(1) == dof_disp@[2 * i0 + 1].r(),
//@ loop 1 after
    proof { assert(pair_at(disp, dof_disp@, i0 as int)); }
//@ tail
    proof { let d = constrainer; let y = dof_disp@; assert(d.of(self.constraints@) && d.is_unbar(raw_disp@, y)); assert(forall|n: int| 0 <= n < self.nn() ==> pair_at(#[trigger] ret_@[n], y, n)); }
//@ end
//@ fn ElementAssemblage::add_conc_force
//@ ensures
    *final(self) == (ElementAssemblage { concentrated_forces: final(self).concentrated_forces, ..*old(self) }), final(self).concentrated_forces@ == old(self).concentrated_forces@.insert(n, force),
//@ end
//@ fn ElementAssemblage::add_dist_line_force
//@ ensures
    *final(self) == (ElementAssemblage { line_forces: final(self).line_forces, ..*old(self) }), final(self).line_forces@ == old(self).line_forces@.insert((n, m), force),
//@ end
}
impl Element {
//@ fn Element::new -> res
//@ requires
    forall|k: int| 0 <= k < 3 ==> (#[trigger] node_ids@[k]).0 < elas.nn(),
//@ ensures
    res.node_ids == node_ids, res.material == elas.material, res.condition == elas.condition, forall|k: int| 0 <= k < 3 ==> #[trigger] res.node_points@[k] == elas.nodes@[node_ids@[k].0 as int],
//@ end
}
}
