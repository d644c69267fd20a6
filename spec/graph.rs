//@ include perm.rs
verus! {
//@ struct Graph
// std: removes each element equal to the one before it
pub open spec fn dd_map<T>(a: Seq<T>, b: Seq<T>, ix: Seq<int>) -> bool {
    ix.len() == b.len() && (forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] < #[trigger] ix[j]) && forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] ix[i] < a.len() && b[i] == a[ix[i]]
}
pub trait VDedup<T> { spec fn dsq(&self) -> Seq<T>;
    fn v_dedup(&mut self) ensures exists|ix: Seq<int>| #[trigger] dd_map(old(self).dsq(), final(self).dsq(), ix),
        forall|k: int| 0 <= k < final(self).dsq().len() - 1 ==> #[trigger] final(self).dsq()[k] != final(self).dsq()[k + 1],
        forall|k: int| 0 <= k < old(self).dsq().len() ==> final(self).dsq().contains(#[trigger] old(self).dsq()[k]); }
impl VDedup<(usize, usize)> for Vec<(usize, usize)> { open spec fn dsq(&self) -> Seq<(usize, usize)> { self@ }
    #[verifier::external_body]
    fn v_dedup(&mut self) { self.dedup() } }
//@ method dedup v_dedup
// the length hint of an iterator over a vector of pairs, whose length is below half of the address space
#[verifier::external_body]
pub fn v_size_hint() -> (res: (usize, Option<usize>)) ensures res.0 <= usize::MAX / 2 { unimplemented!() }
pub trait VReverse<T> { spec fn vsq(&self) -> Seq<T>; fn v_reverse(&mut self) ensures final(self).vsq() == old(self).vsq().reverse(); }
impl VReverse<usize> for Vec<usize> { open spec fn vsq(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn v_reverse(&mut self) { self.reverse() } }
//@ method reverse v_reverse
pub open spec fn gl_le(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn gl_ord(a: (usize, usize), b: (usize, usize)) -> Ordering { if a == b { Ordering::Equal } else if gl_le(a, b) { Ordering::Less } else { Ordering::Greater } }
// what the list of edges says
pub open spec fn glisted(es: Seq<(usize, usize)>, v: int, w: int) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).0 == v && es[k].1 == w }
pub open spec fn upto(es: Seq<(usize, usize)>, m: int, v: int, w: int) -> bool { exists|k: int| 0 <= k < m && (#[trigger] es[k]).0 == v && es[k].1 == w }
pub open spec fn joined(es: Seq<(usize, usize)>, v: int, w: int) -> bool { v != w && (glisted(es, v, w) || glisted(es, w, v)) }
pub open spec fn inb(es: Seq<(usize, usize)>, n: int) -> bool { forall|k: int| 0 <= k < es.len() ==> (#[trigger] es[k]).0 < n && es[k].1 < n }
pub open spec fn ecut(s: Seq<(usize, usize)>, q: int, x: int) -> bool {
    0 <= x <= s.len() && (forall|k: int| 0 <= k < x ==> (#[trigger] s[k]).0 < q) && (forall|k: int| x <= k < s.len() ==> (#[trigger] s[k]).0 >= q)
}
pub open spec fn strictly(s: Seq<(usize, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> gl_le(#[trigger] s[i], #[trigger] s[j]) && s[i] != s[j] }
pub proof fn lem_strict(a: Seq<(usize, usize)>, b: Seq<(usize, usize)>)
    requires forall|i: int, j: int| 0 <= i < j < a.len() ==> gl_le(#[trigger] a[i], #[trigger] a[j]), exists|ix: Seq<int>| #[trigger] dd_map(a, b, ix), forall|k: int| 0 <= k < b.len() - 1 ==> #[trigger] b[k] != b[k + 1],
    ensures strictly(b), forall|k: int| 0 <= k < b.len() ==> a.contains(#[trigger] b[k]),
{
    let ix = choose|ix: Seq<int>| #[trigger] dd_map(a, b, ix);
    assert forall|k: int| 0 <= k < b.len() implies a.contains(#[trigger] b[k]) by { assert(a[ix[k]] == b[k]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies gl_le(#[trigger] b[i], #[trigger] b[j]) && b[i] != b[j] by {
        assert(ix[i] < ix[j]); assert(b[i] == a[ix[i]] && b[j] == a[ix[j]]);
        assert(ix[i] < ix[i + 1] && b[i + 1] == a[ix[i + 1]]); assert(gl_le(b[i], b[i + 1]) && b[i] != b[i + 1]);
        if i + 1 < j { assert(ix[i + 1] < ix[j]); assert(gl_le(b[i + 1], b[j])); }
    }
}
impl Graph {
    pub open spec fn n(&self) -> int { self.indices@.len() as int }
    pub open spec fn st(&self, v: int) -> int { self.indices@[v] as int }
    pub open spec fn en(&self, v: int) -> int { if v + 1 < self.n() { self.indices@[v + 1] as int } else { self.adjacent@.len() as int } }
    pub open spec fn wf(&self) -> bool {
        self.n() < usize::MAX && (forall|v: int| 0 <= v < self.n() ==> 0 <= #[trigger] self.st(v) <= self.en(v) <= self.adjacent@.len()) && forall|k: int| 0 <= k < self.adjacent@.len() ==> #[trigger] self.adjacent@[k] < self.n()
    }
    pub open spec fn at_edge(&self, v: int, w: int, k: int) -> bool { self.st(v) <= k < self.en(v) && self.adjacent@[k] == w }
    pub open spec fn edge(&self, v: int, w: int) -> bool { exists|k: int| #[trigger] self.at_edge(v, w, k) }
    // the neighbours of every vertex are distinct and in increasing order
    pub open spec fn sorted(&self) -> bool { forall|v: int, i: int, j: int| 0 <= v < self.n() && #[trigger] self.st(v) <= i < j < self.en(v) ==> #[trigger] self.adjacent@[i] < #[trigger] self.adjacent@[j] }
    pub open spec fn same(&self, o: &Graph) -> bool { self.adjacent@ == o.adjacent@ && self.indices@ == o.indices@ }
    pub open spec fn sym(&self) -> bool { forall|v: int, w: int| #![trigger self.edge(v, w)] 0 <= v < self.n() && 0 <= w < self.n() ==> self.edge(v, w) == self.edge(w, v) }
}
pub proof fn lem_graph(g: &Graph, s: Seq<(usize, usize)>, n: int)
    requires g.n() == n, n < usize::MAX, strictly(s), inb(s, n), g.adjacent@.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] g.adjacent@[k] == s[k].1, forall|q: int| 0 <= q < n ==> ecut(s, q, #[trigger] g.indices@[q] as int),
    ensures g.wf(), g.sorted(), forall|v: int, w: int| #![trigger g.edge(v, w)] 0 <= v < n ==> g.edge(v, w) == glisted(s, v, w),
{
    assert forall|v: int| 0 <= v < n implies 0 <= #[trigger] g.st(v) <= g.en(v) <= g.adjacent@.len() && ecut(s, v, g.st(v)) && ecut(s, v + 1, g.en(v)) by {
        assert(ecut(s, v, g.indices@[v] as int));
        if v + 1 < n { assert(ecut(s, v + 1, g.indices@[v + 1] as int)); }
        if g.st(v) > g.en(v) { assert(s[g.en(v)].0 < v); }
    }
    assert forall|k: int| 0 <= k < g.adjacent@.len() implies #[trigger] g.adjacent@[k] < n by { assert(s[k].1 < n); }
    assert forall|v: int, i: int, j: int| 0 <= v < g.n() && #[trigger] g.st(v) <= i < j < g.en(v) implies #[trigger] g.adjacent@[i] < #[trigger] g.adjacent@[j] by { assert(s[i].0 == v && s[j].0 == v); assert(s[i] != s[j]); }
    assert forall|v: int, w: int| #![trigger g.edge(v, w)] 0 <= v < n implies g.edge(v, w) == glisted(s, v, w) by {
        assert(0 <= g.st(v) <= g.en(v));
        if g.edge(v, w) { let k = choose|k: int| #[trigger] g.at_edge(v, w, k); assert(s[k].0 == v); }
        if glisted(s, v, w) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == v && s[k].1 == w; assert(g.at_edge(v, w, k)); }
    }
}
#[verifier::opaque]
pub open spec fn both(es: Seq<(usize, usize)>, m: int, a: Seq<(usize, usize)>) -> bool { forall|v: int, w: int| #[trigger] glisted(a, v, w) == (v != w && (upto(es, m, v, w) || upto(es, m, w, v))) }
pub proof fn lem_both(es: Seq<(usize, usize)>, e1: Seq<(usize, usize)>, e2: Seq<(usize, usize)>, s: Seq<(usize, usize)>, n: int)
    requires both(es, es.len() as int, e1), rearranged(e1, e2), inb(e1, n), forall|i: int, j: int| 0 <= i < j < e2.len() ==> gl_le(#[trigger] e2[i], #[trigger] e2[j]), exists|ix: Seq<int>| #[trigger] dd_map(e2, s, ix),
        forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] s[k] != s[k + 1], forall|k: int| 0 <= k < e2.len() ==> s.contains(#[trigger] e2[k]),
    ensures strictly(s), inb(s, n), forall|v: int, w: int| #[trigger] glisted(s, v, w) == joined(es, v, w),
{
    reveal(both); lem_rearr_list(e1, e2); lem_same_list(e1, e2); lem_strict(e2, s); lem_same_list(e2, s);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 < n && s[k].1 < n by { assert(e2.contains(s[k])); let j = choose|j: int| 0 <= j < e2.len() && e2[j] == s[k]; assert(e1.contains(e2[j])); }
    assert forall|v: int, w: int| #[trigger] glisted(s, v, w) == joined(es, v, w) by { assert(glisted(s, v, w) == glisted(e2, v, w)); assert(glisted(e2, v, w) == glisted(e1, v, w)); assert(upto(es, es.len() as int, v, w) == glisted(es, v, w) && upto(es, es.len() as int, w, v) == glisted(es, w, v)); }
}
pub proof fn lem_both0(es: Seq<(usize, usize)>) ensures both(es, 0, Seq::empty()) { reveal(both); }
// pushing both directions of one more edge
pub proof fn lem_push(es: Seq<(usize, usize)>, m: int, a: Seq<(usize, usize)>, b: Seq<(usize, usize)>)
    requires 0 <= m < es.len(), es[m].0 == es[m].1 ==> b == a, es[m].0 != es[m].1 ==> b == a.push(es[m]).push((es[m].1, es[m].0)),
        both(es, m, a),
    ensures both(es, m + 1, b),
{
    reveal(both);
    assert forall|v: int, w: int| #[trigger] upto(es, m + 1, v, w) == (upto(es, m, v, w) || (es[m].0 == v && es[m].1 == w)) by {
        if upto(es, m + 1, v, w) { let k = choose|k: int| 0 <= k < m + 1 && (#[trigger] es[k]).0 == v && es[k].1 == w; if k < m { assert(es[k].0 == v); } }
        if upto(es, m, v, w) { let k = choose|k: int| 0 <= k < m && (#[trigger] es[k]).0 == v && es[k].1 == w; assert(es[k].0 == v); }
    }
    if es[m].0 != es[m].1 {
        assert forall|v: int, w: int| #[trigger] glisted(b, v, w) == (glisted(a, v, w) || (es[m].0 == v && es[m].1 == w) || (es[m].1 == v && es[m].0 == w)) by {
            let l = a.len() as int;
            if glisted(b, v, w) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == v && b[k].1 == w; if k < l { assert(a[k].0 == v); } }
            if glisted(a, v, w) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == v && a[k].1 == w; assert(b[k].0 == v); }
            assert(b[l] == es[m] && b[l + 1] == (es[m].1, es[m].0));
        }
    }
}
pub proof fn lem_same_list(a: Seq<(usize, usize)>, b: Seq<(usize, usize)>)
    requires forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k]), forall|k: int| 0 <= k < b.len() ==> a.contains(#[trigger] b[k]),
    ensures forall|v: int, w: int| #[trigger] glisted(a, v, w) == glisted(b, v, w),
{
    assert forall|v: int, w: int| #[trigger] glisted(a, v, w) == glisted(b, v, w) by {
        if glisted(a, v, w) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == v && a[k].1 == w; assert(b.contains(a[k])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[k]; assert(b[j].0 == v); }
        if glisted(b, v, w) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == v && b[k].1 == w; assert(a.contains(b[k])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[k]; assert(a[j].0 == v); }
    }
}
pub proof fn lem_rearr_list(a: Seq<(usize, usize)>, b: Seq<(usize, usize)>)
    requires rearranged(a, b),
    ensures forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k]), forall|k: int| 0 <= k < b.len() ==> a.contains(#[trigger] b[k]),
{
    let p = choose|p: Seq<int>| #[trigger] rearranges(p, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]];
    assert forall|k: int| 0 <= k < a.len() implies b.contains(#[trigger] a[k]) by { assert(hits(p, k)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k; assert(b[i] == a[k]); }
    assert forall|k: int| 0 <= k < b.len() implies a.contains(#[trigger] b[k]) by { assert(a[p[k]] == b[k]); }
}
impl Graph {
//@ fn Graph::from_edges -> res
//@ sig
    pub fn from_edges(v_count: usize, edge_iter: Vec<(usize, usize)>) -> (res: Self)
//@ let sort0 : |q0: &(usize, usize), q1: &(usize, usize)| -> (o: Ordering) ensures o == gl_ord(*q0, *q1)
//@ requires
    inb(edge_iter@, v_count as int), v_count < usize::MAX,
//@ ensures
    res.wf(), res.sorted(), res.sym(), res.n() == v_count, forall|v: int, w: int| #![trigger res.edge(v, w)] 0 <= v < v_count ==> res.edge(v, w) == joined(edge_iter@, v, w),
//@ start
    let ghost es = edge_iter@; let ghost n = v_count as int;
//@ loop 0 before
    proof { lem_both0(es); }
//@ loop 0
    edge_iter@ == es, inb(es, n), v_count == n, both(es, k0 as int, edges@), inb(edges@, n),
//@ loop 0 start
    let ghost e0 = edges@;
    proof { lem_push(es, i0 as int, e0, if es[i0 as int].0 != es[i0 as int].1 { e0.push(es[i0 as int]).push((es[i0 as int].1, es[i0 as int].0)) } else { e0 }); }
//@ before edges.sort_by
    let ghost e1 = edges@;
//@ after edges.sort_by
    let ghost e2 = edges@;
//@ after edges.dedup
    let ghost s = edges@;
    proof { lem_both(es, e1, e2, s, n); }
//@ loop 1
    edges@ == s, strictly(s), inb(s, n), v_count == n, res.adjacent@.len() == k1, forall|k: int| 0 <= k < k1 ==> #[trigger] res.adjacent@[k] == s[k].1,
    res.indices@.len() <= n, forall|q: int| 0 <= q < res.indices@.len() ==> ecut(s, q, #[trigger] res.indices@[q] as int), k1 > 0 ==> res.indices@.len() == s[k1 - 1].0 + 1, k1 == 0 ==> res.indices@.len() == 0,
//@ loop 1 start
    proof { assert(s[i1 as int].0 < n); if i1 > 0 { assert(gl_le(s[i1 - 1], s[i1 as int])); } }
//@ loop 2
    edges@ == s, strictly(s), res.adjacent@.len() == i1, v_count == n, x == s[i1 as int].0, x < n, i1 < s.len(), forall|k: int| 0 <= k < i1 ==> #[trigger] res.adjacent@[k] == s[k].1, res.indices@.len() <= x + 1,
    forall|q: int| 0 <= q < res.indices@.len() ==> ecut(s, q, #[trigger] res.indices@[q] as int), i1 > 0 ==> res.indices@.len() >= s[i1 - 1].0 + 1,
    decreases x + 1 - res.indices@.len(),
//@ loop 2 start
    proof {
        let q = res.indices@.len() as int;
        assert forall|k: int| 0 <= k < i1 implies (#[trigger] s[k]).0 < q by { if k < i1 - 1 { assert(gl_le(s[k], s[i1 - 1])); } }
        assert forall|k: int| i1 <= k < s.len() implies (#[trigger] s[k]).0 >= q by { if k > i1 { assert(gl_le(s[i1 as int], s[k])); } }
        assert(ecut(s, q, i1 as int));
    }
//@ before res.indices.resize
    let ghost rs0 = res.indices@;
//@ tail
    proof {
        assert forall|q: int| 0 <= q < n implies ecut(s, q, #[trigger] ret_.indices@[q] as int) by {
            if q < rs0.len() { assert(rs0[q] == ret_.indices@[q]); }
            else { assert(ret_.indices@[q] == s.len()); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 < q by { let l = s.len() - 1; if k < l { assert(gl_le(s[k], s[l])); } } }
        }
        lem_graph(&ret_, s, n);
        assert forall|v: int, w: int| #![trigger ret_.edge(v, w)] 0 <= v < n && 0 <= w < n implies ret_.edge(v, w) == ret_.edge(w, v) by { assert(joined(es, v, w) == joined(es, w, v)); }
    }
//@ end
//@ fn Graph::from_edges -> res
//@ as from_edges_any
//@ opt hidden
//@ diverge
//@ sig
    pub fn from_edges_any(v_count: usize, edge_iter: Vec<(usize, usize)>) -> (res: Self)
//@ let sort0 : |q0: &(usize, usize), q1: &(usize, usize)| -> (o: Ordering) ensures o == gl_ord(*q0, *q1)
//@ requires
    v_count < usize::MAX,
//@ ensures
    inb(edge_iter@, v_count as int), res.n() == v_count,
//@ start
    let ghost es = edge_iter@; let ghost n = v_count as int;
//@ loop 0
    edge_iter@ == es, v_count == n, forall|k: int| 0 <= k < k0 ==> (#[trigger] es[k]).0 < n && es[k].1 < n, inb(edges@, n),
//@ before edges.sort_by
    let ghost e1 = edges@;
//@ after edges.sort_by
    let ghost e2 = edges@;
    proof { lem_rearr_list(e1, e2); }
//@ after edges.dedup
    let ghost s = edges@;
    proof { lem_strict(e2, s); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 < n && s[k].1 < n by { assert(e2.contains(s[k])); let j = choose|j: int| 0 <= j < e2.len() && e2[j] == s[k]; assert(e1.contains(e2[j])); } }
//@ loop 1
    edges@ == s, inb(s, n), v_count == n, v_count < usize::MAX,
//@ loop 2
    x < usize::MAX,
    decreases x + 1 - res.indices@.len(),
//@ end
//@ fn Graph::vertex_count -> res
//@ ensures
    res == self.n(),
//@ end
//@ fn Graph::adj_idxs -> res
//@ requires
    self.wf(), v < self.n(),
//@ ensures
    res.0 == self.st(v as int), res.1 == self.en(v as int),
//@ end
//@ fn Graph::adjacent -> res
//@ requires
    self.wf(), v < self.n(),
//@ ensures
    res@ == self.adjacent@.subrange(self.st(v as int), self.en(v as int)),
//@ end
//@ fn Graph::degree -> res
//@ requires
    self.wf(), v < self.n(),
//@ ensures
    res == self.en(v as int) - self.st(v as int),
//@ end
}
// ---- distances
pub type V1 = spec_fn(int) -> bool;
impl Graph {
    // the vertices within d edges of the root
    pub open spec fn within(&self, root: int, d: int, v: int) -> bool decreases d { if d <= 0 { v == root } else { self.within(root, d - 1, v) || exists|u: int| 0 <= u < self.n() && self.within(root, d - 1, u) && #[trigger] self.edge(u, v) } }
    pub open spec fn reach(&self, root: int, v: int) -> bool { exists|d: int| 0 <= d && #[trigger] self.within(root, d, v) }
    // the breadth-first distance of v is d
    pub open spec fn dist(&self, root: int, d: int, v: int) -> bool { 0 <= d && self.within(root, d, v) && (d > 0 ==> !self.within(root, d - 1, v)) }
    pub proof fn lem_mono(&self, root: int, d: int, e: int, v: int)
        requires 0 <= d <= e, self.within(root, d, v),
        ensures self.within(root, e, v),
        decreases e,
    { if d < e { self.lem_mono(root, d, e - 1, v); } }
    // nothing new one edge further: nothing new any further
    pub proof fn lem_stop(&self, root: int, d: int, e: int, v: int)
        requires 0 <= d, 0 <= e, forall|w: int| #[trigger] self.within(root, d + 1, w) ==> self.within(root, d, w), self.within(root, e, v),
        ensures self.within(root, d, v),
        decreases e,
    {
        if e <= d { self.lem_mono(root, e, d, v); }
        else if self.within(root, e - 1, v) { self.lem_stop(root, d, e - 1, v); }
        else { let u = choose|u: int| 0 <= u < self.n() && self.within(root, e - 1, u) && #[trigger] self.edge(u, v); self.lem_stop(root, d, e - 1, u); assert(self.within(root, d + 1, v)); }
    }
    pub proof fn lem_same_within(&self, o: &Graph, root: int, d: int, v: int)
        requires self.same(o),
        ensures self.within(root, d, v) == o.within(root, d, v), 
        decreases d,
    {
        if d > 0 { self.lem_same_within(o, root, d - 1, v);
            if self.within(root, d, v) && !self.within(root, d - 1, v) { let u = choose|u: int| 0 <= u < self.n() && self.within(root, d - 1, u) && #[trigger] self.edge(u, v); self.lem_same_within(o, root, d - 1, u); self.lem_same_edge(o, u, v); }
            if o.within(root, d, v) && !o.within(root, d - 1, v) { let u = choose|u: int| 0 <= u < o.n() && o.within(root, d - 1, u) && #[trigger] o.edge(u, v); self.lem_same_within(o, root, d - 1, u); self.lem_same_edge(o, u, v); }
        }
    }
    pub proof fn lem_same_edge(&self, o: &Graph, u: int, v: int)
        requires self.same(o),
        ensures self.edge(u, v) == o.edge(u, v), self.st(u) == o.st(u), self.en(u) == o.en(u),
    {
        if self.edge(u, v) { let k = choose|k: int| #[trigger] self.at_edge(u, v, k); assert(o.at_edge(u, v, k)); }
        if o.edge(u, v) { let k = choose|k: int| #[trigger] o.at_edge(u, v, k); assert(self.at_edge(u, v, k)); }
    }
}
pub open spec fn gcnt(m: Seq<bool>, k: int) -> int decreases k { if k <= 0 { 0 } else { gcnt(m, k - 1) + if m[k - 1] { 1int } else { 0 } } }
pub open spec fn mcnt(g: &Graph, m: Seq<bool>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { mcnt(g, m, a, b - 1) + if m[g.adjacent@[b - 1] as int] { 1int } else { 0 } } }
pub proof fn lem_gcnt_le(a: Seq<bool>, b: Seq<bool>, k: int)
    requires 0 <= k <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k && #[trigger] b[i] ==> a[i],
    ensures 0 <= gcnt(b, k) <= gcnt(a, k) <= k, forall|i: int| 0 <= i < k && #[trigger] a[i] && !b[i] ==> gcnt(b, k) < gcnt(a, k),
    decreases k,
{ if k > 0 { lem_gcnt_le(a, b, k - 1); } }
pub proof fn lem_gcnt_all(m: Seq<bool>, k: int)
    requires 0 <= k <= m.len(),
    ensures gcnt(m, k) <= k, gcnt(m, k) >= 0, forall|i: int| 0 <= i < k && !#[trigger] m[i] ==> gcnt(m, k) < k,
    decreases k,
{ if k > 0 { lem_gcnt_all(m, k - 1); } }
pub open spec fn in_seq(s: Seq<usize>, w: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == w }
// an ordering under construction: distinct vertices, which are those no longer marked
pub open spec fn ordered(s: Seq<usize>, m: Seq<bool>, n: int) -> bool {
    (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < n && !m[s[k] as int]) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]) && forall|w: int| 0 <= w < n && !#[trigger] m[w] ==> in_seq(s, w)
}
pub proof fn lem_put(s: Seq<usize>, m: Seq<bool>, n: int, a: int)
    requires ordered(s, m, n), m.len() == n, 0 <= a < n, m[a], n < usize::MAX,
    ensures ordered(s.push(a as usize), m.update(a, false), n),
{
    let s2 = s.push(a as usize); let m2 = m.update(a, false);
    assert forall|w: int| 0 <= w < n && !#[trigger] m2[w] implies in_seq(s2, w) by { if w == a { assert(s2[s.len() as int] == w); } else { assert(!m[w]); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == w; assert(s2[k] == w); } }
    assert forall|k: int| 0 <= k < s2.len() implies #[trigger] s2[k] < n && !m2[s2[k] as int] by { if k < s.len() { assert(s[k] < n); } }
}
pub proof fn lem_all_in(s: Seq<usize>, n: int)
    requires forall|w: int| 0 <= w < n ==> in_seq(s, w), n >= 0,
    ensures s.len() >= n,
{
    let q = image(s); let all = set_int_range(0, n); lemma_int_range(0, n); q.lemma_cardinality_of_set();
    assert forall|w: int| all.contains(w) implies q.to_set().contains(w) by { assert(in_seq(s, w)); let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == w; assert(q[k] == w); }
    lemma_len_subset(all, q.to_set());
}
pub proof fn lem_few(s: Seq<usize>, m: Seq<bool>, n: int)
    requires ordered(s, m, n), n >= 0,
    ensures s.len() <= n,
{
    let q = image(s); let all = set_int_range(0, n); lemma_int_range(0, n); assert(q.no_duplicates()); q.unique_seq_to_set();
    assert(q.to_set().subset_of(all)); lemma_len_subset(q.to_set(), all);
}
impl Graph {
//@ fn Graph::adjacent_masked -> res
//@ requires
    old(self).wf(), old(self).sorted(), i < old(self).n(), mask@.len() == old(self).n(),
//@ ensures
    final(self).same(old(self)), forall|k: int| 0 <= k < res@.len() ==> old(self).edge(i as int, #[trigger] res@[k] as int) && mask@[res@[k] as int] && res@[k] < old(self).n(),
    forall|w: int| #[trigger] old(self).edge(i as int, w) && mask@[w] ==> in_seq(res@, w), forall|k: int, l: int| 0 <= k < l < res@.len() ==> #[trigger] res@[k] < #[trigger] res@[l],
//@ start
    let ghost g = *self; let ghost (a, b) = (self.st(i as int), self.en(i as int));
//@ loop 0
    self.same(&g), g.wf(), g.sorted(), i < g.n(), a == g.st(i as int), b == g.en(i as int), start == a, end == b, mask@.len() == g.n(),
    forall|k: int| 0 <= k < self.temp@.len() ==> g.edge(i as int, #[trigger] self.temp@[k] as int) && mask@[self.temp@[k] as int] && self.temp@[k] < g.n(),
    forall|k: int| 0 <= k < self.temp@.len() && a + k0 < b ==> #[trigger] self.temp@[k] < g.adjacent@[a + k0],
    forall|k: int, l: int| 0 <= k < l < self.temp@.len() ==> #[trigger] self.temp@[k] < #[trigger] self.temp@[l],
    forall|j: int| a <= j < a + k0 && mask@[#[trigger] g.adjacent@[j] as int] ==> in_seq(self.temp@, g.adjacent@[j] as int),
//@ loop 0 start
    let ghost t0 = self.temp@;
    proof { assert(g.st(i as int) <= a + i0 < g.en(i as int)); assert(g.at_edge(i as int, g.adjacent@[a + i0] as int, a + i0)); }
//@ loop 0 end
    proof {
        assert forall|j: int| a <= j < a + k0 && mask@[#[trigger] g.adjacent@[j] as int] implies in_seq(self.temp@, g.adjacent@[j] as int) by {
            let w = g.adjacent@[j] as int;
            if j < a + i0 { assert(in_seq(t0, w)); let k = choose|k: int| 0 <= k < t0.len() && #[trigger] t0[k] == w; assert(self.temp@[k] == w); } else { assert(self.temp@[self.temp@.len() - 1] == w); } }
        if a + k0 < b { assert(g.st(i as int) <= a + i0 < a + k0 < g.en(i as int)); assert(g.adjacent@[a + i0] < g.adjacent@[a + k0]); }
    }
//@ end
//@ fn Graph::degree_masked -> res
//@ requires
    self.wf(), v < self.n(), mask@.len() == self.n(),
//@ ensures
    res == mcnt(self, mask@, self.st(v as int), self.en(v as int)),
//@ loop 0 sum=usize
    self.wf(), v < self.n(), mask@.len() == self.n(), start == self.st(v as int), end == self.en(v as int), acc0 <= k0, acc0 == mcnt(self, mask@, start as int, start + k0),
//@ end
    // one level of the search: the vertices at distance d, and those visited so far
    pub open spec fn level(&self, root: int, d: int, s: Seq<usize>) -> bool { s.len() > 0 && (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < self.n() && self.dist(root, d, s[k] as int)) && forall|v: int| 0 <= v < self.n() && #[trigger] self.dist(root, d, v) ==> in_seq(s, v) }
    pub open spec fn masked(&self, root: int, d: int, m: Seq<bool>) -> bool { forall|v: int| 0 <= v < self.n() ==> #[trigger] m[v] == !self.within(root, d, v) }
    pub open spec fn closed(&self, root: int, d: int) -> bool { forall|w: int| #[trigger] self.within(root, d + 1, w) ==> self.within(root, d, w) }
    pub open spec fn grown(&self, root: int, d: int, m0: Seq<bool>, m: Seq<bool>, s: Seq<usize>) -> bool {
        (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < self.n() && m0[s[k] as int] && !m[s[k] as int] && self.within(root, d + 1, s[k] as int)) && forall|w: int| 0 <= w < self.n() ==> #[trigger] m[w] == (m0[w] && !in_seq(s, w))
    }
    pub open spec fn explored(&self, cur: Seq<usize>, k: int, m: Seq<bool>) -> bool { forall|j: int, w: int| 0 <= j < k && #[trigger] self.edge(cur[j] as int, w) ==> 0 <= w < self.n() && !m[w] }
    pub proof fn lem_same_wf(&self, g: &Graph)
        requires self.same(g), g.wf(), g.sorted(),
        ensures self.wf(), self.sorted(), self.n() == g.n(),
    {
        assert forall|v: int| 0 <= v < self.n() implies 0 <= #[trigger] self.st(v) <= self.en(v) <= self.adjacent@.len() by { assert(g.st(v) <= g.en(v)); }
        assert forall|v: int, i: int, j: int| 0 <= v < self.n() && #[trigger] self.st(v) <= i < j < self.en(v) implies #[trigger] self.adjacent@[i] < #[trigger] self.adjacent@[j] by { assert(g.st(v) <= i < j < g.en(v)); }
    }
    pub proof fn lem_grow(&self, root: int, d: int, m0: Seq<bool>, m: Seq<bool>, s: Seq<usize>, a: int, m2: Seq<bool>, s2: Seq<usize>)
        requires self.grown(root, d, m0, m, s), 0 <= a < self.n(), self.n() == m.len(), m.len() == m0.len(), m[a], self.within(root, d + 1, a), m2 == m.update(a, false), s2 == s.push(a as usize), self.n() < usize::MAX,
        ensures self.grown(root, d, m0, m2, s2),
    {
        assert forall|w: int| 0 <= w < self.n() implies #[trigger] m2[w] == (m0[w] && !in_seq(s2, w)) by {
            assert(m[w] == (m0[w] && !in_seq(s, w)));
            if in_seq(s, w) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == w; assert(s2[k] == w); }
            if w == a { assert(s2[s.len() as int] == w); }
            else if in_seq(s2, w) { let k = choose|k: int| 0 <= k < s2.len() && #[trigger] s2[k] == w; if k < s.len() { assert(s[k] == w); } }
        }
        assert forall|k: int| 0 <= k < s2.len() implies #[trigger] s2[k] < self.n() && m0[s2[k] as int] && !m2[s2[k] as int] && self.within(root, d + 1, s2[k] as int) by { if k < s.len() { assert(s[k] == s2[k]); assert(m[a] == (m0[a] && !in_seq(s, a))); } }
    }
    // after a level was explored: what was found is the next one, or there is none
    pub proof fn lem_level(&self, root: int, d: int, cur: Seq<usize>, m0: Seq<bool>, m: Seq<bool>, s: Seq<usize>)
        requires self.wf(), 0 <= root < self.n(), 0 <= d, self.level(root, d, cur), self.masked(root, d, m0), self.grown(root, d, m0, m, s), self.explored(cur, cur.len() as int, m), m0.len() == self.n(), m.len() == self.n(),
        ensures s.len() > 0 ==> self.level(root, d + 1, s) && self.masked(root, d + 1, m), s.len() == 0 ==> self.closed(root, d),
            forall|w: int| 0 <= w < self.n() && #[trigger] m[w] ==> m0[w],
    {
        assert forall|w: int| 0 <= w < self.n() && #[trigger] m[w] implies m0[w] by {}
        assert forall|w: int| #[trigger] self.within(root, d + 1, w) && !self.within(root, d, w) implies 0 <= w < self.n() && in_seq(s, w) by {
            let u = choose|u: int| 0 <= u < self.n() && self.within(root, d, u) && #[trigger] self.edge(u, w);
            if d > 0 && self.within(root, d - 1, u) { assert(self.within(root, d, w)); }
            assert(self.dist(root, d, u)); assert(in_seq(cur, u)); let j = choose|j: int| 0 <= j < cur.len() && #[trigger] cur[j] == u; assert(self.edge(cur[j] as int, w)); assert(!m[w]); assert(m0[w] == !self.within(root, d, w));
        }
        if s.len() > 0 {
            assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] < self.n() && self.dist(root, d + 1, s[k] as int) by { assert(m0[s[k] as int] == !self.within(root, d, s[k] as int)); }
            assert forall|v: int| 0 <= v < self.n() implies #[trigger] m[v] == !self.within(root, d + 1, v) by {
                assert(m0[v] == !self.within(root, d, v));
                if in_seq(s, v) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == v; assert(self.within(root, d + 1, v)); }
            }
        } else { assert forall|w: int| #[trigger] self.within(root, d + 1, w) implies self.within(root, d, w) by { if !self.within(root, d, w) { assert(in_seq(s, w)); } } }
    }
//@ fn Graph::far_node -> res
//@ let length : usize
//@ let acc3 : Option<usize>
//@ attr #[verifier::allow_complex_invariants]
//@ requires
    old(self).wf(), old(self).sorted(), root < old(self).n(),
//@ ensures
    final(self).same(old(self)), res.0 < old(self).n(), res.1 < old(self).n(), old(self).dist(root as int, res.1 as int, res.0 as int), forall|v: int| old(self).reach(root as int, v) ==> #[trigger] old(self).within(root as int, res.1 as int, v),
//@ start
    let ghost g = *self; let ghost n = self.n(); let ghost ro = root as int;
//@ loop 0 before
    proof { lem_gcnt_all(mask@, n); assert(!mask@[ro]); assert(g.within(ro, 0, ro)); assert(cur_level@[0] == ro); }
//@ loop 0
    invariant self.same(&g), g.wf(), g.sorted(), n == g.n(), ro == root, root < n, length < n, g.level(ro, length as int, cur_level@), mask@.len() == n, g.masked(ro, length as int, mask@), length + gcnt(mask@, n) <= n - 1, gcnt(mask@, n) >= 0,
    ensures g.closed(ro, length as int),
    decreases gcnt(mask@, n),
//@ loop 0 start
    let ghost m0 = mask@; let ghost cur = cur_level@; let ghost d = length as int;
//@ loop 1
    self.same(&g), g.wf(), g.sorted(), n == g.n(), ro == root, root < n, cur == cur_level@, d == length, g.level(ro, d, cur), mask@.len() == n, m0.len() == n, g.masked(ro, d, m0), g.grown(ro, d, m0, mask@, next_level@), g.explored(cur, k1 as int, mask@),
//@ loop 1 start
    proof { assert(g.dist(ro, d, cur[i1 as int] as int)); assert(g.within(ro, d, cur[i1 as int] as int)); self.lem_same_wf(&g); }
    let ghost gs = *self; let ghost vv = cur[i1 as int] as int;
    proof { assert forall|w: int| #[trigger] gs.edge(vv, w) == g.edge(vv, w) by { gs.lem_same_edge(&g, vv, w); } }
//@ loop 2 before
    let ghost m1 = mask@;
//@ loop 2
    g.wf(), n == g.n(), v == cur[i1 as int], v < n, g.dist(ro, d, v as int), mask@.len() == n, m1.len() == n, m0.len() == n, g.masked(ro, d, m0), g.grown(ro, d, m0, mask@, next_level@), forall|w: int| 0 <= w < n && #[trigger] mask@[w] ==> m1[w],
    forall|k: int, l: int| 0 <= k < l < adj@.len() ==> #[trigger] adj@[k] < #[trigger] adj@[l], forall|k: int| 0 <= k < adj@.len() ==> g.edge(v as int, #[trigger] adj@[k] as int) && m1[adj@[k] as int] && adj@[k] < n,
    forall|k: int| 0 <= k < k2 ==> !mask@[#[trigger] adj@[k] as int],
    forall|k: int| k2 <= k < adj@.len() ==> mask@[#[trigger] adj@[k] as int],
//@ loop 2 start
    let ghost (mb, nb) = (mask@, next_level@);
    proof { assert(g.edge(v as int, adj@[i2 as int] as int)); assert(g.within(ro, d + 1, adj@[i2 as int] as int)); assert(mask@[adj@[i2 as int] as int]); }
//@ loop 2 end
    proof { g.lem_grow(ro, d, m0, mb, nb, a as int, mask@, next_level@); }
//@ loop 2 after
    proof {
        assert forall|j: int, w: int| 0 <= j < k1 && #[trigger] g.edge(cur[j] as int, w) implies 0 <= w < n && !mask@[w] by {
            let kk = choose|kk: int| #[trigger] g.at_edge(cur[j] as int, w, kk); assert(g.level(ro, d, cur)); assert(g.dist(ro, d, cur[j] as int)); assert(g.st(cur[j] as int) <= g.en(cur[j] as int)); assert(g.adjacent@[kk] < n);
            if j < i1 { assert(!m1[w]); } else { assert(g.edge(v as int, w)); assert(gs.edge(vv, w)); if m1[w] { assert(in_seq(adj@, w)); let k = choose|k: int| 0 <= k < adj@.len() && #[trigger] adj@[k] == w; assert(!mask@[adj@[k] as int]); } }
        }
    }
//@ loop 1 after
    proof { g.lem_level(ro, d, cur, m0, mask@, next_level@); lem_gcnt_le(m0, mask@, n); if next_level@.len() > 0 { let w = next_level@[0] as int; assert(m0[w] && !mask@[w]); assert(gcnt(mask@, n) < gcnt(m0, n)); } }
//@ loop 3 before
    proof { assert forall|v: int| g.reach(ro, v) implies #[trigger] g.within(ro, length as int, v) by { let e = choose|e: int| 0 <= e && #[trigger] g.within(ro, e, v); g.lem_stop(ro, length as int, e, v); } self.lem_same_wf(&g); }
//@ loop 3
    self.wf(), self.n() == n, g.level(ro, length as int, cur_level@), n == g.n(), k3 > 0 ==> acc3 is Some, acc3 is Some ==> acc3->Some_0 < n && g.dist(ro, length as int, acc3->Some_0 as int),
//@ loop 3 start
    proof { assert(g.dist(ro, length as int, cur_level@[i3 as int] as int)); }
//@ end
//@ fn Graph::pseudo_peripheral -> res
//@ attr #[verifier::allow_complex_invariants]
//@ let x : usize
//@ let longest : usize
//@ requires
    old(self).wf(), old(self).sorted(), old(self).n() > 0,
//@ ensures
    final(self).same(old(self)), res < old(self).n(),
//@ start
    let ghost g = *self;
//@ loop 0
    invariant self.same(&g), g.wf(), g.sorted(), x < g.n(), longest < g.n(),
    decreases g.n() - longest,
//@ loop 0 start
    proof { self.lem_same_wf(&g); }
//@ end
//@ fn Graph::reverse_cuthill_mckee -> res
//@ requires
    old(self).wf(), old(self).sorted(), old(self).n() > 0,
//@ ensures
    final(self).same(old(self)), res.wf(), res.n() == old(self).n(),
//@ start
    let ghost g = *self; let ghost n = self.n();
//@ let ordering : Vec<usize>
//@ let acc1 : Option<usize>
//@ before mask[ordering[0]]
    proof { self.lem_same_wf(&g); }
//@ loop 0
    self.same(&g), g.wf(), g.sorted(), n == g.n(), mask@.len() == n, ordered(ordering@, mask@, n), ordering@.len() >= k0, ordering@.len() >= 1, len0 == n,
//@ loop 0 start
    proof { self.lem_same_wf(&g); }
    let ghost gs = *self;
//@ loop 1
    i == i0, i < n, mask@.len() == n, len1 == n, acc1 is None ==> forall|w: int| 0 <= w < k1 ==> !#[trigger] mask@[w], acc1 is Some ==> acc1->Some_0 < n && mask@[acc1->Some_0 as int],
//@ loop 1 after
    proof { if acc1 is None { assert forall|w: int| 0 <= w < n implies in_seq(ordering@, w) by { assert(!mask@[w]); } lem_all_in(ordering@, n); } lem_put(ordering@, mask@, n, acc1->Some_0 as int); }
//@ loop 2 before
    let ghost m1 = mask@;
//@ loop 2
    g.wf(), n == g.n(), i == i0, mask@.len() == n, ordered(ordering@, mask@, n), ordering@.len() >= i + 1, ordering@.len() >= 1,
    forall|k: int, l: int| 0 <= k < l < adj@.len() ==> #[trigger] adj@[k] < #[trigger] adj@[l], forall|k: int| 0 <= k < adj@.len() ==> #[trigger] adj@[k] < n,
    forall|k: int| k2 <= k < adj@.len() ==> mask@[#[trigger] adj@[k] as int],
//@ loop 2 start
    let ghost (mb, ob) = (mask@, ordering@);
    proof { assert(mask@[adj@[i2 as int] as int]); lem_put(ob, mb, n, adj@[i2 as int] as int); }
//@ loop 0 after
    proof { lem_few(ordering@, mask@, n); let o = ordering@; let r = o.reverse(); self.lem_same_wf(&g);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { assert(o[r.len() - 1 - j] != o[r.len() - 1 - i]); } 
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < n by { assert(o[r.len() - 1 - i] < n); } }
//@ end
}
}
