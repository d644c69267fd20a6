//@ include prelude.rs
use vstd::set_lib::*;
verus! {
//@ struct Permutation
// the standard set, as far as it is used: insert tells whether the value is new
#[verifier::external_body]
pub struct VSet { }
impl VSet {
    pub uninterp spec fn view(&self) -> Set<int>;
    #[verifier::external_body]
    pub fn new() -> (res: VSet) ensures res@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: &usize) -> (res: bool) ensures final(self)@ == old(self)@.insert(*x as int), res == !old(self)@.contains(*x as int) { unimplemented!() }
}
//@ call HashSet::new VSet::new

pub open spec fn valid(p: Seq<usize>) -> bool {
    (forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len())
    && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j])
}
pub open spec fn image(p: Seq<usize>) -> Seq<int> { p.map(|i: int, x: usize| x as int) }
// distinct values below the length are all the values below it
pub proof fn covers(p: Seq<usize>, x: int)
    requires valid(p), 0 <= x < p.len(),
    ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == x,
{
    let q = image(p);
    let n = p.len() as int;
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    let all = set_int_range(0, n);
    lemma_int_range(0, n);
    assert(q.to_set().subset_of(all));
    lemma_subset_equality(q.to_set(), all);
    assert(all.contains(x));
    assert(q.to_set().contains(x));
    let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
    assert(p[i] == x);
}

impl Permutation {
    pub open spec fn n(&self) -> nat { self.forward@.len() }
    pub open spec fn wf(&self) -> bool {
        &&& self.forward@.len() == self.back@.len()
        &&& forall|x: int| 0 <= x < self.forward@.len() ==> #[trigger] self.forward@[x] < self.forward@.len() && self.back@[self.forward@[x] as int] == x
        &&& forall|i: int| 0 <= i < self.back@.len() ==> #[trigger] self.back@[i] < self.back@.len() && self.forward@[self.back@[i] as int] == i
    }
//@ fn Permutation::from_placement -> res
//@ requires
    valid(p@),
//@ let acc0 : bool
//@ let items : VSet
//@ ensures
    res.wf(), res.back@ == p@,
//@ loop 0
    acc0,
    forall|x: int| #[trigger] items@.contains(x) <==> exists|i: int| 0 <= i < k0 && #[trigger] p@[i] == x,
//@ loop 1
    len == p@.len(), len1 == p@.len(),
    res.forward@.len() == len, res.back@.len() == len,
    forall|i: int| 0 <= i < k1 ==> #[trigger] res.back@[i] == p@[i] && res.forward@[p@[i] as int] == i,
//@ loop 1 start
    let ghost f0 = res.forward@; let ghost b0 = res.back@;
    proof { assert forall|i: int| 0 <= i < i1 implies #[trigger] b0[i] == p@[i] && f0[p@[i] as int] == i by { assert(res.back@[i] == p@[i]); } }
//@ loop 1 end
    proof { assert forall|i: int| 0 <= i < k1 implies #[trigger] res.back@[i] == p@[i] && res.forward@[p@[i] as int] == i by { if i != i1 { assert(0 <= i); assert(i < k1); assert(i < i1); assert(b0[i] == p@[i]); assert(f0[p@[i] as int] == i); assert(p@[i] != p@[i1 as int]); assert(res.forward@[p@[i] as int] == f0[p@[i] as int]); assert(res.back@[i] == b0[i]); } } }
//@ tail
    proof {
        assert(ret_.back@ =~= p@);
        assert forall|x: int| 0 <= x < ret_.forward@.len() implies #[trigger] ret_.forward@[x] < ret_.forward@.len() && ret_.back@[ret_.forward@[x] as int] == x by {
            covers(p@, x);
            let i = choose|i: int| 0 <= i < p@.len() && #[trigger] p@[i] == x;
            assert(ret_.back@[i] == p@[i]);
        }
    }
//@ end
//@ fn Permutation::from_placement -> res
//@ as from_placement_any
//@ opt hidden
//@ diverge
//@ let acc0 : bool
//@ let items : VSet
//@ ensures
    valid(p@), res.wf(), res.back@ == p@,
//@ loop 0
    forall|x: int| #[trigger] items@.contains(x) <==> exists|i: int| 0 <= i < k0 && #[trigger] p@[i] == x,
    acc0 ==> forall|i: int| 0 <= i < k0 ==> #[trigger] p@[i] < len,
    acc0 ==> forall|i: int, j: int| 0 <= i < j < k0 ==> #[trigger] p@[i] != #[trigger] p@[j],
//@ loop 1
    len == p@.len(), len1 == p@.len(),
    res.forward@.len() == len, res.back@.len() == len, valid(p@),
    forall|i: int| 0 <= i < k1 ==> #[trigger] res.back@[i] == p@[i] && res.forward@[p@[i] as int] == i,
//@ loop 1 start
    let ghost f0 = res.forward@; let ghost b0 = res.back@;
    proof { assert forall|i: int| 0 <= i < i1 implies #[trigger] b0[i] == p@[i] && f0[p@[i] as int] == i by { assert(res.back@[i] == p@[i]); } }
//@ loop 1 end
    proof { assert forall|i: int| 0 <= i < k1 implies #[trigger] res.back@[i] == p@[i] && res.forward@[p@[i] as int] == i by { if i != i1 { assert(0 <= i); assert(i < k1); assert(i < i1); assert(b0[i] == p@[i]); assert(f0[p@[i] as int] == i); assert(p@[i] != p@[i1 as int]); assert(res.forward@[p@[i] as int] == f0[p@[i] as int]); assert(res.back@[i] == b0[i]); } } }
//@ tail
    proof {
        assert(ret_.back@ =~= p@);
        assert forall|x: int| 0 <= x < ret_.forward@.len() implies #[trigger] ret_.forward@[x] < ret_.forward@.len() && ret_.back@[ret_.forward@[x] as int] == x by {
            covers(p@, x);
            let i = choose|i: int| 0 <= i < p@.len() && #[trigger] p@[i] == x;
            assert(ret_.back@[i] == p@[i]);
        }
    }
//@ end
//@ fn Permutation::identity -> res
//@ ensures
    res.wf(), res.n() == n, forall|x: int| 0 <= x < n ==> #[trigger] res.forward@[x] == x,
//@ loop 0
    acc0@.len() == k0,
    forall|x: int| 0 <= x < k0 ==> #[trigger] acc0@[x] == x,
//@ end
//@ fn Permutation::permute -> res
//@ requires
    self.wf(), x < self.n(),
//@ ensures
    res == self.forward@[x as int], res < self.n(), self.back@[res as int] == x,
//@ end
//@ fn Permutation::unpermute -> res
//@ requires
    self.wf(), x < self.n(),
//@ ensures
    res == self.back@[x as int], res < self.n(), self.forward@[res as int] == x,
//@ end
//@ fn Permutation::invert -> res
//@ requires
    self.wf(),
//@ ensures
    res.wf(), res.forward@ == self.back@, res.back@ == self.forward@,
//@ end
//@ fn Permutation::permute_slice
//@ sig
    pub fn permute_slice<T: Copy>(&self, vals: &mut [T])
//@ requires
    self.wf(), old(vals)@.len() == self.n(),
//@ ensures
    final(vals)@.len() == old(vals)@.len(),
    forall|i: int| 0 <= i < old(vals)@.len() ==> final(vals)@[self.forward@[i] as int] == #[trigger] old(vals)@[i],
//@ start
    let ghost v0 = vals@;
//@ loop 0
    acc0@.len() == k0, len0 == vals@.len(), vals@ == v0,
    forall|i: int| 0 <= i < k0 ==> #[trigger] acc0@[i] == v0[i],
//@ loop 1
    vals@.len() == self.n(), old@.len() == self.n(), old@ =~= v0, 
    forall|i: int| 0 <= i < k1 ==> vals@[self.forward@[i] as int] == #[trigger] old@[i],
//@ end
}
// applying a permutation and then its inverse restores every list
pub proof fn restores<T>(p: Permutation, q: Permutation, a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires p.wf(), q.forward@ == p.back@, q.back@ == p.forward@, a.len() == p.n(), b.len() == p.n(), c.len() == p.n(),
        forall|i: int| 0 <= i < a.len() ==> b[p.forward@[i] as int] == #[trigger] a[i],
        forall|i: int| 0 <= i < b.len() ==> c[q.forward@[i] as int] == #[trigger] b[i],
    ensures c =~= a,
{
    assert forall|x: int| 0 <= x < a.len() implies c[x] == a[x] by {
        let y = p.forward@[x] as int;
        assert(b[y] == a[x]);
        assert(c[q.forward@[y] as int] == b[y]);
    }
}
}
