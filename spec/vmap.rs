//@ include prelude.rs
verus! {
// ---- the standard map, as far as it is used; entries come in no particular order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VMap<K, V> { k: core::marker::PhantomData<(K, V)> }
pub open spec fn entries_of<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> m.dom().contains((#[trigger] s[k]).0) && m[s[k].0] == s[k].1
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> #[trigger] s[k].0 != #[trigger] s[l].0
    &&& forall|x: K| #[trigger] m.dom().contains(x) ==> exists|k: int| 0 <= k < s.len() && #[trigger] s[k].0 == x
}
impl<K, V> VMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (res: Self) ensures res@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get(&self, k: &K) -> (res: Option<&V>) ensures match res { Some(v) => self@.dom().contains(*k) && self@[*k] == *v, None => !self@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K, v: V) -> (res: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entry_or(&mut self, k: K, v: V) -> (res: &mut V)
        ensures *res == (if old(self)@.dom().contains(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(res)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_drain(&mut self) -> (res: Vec<(K, V)>) ensures entries_of(old(self)@, res@), final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_remove(&mut self, k: &K) -> (res: Option<V>) ensures final(self)@ == old(self)@.remove(*k), match res { Some(v) => old(self)@.dom().contains(*k) && old(self)@[*k] == v, None => !old(self)@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains_key(&self, k: &K) -> (res: bool) ensures res == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_entries(&self) -> (res: Vec<(K, V)>) ensures entries_of(self@, res@) { unimplemented!() }
}
//@ type HashMap VMap
//@ call HashMap::new VMap::new
}
