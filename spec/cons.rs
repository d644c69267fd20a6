//@ include prelude.rs
verus! {
//@ enum Constraint #[derive(Clone, Copy)]
//@ struct NodeId #[derive(Clone, Copy)]
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Point { }
pub trait VIntoPoint: Sized { fn v_clone(&self) -> Self; fn v_into(self) -> Point; }
//@ struct ElementAssemblage only nodes constraints

// the coordinate directions a constraint fixes
pub open spec fn fixes(c: Constraint, dim: int) -> bool {
    match c { Constraint::XFixed => dim == 0, Constraint::YFixed => dim == 1, Constraint::XYFixed => dim == 0 || dim == 1, _ => false }
}
pub open spec fn plain(c: Constraint) -> bool { fixes(c, 0) || fixes(c, 1) }
pub open spec fn angled(c: Constraint) -> bool { c is AngleFixed }
pub open spec fn angle(c: Constraint) -> real { c->AngleFixed_0.r() }

// what adding c to a node constrained by o has to give
pub open spec fn merges(o: Constraint, c: Constraint, f: Constraint) -> bool {
    &&& forall|d: int| 0 <= d < 2 ==> (#[trigger] fixes(f, d) <==> fixes(o, d) || fixes(c, d))
    &&& c is Free ==> f == o
    &&& o is Free && angled(c) ==> f == c
    &&& angled(o) && angled(c) ==> angled(f) && angle(f) == (angle(o) + angle(c)) / 2real
}

impl Constraint {
//@ fn Constraint::is_plain -> res
//@ ensures
    res == plain(*self),
//@ end
//@ fn Constraint::plain_dim_struck -> res
//@ ensures
    dim < 2 ==> res == fixes(*self, dim as int),
//@ end
}
impl ElementAssemblage {
//@ fn ElementAssemblage::add_nodes -> res
//@ sig
    pub fn add_nodes<T: VIntoPoint>(&mut self, ns: &[T]) -> (res: Vec<NodeId>)
//@ requires
    old(self).nodes@.len() == old(self).constraints@.len(), old(self).nodes@.len() + ns@.len() <= usize::MAX,
//@ let acc1 : Vec<NodeId>
//@ ensures
    final(self).constraints@.len() == old(self).constraints@.len() + ns@.len(),
    final(self).nodes@.len() == final(self).constraints@.len(),
    forall|k: int| 0 <= k < old(self).constraints@.len() ==> #[trigger] final(self).constraints@[k] == old(self).constraints@[k],
    forall|k: int| old(self).constraints@.len() <= k < final(self).constraints@.len() ==> #[trigger] final(self).constraints@[k] is Free,
    res@.len() == ns@.len(),
    forall|k: int| 0 <= k < ns@.len() ==> (#[trigger] res@[k]).0 == old(self).constraints@.len() + k,
//@ loop 0
    self.nodes@.len() == self.constraints@.len(),
    self.constraints@.len() == old(self).constraints@.len() + k0,
    forall|k: int| 0 <= k < old(self).constraints@.len() ==> #[trigger] self.constraints@[k] == old(self).constraints@[k],
    forall|k: int| old(self).constraints@.len() <= k < self.constraints@.len() ==> #[trigger] self.constraints@[k] is Free,
//@ loop 1
    acc1@.len() == k1,
    forall|k: int| 0 <= k < k1 ==> (#[trigger] acc1@[k]).0 == old(self).constraints@.len() + k,
//@ end
//@ fn ElementAssemblage::constraints -> res
//@ let acc0 : Vec<(NodeId, Constraint)>
//@ ensures
    res@.len() == self.constraints@.len(),
    forall|k: int| 0 <= k < res@.len() ==> (#[trigger] res@[k]).0.0 == k && res@[k].1 == self.constraints@[k],
//@ loop 0
    acc0@.len() == k0,
    forall|k: int| 0 <= k < k0 ==> (#[trigger] acc0@[k]).0.0 == k && acc0@[k].1 == self.constraints@[k],
//@ end
//@ fn ElementAssemblage::add_constraint
//@ requires
    n.0 < old(self).constraints@.len(),
//@ ensures
    final(self).constraints@.len() == old(self).constraints@.len(),
    forall|k: int| 0 <= k < old(self).constraints@.len() && k != n.0 ==> #[trigger] final(self).constraints@[k] == old(self).constraints@[k],
    merges(old(self).constraints@[n.0 as int], constraint, final(self).constraints@[n.0 as int]),
//@ end
}

// ---- whole histories: s[0] is the fresh node, s[i + 1] what adding c[i] made of s[i]
pub open spec fn history(s: Seq<Constraint>, c: Seq<Constraint>) -> bool {
    s.len() == c.len() + 1 && s[0] is Free && forall|i: int| 0 <= i < c.len() ==> #[trigger] merges(s[i], c[i], s[i + 1])
}
pub proof fn fixed_stays_fixed(s: Seq<Constraint>, c: Seq<Constraint>, d: int)
    requires history(s, c), 0 <= d < 2,
    ensures fixes(s.last(), d) <==> exists|i: int| 0 <= i < c.len() && fixes(#[trigger] c[i], d),
    decreases c.len(),
{
    if c.len() > 0 {
        let c1 = c.drop_last();
        let s1 = s.drop_last();
        assert forall|i: int| 0 <= i < c1.len() implies #[trigger] merges(s1[i], c1[i], s1[i + 1]) by { assert(merges(s[i], c[i], s[i + 1])); }
        fixed_stays_fixed(s1, c1, d);
        let n = c.len() - 1;
        assert(merges(s[n], c[n], s[n + 1]));
        if exists|i: int| 0 <= i < c.len() && fixes(#[trigger] c[i], d) {
            let i = choose|i: int| 0 <= i < c.len() && fixes(#[trigger] c[i], d);
            if i < n { assert(c1[i] == c[i]); }
        }
        if exists|i: int| 0 <= i < c1.len() && fixes(#[trigger] c1[i], d) {
            let i = choose|i: int| 0 <= i < c1.len() && fixes(#[trigger] c1[i], d);
            assert(c[i] == c1[i]);
        }
    }
}
// plain wins over angled in either order; x and y in either order fix both
pub proof fn precedence(o: Constraint, c: Constraint, f: Constraint)
    requires merges(o, c, f),
    ensures plain(o) || plain(c) ==> plain(f) && !angled(f),
        plain(o) && angled(c) ==> forall|d: int| 0 <= d < 2 ==> fixes(f, d) == fixes(o, d),
        angled(o) && plain(c) ==> forall|d: int| 0 <= d < 2 ==> fixes(f, d) == fixes(c, d),
        o is XFixed && c is YFixed || o is YFixed && c is XFixed ==> f is XYFixed,
{
    assert(fixes(f, 0) <==> fixes(o, 0) || fixes(c, 0));
    assert(fixes(f, 1) <==> fixes(o, 1) || fixes(c, 1));
}
}
