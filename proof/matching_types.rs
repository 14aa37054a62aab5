// The Matching data structure: every method under contract.
pub mod matching_types {
use vstd::prelude::*;
use crate::prelude::*;
verus! {

//@item Matching

/// Table lookup by node index.
pub open spec fn look(v: Seq<Option<NodeId>>, x: NodeId) -> Option<NodeId> {
    if 0 <= x.ix() < v.len() { v[x.ix()] } else { None }
}

impl Matching {
    /// The partner of an old-tree node / of a new-tree node.
    pub open spec fn s_get_b(&self, a: NodeId) -> Option<NodeId> { look(self.a_to_b@, a) }
    pub open spec fn s_get_a(&self, b: NodeId) -> Option<NodeId> { look(self.b_to_a@, b) }
    pub open spec fn s_contains_a(&self, a: NodeId) -> bool { self.s_get_b(a) is Some }
    pub open spec fn s_contains_b(&self, b: NodeId) -> bool { self.s_get_a(b) is Some }

    /// Tables and pair list describe the same one-to-one correspondence.
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: int| #![trigger self.pairs@[k]] 0 <= k < self.pairs@.len() ==>
                self.s_get_b(self.pairs@[k].0) == Some(self.pairs@[k].1)
                && self.s_get_a(self.pairs@[k].1) == Some(self.pairs@[k].0)
        &&& forall|k: int, l: int| #![trigger self.pairs@[k], self.pairs@[l]] 0 <= k < l < self.pairs@.len() ==>
                self.pairs@[k].0.ix() != self.pairs@[l].0.ix() && self.pairs@[k].1.ix() != self.pairs@[l].1.ix()
        &&& forall|i: int| #![trigger self.a_to_b@[i]] 0 <= i < self.a_to_b@.len() && self.a_to_b@[i] is Some ==>
                exists|k: int| 0 <= k < self.pairs@.len() && (#[trigger] self.pairs@[k]).0.ix() == i && self.pairs@[k].1 == self.a_to_b@[i]->0
        &&& forall|i: int| #![trigger self.b_to_a@[i]] 0 <= i < self.b_to_a@.len() && self.b_to_a@[i] is Some ==>
                exists|k: int| 0 <= k < self.pairs@.len() && (#[trigger] self.pairs@[k]).1.ix() == i && self.pairs@[k].0 == self.b_to_a@[i]->0
    }

    //@fn Matching::new loops=0
    //@spec
        ensures
            r.wf(), // @C01
            r.pairs@.len() == 0, // @C01
            forall|x: NodeId| r.s_get_b(x) is None, // @C01
            forall|x: NodeId| r.s_get_a(x) is None, // @C01
    //@end

    //@fn Matching::with_capacity loops=0
    //@spec
        ensures
            r.wf(), // @C01
            r.pairs@.len() == 0, // @C01
            forall|x: NodeId| r.s_get_b(x) is None, // @C01
            forall|x: NodeId| r.s_get_a(x) is None, // @C01
    //@end

    //@fn Matching::add loops=0
    //@spec
        ensures
            final(self).pairs@ == old(self).pairs@.push((a, b)), // @C01
            forall|x: NodeId| #[trigger] final(self).s_get_b(x) == (if x.ix() == a.ix() { Some(b) } else { old(self).s_get_b(x) }), // @C01
            forall|x: NodeId| #[trigger] final(self).s_get_a(x) == (if x.ix() == b.ix() { Some(a) } else { old(self).s_get_a(x) }), // @C01
            old(self).wf() && !old(self).s_contains_a(a) && !old(self).s_contains_b(b) ==> final(self).wf(), // @C01
    //@tail
        proof {
            let o = *old(self);
            let n = *self;
            assert(n.pairs@[o.pairs@.len() as int] == (a, b));
            assert(0 <= a.ix() < n.a_to_b@.len() && 0 <= b.ix() < n.b_to_a@.len());
            assert forall|x: NodeId| #[trigger] n.s_get_b(x) == (if x.ix() == a.ix() { Some(b) } else { o.s_get_b(x) }) by {}
            assert forall|x: NodeId| #[trigger] n.s_get_a(x) == (if x.ix() == b.ix() { Some(a) } else { o.s_get_a(x) }) by {}
            if o.wf() && !o.s_contains_a(a) && !o.s_contains_b(b) {
                assert forall|k: int| #![trigger n.pairs@[k]] 0 <= k < n.pairs@.len() implies
                    n.s_get_b(n.pairs@[k].0) == Some(n.pairs@[k].1) && n.s_get_a(n.pairs@[k].1) == Some(n.pairs@[k].0) by {
                    if k < o.pairs@.len() { assert(n.pairs@[k] == o.pairs@[k]); }
                }
                assert forall|k: int, l: int| #![trigger n.pairs@[k], n.pairs@[l]] 0 <= k < l < n.pairs@.len() implies
                    n.pairs@[k].0.ix() != n.pairs@[l].0.ix() && n.pairs@[k].1.ix() != n.pairs@[l].1.ix() by {
                    assert(n.pairs@[k] == o.pairs@[k]);
                    if l < o.pairs@.len() { assert(n.pairs@[l] == o.pairs@[l]); }
                }
                assert forall|i: int| #![trigger n.a_to_b@[i]] 0 <= i < n.a_to_b@.len() && n.a_to_b@[i] is Some implies
                    exists|k: int| 0 <= k < n.pairs@.len() && (#[trigger] n.pairs@[k]).0.ix() == i && n.pairs@[k].1 == n.a_to_b@[i]->0 by {
                    if i != a.ix() {
                        assert(i < o.a_to_b@.len() && o.a_to_b@[i] is Some);
                        let k = choose|k: int| 0 <= k < o.pairs@.len() && (#[trigger] o.pairs@[k]).0.ix() == i && o.pairs@[k].1 == o.a_to_b@[i]->0;
                        assert(n.pairs@[k] == o.pairs@[k]);
                    }
                }
                assert forall|i: int| #![trigger n.b_to_a@[i]] 0 <= i < n.b_to_a@.len() && n.b_to_a@[i] is Some implies
                    exists|k: int| 0 <= k < n.pairs@.len() && (#[trigger] n.pairs@[k]).1.ix() == i && n.pairs@[k].0 == n.b_to_a@[i]->0 by {
                    if i != b.ix() {
                        assert(i < o.b_to_a@.len() && o.b_to_a@[i] is Some);
                        let k = choose|k: int| 0 <= k < o.pairs@.len() && (#[trigger] o.pairs@[k]).1.ix() == i && o.pairs@[k].0 == o.b_to_a@[i]->0;
                        assert(n.pairs@[k] == o.pairs@[k]);
                    }
                }
            }
        }
    //@end

    //@fn Matching::contains_a loops=0
    //@spec
        ensures r == self.s_contains_a(a) // @C01
    //@end
    //@fn Matching::contains_b loops=0
    //@spec
        ensures r == self.s_contains_b(b) // @C01
    //@end
    //@fn Matching::get_b loops=0
    //@spec
        ensures r == self.s_get_b(a) // @C01
    //@end
    //@fn Matching::get_a loops=0
    //@spec
        ensures r == self.s_get_a(b) // @C01
    //@end
    //@fn Matching::pairs loops=0
    //@spec
        ensures r@ == self.pairs@ // @C01
    //@end
    //@fn Matching::len loops=0
    //@spec
        ensures r == self.pairs@.len() // @C01
    //@end
    //@fn Matching::is_empty loops=0
    //@spec
        ensures r == (self.pairs@.len() == 0) // @C01
    //@end
}

} // verus!
}
