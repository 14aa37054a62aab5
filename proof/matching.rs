// The two matching phases.
pub mod matching {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::matching_spec::*;
use crate::same_spec::*;
verus! {

//@item MatchingConfig
//@item LazyDescendantMap

impl<'a, T: DiffTree> LazyDescendantMap<'a, T> {
    //@fn LazyDescendantMap::new
    //@spec
        ensures r.tree == tree
    //@end
    //@fn LazyDescendantMap::get_or_compute sigonly
    //@attr #[verifier::external_body]
    //@spec
        requires self.tree.inv(), self.tree.s_has(node_id) // @C11
        ensures forall|x: NodeId| #[trigger] r@.contains(x) <==> self.tree.s_descendants(node_id).contains(x)
    //@end
}

//@fn match_subtrees loops=1
//@params tree_a tree_b a_id b_id matching
//@pat 0 a_child b_child
//@attr #[verifier::spinoff_prover]
//@spec
    requires
        trees(tree_a, tree_b), st(tree_a, tree_b, old(matching)),
        tree_a.s_has(a_id), tree_b.s_has(b_id), // @C11
        !in_op(tree_a, a_id), !in_op(tree_b, b_id), // @C10
        st_op(tree_a, tree_b, old(matching)), // @C10
        st_root(tree_a, tree_b, old(matching)), // @C14
        a_id == tree_a.s_root() <==> b_id == tree_b.s_root(), // @C14
        st_kind(tree_a, tree_b, old(matching)), // @C02
        faithful(tree_a, tree_b) ==> tree_a.s_hash(a_id) == tree_b.s_hash(b_id), // @C02 @C03
    ensures
        st(tree_a, tree_b, final(matching)), // @C01
        grew(*old(matching), *final(matching)),
        st_op(tree_a, tree_b, final(matching)), // @C10
        st_root(tree_a, tree_b, final(matching)), // @C14
        st_kind(tree_a, tree_b, final(matching)), // @C02
        forall|thr: f64| #[trigger] st_thr(tree_a, tree_b, thr, old(matching)) ==> st_thr(tree_a, tree_b, thr, final(matching)), // @C03
        frame(tree_a, tree_b, old(matching), final(matching), a_id, b_id), // @C09
        matched_call(tree_a, tree_b, old(matching), final(matching), a_id, b_id), // @C09
    decreases tree_a.s_height(a_id) // @C11
//@start
    proof { laws_here(tree_a, tree_b); kids_a(tree_a, tree_b, a_id); kids_b(tree_a, tree_b, b_id); }
    let ghost m_start = *matching;
    let ghost goal = same(tree_a, tree_b) && b_id == twin(tree_a, tree_b, a_id) && fresh(tree_a, tree_b, matching, a_id);
    proof {
        frame_none(tree_a, tree_b, matching, a_id, b_id);
        if goal { fresh_top(tree_a, tree_b, matching, a_id); twin_of(tree_a, tree_b, a_id); }
    }
//@before add 0
    let ghost m0 = *matching;
//@after add 0
    proof {
        add_st(tree_a, tree_b, m0, *matching, a_id, b_id); // @C01
        frame_add(tree_a, tree_b, &m0, matching, a_id, b_id); // @C09
        if goal { half_start(tree_a, tree_b, &m0, matching, a_id, b_id); } // @C09
        if faithful(tree_a, tree_b) { faithful_kids(tree_a, tree_b, a_id, b_id); }
        add_kind(tree_a, tree_b, m0, *matching, a_id, b_id); // @C02
        add_op(tree_a, tree_b, m0, *matching, a_id, b_id); // @C10
        add_root(tree_a, tree_b, m0, *matching, a_id, b_id); // @C14
        assert forall|thr: f64| #[trigger] st_thr(tree_a, tree_b, thr, &m_start) implies st_thr(tree_a, tree_b, thr, matching) by {
            add_thr(tree_a, tree_b, thr, m0, *matching, a_id, b_id); // @C03
        }
    }
//@loop 0 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching),
        grew(m_start, *matching),
        st_op(tree_a, tree_b, matching), // @C10
        st_root(tree_a, tree_b, matching), // @C14
        st_kind(tree_a, tree_b, matching), // @C02
        forall|thr: f64| #[trigger] st_thr(tree_a, tree_b, thr, &m_start) ==> st_thr(tree_a, tree_b, thr, matching), // @C03
        tree_a.s_has(a_id), tree_b.s_has(b_id), !in_op(tree_a, a_id), !in_op(tree_b, b_id),
        !tree_a.s_is_opaque(a_id), !tree_b.s_is_opaque(b_id), // @C10
        faithful(tree_a, tree_b) ==> tree_a.s_hash(a_id) == tree_b.s_hash(b_id),
        __s0@.len() <= tree_a.s_children(a_id).len(), __s0@.len() <= tree_b.s_children(b_id).len(),
        forall|i: int| 0 <= i < __s0@.len() ==> #[trigger] __s0@[i] == (tree_a.s_children(a_id)[i], tree_b.s_children(b_id)[i]), // @C02 @C03 @C09
        frame(tree_a, tree_b, &m_start, matching, a_id, b_id), // @C09
        goal ==> same(tree_a, tree_b) && b_id == twin(tree_a, tree_b, a_id),
        goal ==> __s0@.len() == tree_a.s_children(a_id).len(), // @C09
        goal ==> halfway(tree_a, tree_b, matching, a_id, __i0 as int), // @C09
//@loop 0 start
    let ghost mi = *matching;
    proof {
        kids_a(tree_a, tree_b, a_id); kids_b(tree_a, tree_b, b_id);
        if faithful(tree_a, tree_b) { faithful_kids(tree_a, tree_b, a_id, b_id); }
    }
//@loop 0 end
    proof {
        frame_more(tree_a, tree_b, &m_start, &mi, matching, a_id, b_id, tree_a.s_children(a_id)[__i0 - 1], tree_b.s_children(b_id)[__i0 - 1]); // @C09
        if goal { half_step(tree_a, tree_b, &mi, matching, a_id, b_id, __i0 - 1); } // @C09
    }
//@loop 0 after
    proof { if goal { half_end(tree_a, tree_b, matching, a_id, __i0 as int); } } // @C09
//@end

//@fn top_down_phase loops=3
//@params tree_a tree_b matching config
//@var candidates 0 tree_a.root()
//@pat 0 a_id b_id
//@pat 1 a_child
//@pat 2 b_child
//@attr #[verifier::spinoff_prover]
//@spec
    requires
        trees(tree_a, tree_b),
        old(matching).wf(), old(matching).pairs@.len() == 0,
    ensures
        st(tree_a, tree_b, final(matching)), // @C01
        st_op(tree_a, tree_b, final(matching)), // @C10
        st_root(tree_a, tree_b, final(matching)), // @C14
        st_kind(tree_a, tree_b, final(matching)), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, final(matching)), // @C03
        same_tall(tree_a, tree_b, config.min_height) ==> paired(tree_a, tree_b, final(matching), tree_a.s_root()), // @C09
//@start
    let ghost tall = same_tall(tree_a, tree_b, config.min_height);
    proof { fresh_root(tree_a, tree_b, matching); }
    proof { laws_here(tree_a, tree_b); start_all(tree_a, tree_b, config.similarity_threshold, *matching); }
//@before sort_by 0
    proof { assert(candidates@ =~= seq![(tree_a.s_root(), tree_b.s_root())]); }
//@loop 0 before
    proof {
        sorted_one(seq![(tree_a.s_root(), tree_b.s_root())], candidates@);
        cands_one(tree_a, tree_b, candidates@);
        assert(candidates@ =~= seq![(tree_a.s_root(), tree_b.s_root())]);
    }
//@loop 0 head
    invariant
        trees(tree_a, tree_b),
        cands(tree_a, tree_b, candidates@), // @C10 @C14
        st(tree_a, tree_b, matching), // @C01
        st_op(tree_a, tree_b, matching), // @C10
        st_root(tree_a, tree_b, matching), // @C14
        st_kind(tree_a, tree_b, matching), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, matching), // @C03
        tall == same_tall(tree_a, tree_b, config.min_height),
        tall ==> (candidates@ == seq![(tree_a.s_root(), tree_b.s_root())] && fresh(tree_a, tree_b, matching, tree_a.s_root()))
            || (candidates@.len() == 0 && paired(tree_a, tree_b, matching, tree_a.s_root())), // @C09
    ensures
        candidates@.len() == 0,
    decreases todo(tree_a, tree_b, candidates@) // @C11
//@loop 0 top
    let ghost c0 = candidates@;
//@loop 0 start
    let ghost c1 = candidates@;
    proof {
        assert(c0 =~= c1.push((a_id, b_id)));
        laws_here(tree_a, tree_b);
        cands_pop(tree_a, tree_b, c1, (a_id, b_id), c0);
        todo_pop(tree_a, tree_b, c1, (a_id, b_id), c0);
        if tall {
            assert(c0[c1.len() as int] == (a_id, b_id));
            assert(c1.len() == 0 && a_id == tree_a.s_root() && b_id == tree_b.s_root()); // @C09
            fresh_top(tree_a, tree_b, matching, a_id);
            twin_root(tree_a, tree_b);
            twin_of(tree_a, tree_b, a_id);
        }
        kids_a(tree_a, tree_b, a_id); kids_b(tree_a, tree_b, b_id);
    }
//@before add 0
    let ghost m0 = *matching;
//@after add 0
    proof {
        add_st(tree_a, tree_b, m0, *matching, a_id, b_id); // @C01
        add_kind(tree_a, tree_b, m0, *matching, a_id, b_id); // @C02
        add_thr(tree_a, tree_b, config.similarity_threshold, m0, *matching, a_id, b_id); // @C03
        add_op(tree_a, tree_b, m0, *matching, a_id, b_id); // @C10
        add_root(tree_a, tree_b, m0, *matching, a_id, b_id); // @C14
    }
//@loop 1 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching), !tall, // @C09
        cands(tree_a, tree_b, candidates@), // @C10 @C14
        cand(tree_a, tree_b, (a_id, b_id)), !tree_a.s_is_opaque(a_id), !tree_b.s_is_opaque(b_id), // @C10
        __s1@ == tree_a.s_children(a_id),
        __s1@.len() > 0 ==> tree_a.s_height(a_id) > 0,
        todo(tree_a, tree_b, candidates@) <= todo(tree_a, tree_b, c1)
            + (if tree_a.s_height(a_id) == 0 { 0 } else { rows(tree_a, tree_b, (tree_a.s_height(a_id) - 1) as nat, __s1@, tree_b.s_children(b_id), __i1 as nat) }), // @C11
//@loop 1 start
    let ghost c2 = candidates@;
    proof { laws_here(tree_a, tree_b); kids_a(tree_a, tree_b, a_id); kids_b(tree_a, tree_b, b_id); }
//@loop 2 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching), !tall, // @C09
        cands(tree_a, tree_b, candidates@), // @C10 @C14
        cand(tree_a, tree_b, (a_id, b_id)), !tree_a.s_is_opaque(a_id), !tree_b.s_is_opaque(b_id), // @C10
        tree_a.s_has(a_child), !in_op(tree_a, a_child), a_child != tree_a.s_root(), tree_a.s_height(a_child) < tree_a.s_height(a_id),
        __s2@ == tree_b.s_children(b_id),
        types_ok::<TA::Types>(),
        todo(tree_a, tree_b, candidates@) <= todo(tree_a, tree_b, c2)
            + row(tree_a, tree_b, (tree_a.s_height(a_id) - 1) as nat, a_child, __s2@, __i2 as nat), // @C11
//@loop 2 start
    proof {
        laws_here(tree_a, tree_b); kids_b(tree_a, tree_b, b_id);
        lemma_wt_le(tree_a, tree_b, tree_a.s_height(a_child) as nat, (tree_a.s_height(a_id) - 1) as nat, a_child, b_child);
        todo_push(tree_a, tree_b, candidates@, (a_child, b_child));
        cands_push(tree_a, tree_b, candidates@, (a_child, b_child)); // @C10
    }
//@end

//@fn ancestry_compatible loops=0
//@params a_id b_id tree_a tree_b matching
//@spec
    requires
        trees(tree_a, tree_b), st(tree_a, tree_b, matching),
        tree_a.s_has(a_id), tree_b.s_has(b_id), // @C11
//@start
    proof {
        laws_here(tree_a, tree_b); parent_a(tree_a, tree_b, a_id); parent_b(tree_a, tree_b, b_id);
        if tree_a.s_parent(a_id) is Some { partner_of_a(tree_a, tree_b, matching, tree_a.s_parent(a_id)->0); }
        if tree_b.s_parent(b_id) is Some { partner_of_b(tree_a, tree_b, matching, tree_b.s_parent(b_id)->0); }
        nobody_outside(tree_a, tree_b, matching);
    }
//@end

//@fn dice_coefficient loops=0
//@params a_id b_id matching desc_a_map desc_b_map
//@var desc_a 0 desc_a_map.get_or_compute
//@var desc_b 0 desc_b_map.get_or_compute
//@spec
    requires
        trees(desc_a_map.tree, desc_b_map.tree),
        desc_a_map.tree.s_has(a_id), desc_b_map.tree.s_has(b_id), // @C11
//@start
    proof { laws_here(desc_a_map.tree, desc_b_map.tree); }
//@after get_or_compute 1
    proof { desc_len(desc_a_map.tree, desc_b_map.tree, desc_a@, desc_b@, a_id, b_id); }
//@end

//@fn bottom_up_phase loops=9
//@params tree_a tree_b matching config
//@var desc_a 0 LazyDescendantMap::new(tree_a)
//@var desc_b 0 LazyDescendantMap::new(tree_b)
//@pat 0 a_id
//@pat 1 desc
//@pat 2 b_id
//@pat 3 desc
//@pat 4 b_id
//@pat 5 a_id
//@pat 6 b_id
//@pat 7 a_id
//@pat 8 b_id
//@attr #[verifier::spinoff_prover]
//@spec
    requires
        trees(tree_a, tree_b),
        st(tree_a, tree_b, old(matching)), // @C01
        st_op(tree_a, tree_b, old(matching)), // @C10
        st_root(tree_a, tree_b, old(matching)), // @C14
        st_kind(tree_a, tree_b, old(matching)), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, old(matching)), // @C03
    ensures
        st(tree_a, tree_b, final(matching)), // @C01
        grew(*old(matching), *final(matching)),
        st_op(tree_a, tree_b, final(matching)), // @C10
        st_kind(tree_a, tree_b, final(matching)), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, final(matching)), // @C03
        root_done(tree_a, tree_b, config.similarity_threshold, final(matching)), // @C14
//@start
    let ghost m_start = *matching;
    proof { laws_here(tree_a, tree_b); f64_cmp(); }
//@loop 0 head
    invariant
        trees(tree_a, tree_b), __s0@ == tree_a.s_iter(),
        op_set(tree_a, opaque_descendants_a@, __s0@, __i0 as int), // @C10
//@loop 0 start
    let ghost oa0 = opaque_descendants_a@;
    proof { laws_here(tree_a, tree_b); }
//@loop 1 head
    invariant
        trees(tree_a, tree_b), tree_a.s_has(a_id), __s1@ == tree_a.s_descendants(a_id),
        op_set_in(tree_a, opaque_descendants_a@, oa0, a_id, __s1@, __i1 as int), // @C10
//@loop 0 end
    proof { op_set_grow(tree_a, opaque_descendants_a@, oa0, __s0@, __i0 - 1); } // @C10
//@loop 0 after
    proof { op_done_a(tree_a, tree_b, opaque_descendants_a@); } // @C10
//@loop 2 head
    invariant
        trees(tree_a, tree_b), __s2@ == tree_b.s_iter(),
        op_set(tree_b, opaque_descendants_b@, __s2@, __i2 as int), // @C10
//@loop 2 start
    let ghost ob0 = opaque_descendants_b@;
    proof { laws_here(tree_a, tree_b); }
//@loop 3 head
    invariant
        trees(tree_a, tree_b), tree_b.s_has(b_id), __s3@ == tree_b.s_descendants(b_id),
        op_set_in(tree_b, opaque_descendants_b@, ob0, b_id, __s3@, __i3 as int), // @C10
//@loop 2 end
    proof { op_set_grow(tree_b, opaque_descendants_b@, ob0, __s2@, __i2 - 1); } // @C10
//@loop 2 after
    proof { op_done_b(tree_a, tree_b, opaque_descendants_b@); } // @C10
//@loop 4 before
    proof { by_kind_empty(tree_b, b_by_kind@); }
//@loop 4 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching), __s4@ == tree_b.s_iter(),
        op_exact(tree_b, opaque_descendants_b@), // @C10
        by_kind(tree_b, b_by_kind@), // @C02 @C10
//@loop 4 start
    let ghost k0 = b_by_kind@;
    proof { laws_here(tree_a, tree_b); }
//@after entry_or_default_push 0
    proof { by_kind_push(tree_b, k0, b_by_kind@, *tree_b.s_kind(b_id), b_id); } // @C02 @C10
//@loop 5 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching), // @C01
        st_op(tree_a, tree_b, matching), // @C10
        st_kind(tree_a, tree_b, matching), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, matching), // @C03
        grew(m_start, *matching),
        __s5@ == tree_a.s_iter(),
        desc_a.tree == tree_a, desc_b.tree == tree_b,
        op_exact(tree_a, opaque_descendants_a@), // @C10
        by_kind(tree_b, b_by_kind@), // @C02 @C10
        __i5 == 0 ==> st_root(tree_a, tree_b, matching), // @C14
        __i5 > 0 ==> root_done(tree_a, tree_b, config.similarity_threshold, matching), // @C14
//@loop 5 start
    proof {
        laws_here(tree_a, tree_b); f64_cmp();
        parent_a(tree_a, tree_b, a_id);
        if tree_a.s_parent(a_id) is Some {
            partner_of_a(tree_a, tree_b, matching, tree_a.s_parent(a_id)->0);
            if matching.s_get_b(tree_a.s_parent(a_id)->0) is Some { kids_b(tree_a, tree_b, matching.s_get_b(tree_a.s_parent(a_id)->0)->0); }
        }
        if __i5 == 1 { root_in(tree_a, tree_b, matching); }
        by_kind_get(tree_b, b_by_kind@, *tree_a.s_kind(a_id));
    }
//@before add 0
    let ghost m0 = *matching;
//@after add 0
    proof {
        let p = matching.pairs@.last();
        add_st(tree_a, tree_b, m0, *matching, p.0, p.1); // @C01
        add_kind(tree_a, tree_b, m0, *matching, p.0, p.1); // @C02
        ge_not_lt(tree_a.s_properties(p.0).s_similarity(tree_b.s_properties(p.1)), config.similarity_threshold);
        add_thr(tree_a, tree_b, config.similarity_threshold, m0, *matching, p.0, p.1); // @C03
        add_op(tree_a, tree_b, m0, *matching, p.0, p.1); // @C10
    }
//@before add 1
    let ghost m0 = *matching;
//@after add 1
    proof {
        let p = matching.pairs@.last();
        add_st(tree_a, tree_b, m0, *matching, p.0, p.1); // @C01
        add_kind(tree_a, tree_b, m0, *matching, p.0, p.1); // @C02
        ge_not_lt(tree_a.s_properties(p.0).s_similarity(tree_b.s_properties(p.1)), config.similarity_threshold);
        add_thr(tree_a, tree_b, config.similarity_threshold, m0, *matching, p.0, p.1); // @C03
        add_op(tree_a, tree_b, m0, *matching, p.0, p.1); // @C10
    }
//@loop 6 pre
    proof { assert(__s6@ =~= bucket(b_by_kind@, *tree_a.s_kind(a_id))); } // @C02 @C10
//@loop 6 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching),
        desc_a.tree == tree_a, desc_b.tree == tree_b,
        tree_a.s_has(a_id), a_props == tree_a.s_properties(a_id),
        forall|i: int| 0 <= i < __s6@.len() ==> tree_b.s_has(#[trigger] __s6@[i]) && *tree_b.s_kind(__s6@[i]) == *tree_a.s_kind(a_id) && !in_op(tree_b, __s6@[i]),
        best is Some ==> tree_b.s_has((best->0).0) && !matching.s_contains_b((best->0).0), // @C01
        best is Some ==> same_kind(tree_a, tree_b, a_id, (best->0).0), // @C02
        best is Some ==> alike(tree_a, tree_b, config.similarity_threshold, a_id, (best->0).0), // @C03
        best is Some ==> !in_op(tree_b, (best->0).0), // @C10
//@loop 6 start
    proof { laws_here(tree_a, tree_b); f64_cmp(); }
//@before add 2
    let ghost m0 = *matching;
//@after add 2
    proof {
        let p = matching.pairs@.last();
        add_st(tree_a, tree_b, m0, *matching, p.0, p.1); // @C01
        add_kind(tree_a, tree_b, m0, *matching, p.0, p.1); // @C02
        ge_not_lt(tree_a.s_properties(p.0).s_similarity(tree_b.s_properties(p.1)), config.similarity_threshold);
        add_thr(tree_a, tree_b, config.similarity_threshold, m0, *matching, p.0, p.1); // @C03
        add_op(tree_a, tree_b, m0, *matching, p.0, p.1); // @C10
    }
//@loop 7 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching), // @C01
        st_op(tree_a, tree_b, matching), // @C10
        st_kind(tree_a, tree_b, matching), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, matching), // @C03
        grew(m_start, *matching),
        __s7@ == tree_a.s_iter(),
        op_exact(tree_a, opaque_descendants_a@), // @C10
        by_kind(tree_b, b_by_kind@), // @C02 @C10
        root_done(tree_a, tree_b, config.similarity_threshold, matching), // @C14
//@loop 7 start
    proof {
        laws_here(tree_a, tree_b); f64_cmp();
        parent_a(tree_a, tree_b, a_id);
        if tree_a.s_parent(a_id) is Some {
            partner_of_a(tree_a, tree_b, matching, tree_a.s_parent(a_id)->0);
            if matching.s_get_b(tree_a.s_parent(a_id)->0) is Some { kids_b(tree_a, tree_b, matching.s_get_b(tree_a.s_parent(a_id)->0)->0); }
        }
        by_kind_get(tree_b, b_by_kind@, *tree_a.s_kind(a_id));
    }
//@before add 3
    let ghost m0 = *matching;
//@after add 3
    proof {
        let p = matching.pairs@.last();
        add_st(tree_a, tree_b, m0, *matching, p.0, p.1); // @C01
        add_kind(tree_a, tree_b, m0, *matching, p.0, p.1); // @C02
        ge_not_lt(tree_a.s_properties(p.0).s_similarity(tree_b.s_properties(p.1)), config.similarity_threshold);
        add_thr(tree_a, tree_b, config.similarity_threshold, m0, *matching, p.0, p.1); // @C03
        add_op(tree_a, tree_b, m0, *matching, p.0, p.1); // @C10
    }
//@loop 8 pre
    proof { assert(__s8@ =~= bucket(b_by_kind@, *tree_a.s_kind(a_id))); } // @C02 @C10
//@loop 8 head
    invariant
        trees(tree_a, tree_b), st(tree_a, tree_b, matching),
        tree_a.s_has(a_id), a_props == tree_a.s_properties(a_id), a_hash == tree_a.s_hash(a_id),
        forall|i: int| 0 <= i < __s8@.len() ==> tree_b.s_has(#[trigger] __s8@[i]) && *tree_b.s_kind(__s8@[i]) == *tree_a.s_kind(a_id) && !in_op(tree_b, __s8@[i]),
        best is Some ==> tree_b.s_has(best->0) && !matching.s_contains_b(best->0), // @C01
        best is Some ==> same_kind(tree_a, tree_b, a_id, best->0), // @C02
        best is Some ==> alike(tree_a, tree_b, config.similarity_threshold, a_id, best->0), // @C03
        best is Some ==> !in_op(tree_b, best->0), // @C10
//@loop 8 start
    proof { laws_here(tree_a, tree_b); f64_cmp(); }
//@before add 4
    let ghost m0 = *matching;
//@after add 4
    proof {
        let p = matching.pairs@.last();
        add_st(tree_a, tree_b, m0, *matching, p.0, p.1); // @C01
        add_kind(tree_a, tree_b, m0, *matching, p.0, p.1); // @C02
        ge_not_lt(tree_a.s_properties(p.0).s_similarity(tree_b.s_properties(p.1)), config.similarity_threshold);
        add_thr(tree_a, tree_b, config.similarity_threshold, m0, *matching, p.0, p.1); // @C03
        add_op(tree_a, tree_b, m0, *matching, p.0, p.1); // @C10
    }
//@end

//@fn compute_matching loops=0
//@params tree_a tree_b config
//@spec
    requires
        trees(tree_a, tree_b),
    ensures
        st(tree_a, tree_b, &r), // @C01
        st_op(tree_a, tree_b, &r), // @C10
        st_kind(tree_a, tree_b, &r), // @C02
        st_thr(tree_a, tree_b, config.similarity_threshold, &r), // @C03
        root_done(tree_a, tree_b, config.similarity_threshold, &r), // @C14
        same_tall(tree_a, tree_b, config.min_height) ==> paired(tree_a, tree_b, &r, tree_a.s_root()), // @C09
//@before bottom_up_phase 0
    let ghost m1 = matching;
//@after bottom_up_phase 0
    proof { if same_tall(tree_a, tree_b, config.min_height) { paired_grew(tree_a, tree_b, &m1, &matching, tree_a.s_root()); } } // @C09
//@end

} // verus!
}
