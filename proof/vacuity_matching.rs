// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
pub mod vacuity_matching {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::matching_spec::*;
use crate::matching::*;
verus! {

#[verifier::rlimit(3)]
pub fn must_fail_compute<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, c: &MatchingConfig)
    requires
        trees(ta, tb), faithful(ta, tb), roots_alike(ta, tb, c.similarity_threshold),
{
    let m = compute_matching(ta, tb, c);
    proof { laws_here(ta, tb); }
    let r = ta.root();
    let x = m.get_b(r);
    assert(x == Some(tb.s_root()));
    proof { reveal(trees); reveal(st); reveal(st_kind); reveal(st_thr); reveal(st_op); }
    assert(m.wf());
    assert(false);
}

} // verus!
}
