// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
pub mod vacuity_diff {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe::*;
use crate::replay::*;
use crate::matching_spec::*;
use crate::same_spec::*;
use crate::matching::*;
use crate::diff::*;
verus! {

#[verifier::rlimit(3)]
pub fn must_fail_same<T: DiffTree>(ta: &T, tb: &T, c: &MatchingConfig)
    requires
        tree_ok(ta), tree_ok(tb), ta.s_rooted(), tb.s_rooted(), faithful(ta, tb), same_tall(ta, tb, c.min_height), plain(ta, tb, c.similarity_threshold),
        props_len_ok::<<T::Types as TreeTypes>::Props>(), props_self_ok::<<T::Types as TreeTypes>::Props>(),
{
    let r = diff_trees_with_matching(ta, tb, c);
    assert(r.0@.len() == 0);
    assert(false);
}
#[verifier::rlimit(3)]
pub fn must_fail_plain<T: DiffTree>(ta: &T, tb: &T, c: &MatchingConfig)
    requires
        tree_ok(ta), tree_ok(tb), ta.s_rooted(), tb.s_rooted(), plain(ta, tb, c.similarity_threshold),
        props_len_ok::<<T::Types as TreeTypes>::Props>(),
{
    let r = diff_trees_with_matching(ta, tb, c);
    assert(r.1.s_get_b(ta.s_root()) == Some(tb.s_root()));
    assert(replays(ta, tb, &r.1, r.0@));
    assert(false);
}

} // verus!
}
