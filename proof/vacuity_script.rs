// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
pub mod vacuity {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe::*;
use crate::replay::*;
verus! {

pub fn must_fail_matching(a: NodeId, b: NodeId) {
    let mut m = Matching::with_capacity(10, 10);
    m.add(a, b);
    let x = m.get_b(a);
    let y = m.get_a(b);
    let z = m.contains_a(a) && m.contains_b(b);
    let n = m.len();
    let p = m.pairs();
    assert(m.wf());
    assert(n == 1);
    assert(x == Some(b));
    assert(z);
    assert(false);
}
#[verifier::rlimit(3)]
pub fn must_fail_script<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires
        tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), hung(ta, tb, m), props_len_ok::<<TA::Types as TreeTypes>::Props>(),
{
    let r = generate_edit_script(ta, tb, m);
    assert(r@.len() == 0 || phase(r@[0]) <= phase(r@[r@.len() - 1]));
    assert(false);
}
pub proof fn must_fail_replay<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), fit(ta, tb, m), script_all(ta, tb, m, ops), ops.len() > 3
    ensures false
{
    replay_all(ta, tb, m, ops);
    reveal(replays);
    reveal(fit);
    assert(can(tb, m, run(ta, tb, m, ops, 2), ops[2]));
}
pub fn must_fail_tree<T: DiffTree>(t: &T)
    requires tree_ok(t)
{
    let r = t.root();
    let h = t.height(r);
    let k = t.position(r);
    assert(k == 0);
    assert(false);
}

} // verus!
}
