// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
pub mod vacuity_server {
use vstd::prelude::*;
use crate::prelude::*;
use crate::html_patch::*;
use crate::hotmeal::*;
use crate::html_server::*;
verus! {

#[verifier::rlimit(3)]
pub fn must_fail_server(s: &mut LiveReloadServer)
    requires old(s).html_cache@.contains_key("a"@), old(s).html_cache@["a"@] != "b"@, patches_of(old(s).html_cache@["a"@], "b"@) is Some,
        patches_of(old(s).html_cache@["a"@], "b"@)->0.len() > 1
{
    let r = s.diff_route("a", "b");
    assert(ev(r) is Some);
    let d = s.remove_route("b");
    let l = s.cached_routes();
    assert(false);
}
#[verifier::rlimit(3)]
pub fn must_fail_server_head(s: &mut LiveReloadServer)
{
    s.clear();
    let c = s.cache_head_injections("a", "b");
    assert(s.head_cache@.contains_key("a"@));
    let r = s.diff_route_with_head("a", "p", "b");
    assert(ev(r) is Some);
    assert(false);
}

} // verus!
}
