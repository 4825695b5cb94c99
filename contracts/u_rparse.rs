#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
//@helpers smtp-message/src/reply.rs @msg
//@contracts reply_fns.rs from reply
impl ReplyCode {
    //@fn smtp-message/src/reply.rs ReplyCode::custom params=code loops=0 panics=forbid
    pub fn custom(code: u16) -> (r: ReplyCode)
        requires code < 1000,
        ensures r.code == code,
    //@end
}
//@include result_fns.rs
//@include rparse_spec.rs
//@include rparse_fns.rs
//@include rparse_theorems.rs
} // verus!
fn main() {}
