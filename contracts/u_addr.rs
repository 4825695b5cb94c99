#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@include dep_net.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
//@proved domain_spec.rs in domain
//@helpers smtp-message/src/* @msg
//@contracts domain_fns.rs from domain
//@proved email_spec.rs in email
//@contracts email_fns.rs from email
//@include result_fns.rs
//@include addr_fns.rs
} // verus!
fn main() {}
