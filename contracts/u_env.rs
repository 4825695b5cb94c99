#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@include dep_map.rs
//@include dep_net.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
//@helpers @msg
//@contracts eat_fns.rs from words
//@proved domain_spec.rs in domain
//@contracts domain_fns.rs from domain
//@proved email_spec.rs in email
//@contracts email_fns.rs from email
//@proved params_spec.rs in params
//@contracts params_fns.rs from params
//@include env_spec.rs
//@include env_fns.rs
} // verus!
fn main() {}
