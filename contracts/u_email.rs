#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@include dep_net.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
//@proved domain_spec.rs in domain
//@helpers @msg
//@contracts domain_fns.rs from domain
//@include email_spec.rs
//@include email_fns.rs
} // verus!
fn main() {}
