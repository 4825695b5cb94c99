#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@include parse_spec.rs
//@helpers @msg
//@include eat_fns.rs
//@include words_fns.rs
} // verus!
fn main() {}
