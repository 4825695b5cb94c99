#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@helpers smtp-message/src/byteslice.rs
//@include view_fns.rs
} // verus!
fn main() {}
