#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
// nom 3.2.1's own parser of one CRLF, on the views it is used with (its declared contract: dep_parse.rs)
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
use nom::ErrorKind;
pub mod nom_own { use super::*; use vstd::prelude::*;
//@fn @nom/nom.rs crlf params=input loops=0
pub fn crlf<'a>(input: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires input.wf(),
    ensures took(input, r, p_tag(input.v(), CRLF())),
//@end
}
} // verus!
fn main() {}
