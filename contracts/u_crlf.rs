#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_write.rs
//@include dep_iter.rs
//@thread poll_next send send_all next next_crlf_line : Tracked(&mut *tr)
//@helpers smtp-server/src/crlflines.rs smtp-message/src/streamext/prependable.rs
//@include string_fns.rs
//@include reply_fns.rs
pub struct MailV { _p: u8 }  // what addresses are plays no part here
//@include ev_session.rs
//@include dep_next.rs
//@include crlf_fns.rs
} // verus!
fn main() {}
