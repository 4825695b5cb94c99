#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_write.rs
//@include dep_iter.rs
//@helpers smtp-message/src/reply.rs
//@include string_fns.rs
//@include send_trait.rs
//@include string_send.rs
//@include reply_fns.rs
impl ReplyCode {
    //@fn smtp-message/src/reply.rs ReplyCode::custom params=code loops=0 panics=allow
    pub fn custom(code: u16) -> (r: ReplyCode)
        ensures code < 1000, r.code == code,
    //@end
    //@fn smtp-message/src/reply.rs ReplyCode::code params=self loops=0
    pub fn code(&self) -> (r: u16)
        ensures r == self.code,
    //@end
}
// a code below 1000 is accepted: the check cannot fail
pub struct VxTotal;
impl VxTotal {
    //@fn smtp-message/src/reply.rs ReplyCode::custom params=code loops=0 panics=forbid
    pub fn custom(code: u16) -> (r: ReplyCode)
        requires code < 1000,
        ensures r.code == code,
    //@end
}
//@include reply_send.rs
// ---- theorems ----
proof fn vx_line_fits(r: ReplyLine)
    requires legal_text(r.line@),
    ensures reply_bytes(r).len() <= 512, reply_bytes(r).len() == 6 + r.line@.len(),
{}
// no text puts a line break on the wire: the only CRLF is the final one
proof fn vx_no_break(r: ReplyLine, i: int)
    requires legal_text(r.line@), reply_ok(r), 0 <= i < reply_bytes(r).len() - 2,
    ensures reply_bytes(r)[i] != 13, reply_bytes(r)[i] != 10,
{
    let b = reply_bytes(r);
    let c = r.code.code as int;
    assert(0 <= (c / 100) % 10 < 10 && 0 <= (c / 10) % 10 < 10 && 0 <= c % 10 < 10);
    if i >= 4 { assert(b[i] == r.line@[i - 4]); assert(legal_byte(r.line@[i - 4])); }
}
} // verus!
fn main() {}
