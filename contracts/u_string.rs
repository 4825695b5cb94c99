#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_write.rs
//@include dep_iter.rs
//@helpers smtp-message/src/smtpstring.rs smtp-message/src/sendable.rs
//@include string_fns.rs
//@include send_trait.rs
//@include vec_write.rs
//@include string_send.rs
impl SmtpString {
    //@fn smtp-message/src/smtpstring.rs SmtpString::from_sendable params=t loops=0
    pub fn from_sendable<T: Sendable>(t: &T) -> (r: io::Result<SmtpString>)
        ensures r is Ok, r->Ok_0@ == t.wire(),
    //@end
}
//@include string_from.rs
impl SmtpString {
//@fn smtp-message/src/smtpstring.rs <Add for SmtpString>::add params=self,rhs loops=0
pub fn add(self, rhs: SmtpString) -> (r: SmtpString)
    ensures r@ == self@ + rhs@,
//@end
}

//@include chunk_theorems.rs
} // verus!
fn main() {}
