#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_write.rs
//@include dep_iter.rs
//@contracts string_fns.rs from string
//@contracts reply_fns.rs from reply
impl vstd::std_specs::ops::AddSpecImpl<SmtpString> for SmtpString {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: SmtpString) -> bool { true }
    open spec fn add_spec(self, rhs: SmtpString) -> SmtpString { arbitrary() }
}
impl core::ops::Add<SmtpString> for SmtpString {
    type Output = SmtpString;
    //@fn smtp-message/src/smtpstring.rs <Add for SmtpString>::add params=self,rhs loops=0
    fn add(self, rhs: SmtpString) -> (r: SmtpString)
        ensures r@ == self@ + rhs@,
    //@end
}
impl ReplyCode {
    //@const smtp-message/src/reply.rs ReplyCode::SERVICE_READY
    //@const smtp-message/src/reply.rs ReplyCode::OKAY
    //@const smtp-message/src/reply.rs ReplyCode::START_MAIL_INPUT
    //@const smtp-message/src/reply.rs ReplyCode::BAD_SEQUENCE
    //@const smtp-message/src/reply.rs ReplyCode::COMMAND_UNIMPLEMENTED
    //@const smtp-message/src/reply.rs ReplyCode::COMMAND_UNRECOGNIZED
}
//@type smtp-server/src/decision.rs Refusal
//@type smtp-server/src/decision.rs Decision
// what the filters see plays no part here
#[verifier::external_body] pub struct MailMetadata { _p: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(U)] pub struct ConnectionMetadata<U> { _p: Option<U> }
// a configuration that overrides nothing; the host name is the user's
#[verifier::external_body] pub struct Defaults { _p: u8 }
impl Defaults {
    pub uninterp spec fn host(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn hostname(&self) -> (r: SmtpString) ensures r@ == self.host() { unimplemented!() }
    //@fn smtp-server/src/config.rs Config::new_mail params=self loops=0
    pub fn new_mail(&mut self)
        ensures *final(self) == *old(self),
    //@end
    //@fn smtp-server/src/config.rs Config::filter_data params=self,meta,conn_meta loops=0
    pub fn filter_data<U>(&mut self, meta: &mut MailMetadata, conn_meta: &mut ConnectionMetadata<U>) -> (r: Decision)
        ensures r is Accept, *final(self) == *old(self), *final(meta) == *old(meta), *final(conn_meta) == *old(conn_meta),
    //@end
    //@fn smtp-server/src/config.rs Config::banner params=self loops=0
    pub fn banner(&self) -> (r: SmtpString)
    //@end
    //@fn smtp-server/src/config.rs Config::welcome_banner params=self loops=0
    pub fn welcome_banner(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 220, r.1@.len() >= self.host().len(), r.1@.take(self.host().len() as int) == self.host(),
            r.1@.len() > self.host().len() ==> r.1@[self.host().len() as int] == 32,
    //@end
    //@fn smtp-server/src/config.rs Config::okay params=self loops=0
    pub fn okay(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 250, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::mail_okay params=self loops=0
    pub fn mail_okay(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 250, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::rcpt_okay params=self loops=0
    pub fn rcpt_okay(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 250, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::data_okay params=self loops=0
    pub fn data_okay(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 354, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::mail_accepted params=self loops=0
    pub fn mail_accepted(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 250, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::bad_sequence params=self loops=0
    pub fn bad_sequence(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 503, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::already_in_mail params=self loops=0
    pub fn already_in_mail(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 503, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::rcpt_before_mail params=self loops=0
    pub fn rcpt_before_mail(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 503, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::data_before_rcpt params=self loops=0
    pub fn data_before_rcpt(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 503, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::data_before_mail params=self loops=0
    pub fn data_before_mail(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 503, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::command_unimplemented params=self loops=0
    pub fn command_unimplemented(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 502, legal_reply_text(r.1@),
    //@end
    //@fn smtp-server/src/config.rs Config::command_unrecognized params=self loops=0
    pub fn command_unrecognized(&self) -> (r: (ReplyCode, SmtpString))
        ensures r.0.code == 500, legal_reply_text(r.1@),
    //@end
}
pub open spec fn legal_reply_text(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> legal_byte(#[trigger] s[i]) }
} // verus!
fn main() {}
