// ---- data streams as the session sees them --------------------------------------
//@type smtp-server/src/decision.rs Refusal
//@type smtp-server/src/decision.rs Decision
//@type smtp-server/src/metadata.rs MailMetadata
//@type smtp-server/src/metadata.rs ConnectionMetadata
pub open spec fn mvs(s: Seq<Email>) -> Seq<MailV> { s.map_values(|e: Email| e.mv()) }
pub broadcast proof fn mvs_push(s: Seq<Email>, e: Email) ensures #[trigger] mvs(s.push(e)) == mvs(s).push(e.mv()) { assert(mvs(s.push(e)) =~= mvs(s).push(e.mv())); }
pub open spec fn env(m: MailMetadata) -> Env { Env { from: mv_opt(m.from), to: mvs(m.to@) } }
// identity of the connection metadata's current value
pub uninterp spec fn tag<U>(c: ConnectionMetadata<U>) -> int;
pub open spec fn dec_of(d: Decision) -> Dec { match d { Decision::Accept => None, Decision::Reject(r) => Some((r.code.code as int, r.msg@)) } }
pub open spec fn legal_dec(d: Dec) -> bool { d matches Some((c, t)) ==> legal_reply(c, t) }
//@type smtp-message/src/data/stream.rs DataStreamState derive=Copy,Clone,PartialEq,Eq,Structural
//@type smtp-message/src/data/stream.rs DataStream generics='a,S:~Stream<Item=BytesMut>
impl<'a, S: Stream<Item = BytesMut>> DataStream<'a, S> {
    //@fn smtp-message/src/data/stream.rs DataStream::new params=source loops=0
    pub fn new(source: &mut Prependable<S>) -> (r: DataStream<'_, S>)
        ensures
            *r.source == *old(source), *final(source) == *final(r.source),
            fresh(r),
    //@end
    //@fn smtp-message/src/data/stream.rs DataStream::was_completed params=self loops=0
    pub fn was_completed(&self) -> (r: bool)
        ensures r == (self.state == DataStreamState::Completed),
    //@end
}
// nothing read yet
pub open spec fn fresh<S: Stream<Item = BytesMut>>(d: DataStream<S>) -> bool { d.state == DataStreamState::CrLfPassed && d.buf@.len() == 0 }
//@include data_spec.rs
// ---- assumed contract of the user's configuration: it is called through this interface only ---------
// Replies and refusals hold printable text and codes below 1000; the handler reads the message through
// the DataStream it is given; that whatever it does with that gives `data_got` is proved in unit stream
// (`vx_any_handler`).
pub open spec fn asked(a: Seq<Ev>, b: Seq<Ev>, q: Q, r: (ReplyCode, SmtpString)) -> bool {
    b == a.push(Ev::Ask(q, r.0.code as int, r.1@)) && legal_reply(r.0.code as int, r.1@)
}
// does the handler complete every message it is given? If so the session must not panic; if not it may,
// and must not go on.
pub uninterp spec fn obedient() -> bool;
#[verifier::external_body]
pub fn vx_check_if(b: bool) requires obedient() ==> b ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic_if() -> (r: ()) requires !obedient() ensures false { unimplemented!() }
pub fn vx_owed_if(b: bool) requires obedient() ==> b { }
pub trait Config<U> {
    fn new_mail(&mut self, Tracked(tr): Tracked<&mut Trace>)
        ensures final(tr)@ == old(tr)@.push(Ev::NewMail);
    fn filter_from(&mut self, from: &mut Option<Email>, conn_meta: &mut ConnectionMetadata<U>, Tracked(tr): Tracked<&mut Trace>) -> (r: Decision)
        ensures legal_dec(dec_of(r)), final(tr)@ == old(tr)@.push(Ev::From(FromEv {
            from0: mv_opt(*old(from)), from1: mv_opt(*final(from)), c0: tag(*old(conn_meta)), c1: tag(*final(conn_meta)), dec: dec_of(r) }));
    fn filter_to(&mut self, to: &mut Email, meta: &mut MailMetadata, conn_meta: &mut ConnectionMetadata<U>, Tracked(tr): Tracked<&mut Trace>) -> (r: Decision)
        ensures legal_dec(dec_of(r)), final(tr)@ == old(tr)@.push(Ev::To(ToEv {
            to0: old(to).mv(), to1: final(to).mv(), m0: env(*old(meta)), m1: env(*final(meta)), c0: tag(*old(conn_meta)), c1: tag(*final(conn_meta)), dec: dec_of(r) }));
    fn filter_data(&mut self, meta: &mut MailMetadata, conn_meta: &mut ConnectionMetadata<U>, Tracked(tr): Tracked<&mut Trace>) -> (r: Decision)
        ensures legal_dec(dec_of(r)), final(tr)@ == old(tr)@.push(Ev::Data(DataEv {
            m0: env(*old(meta)), m1: env(*final(meta)), c0: tag(*old(conn_meta)), c1: tag(*final(conn_meta)), dec: dec_of(r) }));
    fn handle_mail<'a, S: Stream<Item = BytesMut>>(&mut self, stream: &mut DataStream<'a, S>, meta: MailMetadata, conn_meta: &mut ConnectionMetadata<U>, Tracked(tr): Tracked<&mut Trace>) -> (r: Decision)
        requires fresh(*old(stream)), S::fused(), ready(old(stream).source.stream, old(tr)@),
        ensures
            legal_dec(dec_of(r)),
            *final(final(stream).source) == *final(old(stream).source),
            ready(final(stream).source.stream, final(tr)@),
            // "must consume all of `stream` and call its `complete` method. Things will panic otherwise" (config.rs)
            obedient() ==> final(stream).state == DataStreamState::Completed,
            exists|m: Seq<Ev>, out: Seq<u8>| {
                &&& final(tr)@ == (old(tr)@ + m).push(Ev::Mail(MailEv { m: env(meta), c0: tag(*old(conn_meta)), c1: tag(*final(conn_meta)), out, dec: dec_of(r) }))
                &&& final(stream).state == DataStreamState::Completed ==> #[trigger] data_got(pb(*old(stream).source), old(tr)@, m, out, pb(*final(stream).source))
            };
    fn welcome_banner(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::Banner, r);
    fn mail_okay(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::MailOkay, r);
    fn rcpt_okay(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::RcptOkay, r);
    fn data_okay(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::DataOkay, r);
    fn mail_accepted(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::MailAccepted, r);
    fn already_in_mail(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::AlreadyInMail, r);
    fn rcpt_before_mail(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::RcptBeforeMail, r);
    fn data_before_rcpt(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::DataBeforeRcpt, r);
    fn data_before_mail(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::DataBeforeMail, r);
    fn command_unimplemented(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::Unimplemented, r);
    fn command_unrecognized(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: (ReplyCode, SmtpString)) ensures asked(old(tr)@, final(tr)@, Q::Unrecognized, r);
}
