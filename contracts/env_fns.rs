//@type smtp-message/src/mail/mod.rs MailCommand
impl MailCommand {
    //@fn smtp-message/src/mail/mod.rs MailCommand::new params=from,params loops=0
    pub fn new(from: Option<Email>, params: Parameters) -> (r: MailCommand)
        ensures r.from == from, r.params == params,
    //@end
}
//@fn @msg command_mail_args params=i
pub fn command_mail_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, MailCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_mail(i.v()), |o: MailCommand| (mv_opt(o.from), o.params.pv())),
//@ghost start
    hide(p_word); hide(p_tag); hide(p_sender); hide(p_parmap); hide(blanks);
    proof {
        rests(i);
        let s = i.v();
        let w = W_MAIL();
        env_word_fits(s, w);
        if let P::Done(n, _) = p_env_word(s, w) {
            let t = s.skip(n); sender_fits(t);
            assert(s.skip(w.len() as int).skip(blanks(s.skip(w.len() as int))) =~= t);
            if let P::Done(k, _) = p_sender(t) {
                let u = s.skip(n + k);
                assert(t.skip(k) =~= u);
                env_end_fits(u);
                if let P::Done(m, _) = p_parmap(u) { let x = u.skip(m); blanks_are(x); assert(x =~= s.skip(n + k + m)); assert(x.skip(blanks(x)) =~= u.skip(m + blanks(x))); assert(x.skip(blanks(x)) =~= s.skip(n + k + m + blanks(x))); }
            }
        }
    }
//@outline 4
fn mail_sender<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Option<Email>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sender(vx_in.v()), |o: Option<Email>| mv_opt(o)),
//@ghost start
    hide(p_maybe);
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); maybe_fits(s); sender_either(s); }
//@outline t0
fn mail_word<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures took(vx_in, r, p_word(vx_in.v(), W_MAIL())),
//@ghost start
    proof { rests(vx_in); env_word_fits(vx_in.v(), W_MAIL()); }
//@end
//@type smtp-message/src/rcpt/mod.rs RcptCommand
impl RcptCommand {
    //@fn smtp-message/src/rcpt/mod.rs RcptCommand::new params=to,params loops=0
    pub fn new(to: Email, params: Parameters) -> (r: RcptCommand)
        ensures r.to == to, r.params == params,
    //@end
}
//@fn @msg command_rcpt_args params=i
pub fn command_rcpt_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, RcptCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_rcpt(i.v()), |o: RcptCommand| (o.to.mv(), o.params.pv())),
//@ghost start
    hide(p_word); hide(p_tag); hide(p_maybe); hide(p_parmap); hide(blanks);
    proof {
        rests(i);
        let s = i.v();
        let w = W_RCPT();
        env_word_fits(s, w);
        if let P::Done(n, _) = p_env_word(s, w) {
            let t = s.skip(n); maybe_fits(t);
            assert(s.skip(w.len() as int).skip(blanks(s.skip(w.len() as int))) =~= t);
            if let P::Done(k, _) = p_maybe(t) {
                let u = s.skip(n + k);
                assert(t.skip(k) =~= u);
                env_end_fits(u);
                if let P::Done(m, _) = p_parmap(u) { let x = u.skip(m); blanks_are(x); assert(x =~= s.skip(n + k + m)); assert(x.skip(blanks(x)) =~= u.skip(m + blanks(x))); assert(x.skip(blanks(x)) =~= s.skip(n + k + m + blanks(x))); }
            }
        }
    }
//@outline t0
fn rcpt_word<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures took(vx_in, r, p_word(vx_in.v(), W_RCPT())),
//@ghost start
    proof { rests(vx_in); env_word_fits(vx_in.v(), W_RCPT()); }
//@end
pub open spec fn mv_opt(o: Option<Email>) -> Option<MailV> { match o { Some(e) => Some(e.mv()), None => None } }
