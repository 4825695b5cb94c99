// ---- ghost history of a server session -----------------------------------------------------
pub enum Ev {
    Pull(Seq<u8>),                 // the connection delivered a packet
    End,                           // the connection reported its end
    Line(int, bool, Seq<u8>),      // a reply line was accepted by the writer: code, final?, text
    Fail,                          // the writer reported an error
    Ask(Q, int, Seq<u8>),          // the configuration was asked for a reply, and gave this one
    NewMail,
    From(FromEv), To(ToEv), Data(DataEv), Mail(MailEv),   // a filter or the handler was called
}
pub enum Q { Banner, MailOkay, RcptOkay, DataOkay, MailAccepted, AlreadyInMail, RcptBeforeMail, DataBeforeRcpt, DataBeforeMail, Unimplemented, Unrecognized }
// None: accepted; otherwise the code and text of the refusal
pub type Dec = Option<(int, Seq<u8>)>;
pub struct FromEv { pub from0: Option<MailV>, pub from1: Option<MailV>, pub c0: int, pub c1: int, pub dec: Dec }
pub struct ToEv { pub to0: MailV, pub to1: MailV, pub m0: Env, pub m1: Env, pub c0: int, pub c1: int, pub dec: Dec }
pub struct DataEv { pub m0: Env, pub m1: Env, pub c0: int, pub c1: int, pub dec: Dec }
pub struct MailEv { pub m: Env, pub c0: int, pub c1: int, pub out: Seq<u8>, pub dec: Dec }
// an envelope
pub struct Env { pub from: Option<MailV>, pub to: Seq<MailV> }
pub tracked struct Trace { pub ghost ev: Seq<Ev> }
impl View for Trace { type V = Seq<Ev>; open spec fn view(&self) -> Seq<Ev> { self.ev } }
//@include pulls.rs
pub open spec fn added(a: Seq<Ev>, b: Seq<Ev>, s: Seq<Ev>) -> bool { b == a + s }
// ---- replies as events -----------------------------------------------------------------------
// the lines of a reply: full pieces of the text, all but the last marked as continued
pub open spec fn reply_evs(code: int, text: Seq<u8>) -> Seq<Ev> {
    if text.len() == 0 { seq![Ev::Line(code, true, text)] }
    else { Seq::new(chunks(text.len() as int, 506) as nat, |i: int| Ev::Line(code, i + 1 == chunks(text.len() as int, 506), chunk(text, 506, i))) }
}
pub open spec fn legal_reply(code: int, text: Seq<u8>) -> bool { 0 <= code < 1000 && forall|i: int| 0 <= i < text.len() ==> legal_byte(#[trigger] text[i]) }
// a reply was sent; or the writer failed after some of its lines and nothing followed
pub open spec fn replied<E>(a: Seq<Ev>, b: Seq<Ev>, want: Seq<Ev>, r: Result<(), E>) -> bool {
    match r {
        Ok(_) => b == a + want,
        Err(_) => reply_failed(a, b, want),
    }
}
pub open spec fn reply_failed(a: Seq<Ev>, b: Seq<Ev>, want: Seq<Ev>) -> bool {
    exists|k: int| 0 <= k <= want.len() && b == #[trigger] (a + want.take(k)).push(Ev::Fail)
}
// what is new in history b compared with a
pub open spec fn since(a: Seq<Ev>, b: Seq<Ev>) -> Seq<Ev> { b.subrange(a.len() as int, b.len() as int) }
pub open spec fn extends(a: Seq<Ev>, b: Seq<Ev>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
// b is a beginning of w, then the writer's error
pub open spec fn cut(w: Seq<Ev>, b: Seq<Ev>) -> bool {
    exists|k: int| 0 <= k <= w.len() && b == #[trigger] w.take(k).push(Ev::Fail)
}
pub broadcast proof fn end_push(t: Seq<Ev>, e: Ev)
    ensures #[trigger] has_end(t.push(e)) == (has_end(t) || e == Ev::End)
{ has_end_push(t, e); }
pub broadcast proof fn end_reply(t: Seq<Ev>, c: int, x: Seq<u8>)
    ensures #[trigger] has_end(t + reply_evs(c, x)) == has_end(t)
{
    reveal(has_end);
    let u = t + reply_evs(c, x);
    if has_end(t) { let i = choose|i: int| 0 <= i < t.len() && t[i] == Ev::End; assert(u[i] == Ev::End); }
}
// a reply that failed is one cut short
pub broadcast proof fn cut_reply(a: Seq<Ev>, b: Seq<Ev>, want: Seq<Ev>)
    requires #[trigger] reply_failed(a, b, want)
    ensures cut(a + want, b), b.len() > a.len()
{
    let k = choose|k: int| 0 <= k <= want.len() && b == #[trigger] (a + want.take(k)).push(Ev::Fail);
    assert((a + want).take(a.len() + k) =~= a + want.take(k));
    assert(b == (a + want).take(a.len() + k).push(Ev::Fail));
}
