// ---- the protocol: what one command line does -------------------------------------------------
pub enum Cmd { Mail(Option<MailV>), Rcpt(MailV), Data, Other, Bad }
pub open spec fn kind_of(c: CmdV) -> Cmd {
    match c { CmdV::Mail(f, _) => Cmd::Mail(f), CmdV::Rcpt(t, _) => Cmd::Rcpt(t), CmdV::Data => Cmd::Data, _ => Cmd::Other }
}
// what a line is: read by the command grammar (C02-C06), all of it
pub open spec fn cmd_of(line: Seq<u8>) -> Cmd {
    if exists|c: CmdV| is_cmd(line, line.len() as int, c) { kind_of(choose|c: CmdV| is_cmd(line, line.len() as int, c)) } else { Cmd::Bad }
}
pub broadcast proof fn parsed(line: Seq<u8>, c: CmdV)
    requires #[trigger] is_cmd(line, line.len() as int, c),
    ensures cmd_of(line) == kind_of(c),
{ decided(line); }
pub proof fn unparsed(line: Seq<u8>)
    ensures (forall|c: CmdV| !is_cmd(line, line.len() as int, c)) ==> cmd_of(line) is Bad,
{ }
// state of a session between two command lines: the transaction, the received bytes not yet used,
// the connection metadata
pub struct St { pub env: Option<Env>, pub rest: Seq<u8>, pub c: int }
// b is a, then the configured reply to q, asked for and sent in full
pub open spec fn answered(a: Seq<Ev>, q: Q, b: Seq<Ev>) -> bool {
    exists|c: int, t: Seq<u8>| legal_reply(c, t) && b == #[trigger] (a.push(Ev::Ask(q, c, t)) + reply_evs(c, t))
}
// b is a, then the configured reply to q if the decision was to accept, the refusal's own otherwise
pub open spec fn told(a: Seq<Ev>, q: Q, d: Dec, b: Seq<Ev>) -> bool {
    match d { None => answered(a, q, b), Some((c, t)) => b == a + reply_evs(c, t) }
}
// MAIL
pub open spec fn mail_said(f: FromEv, from: Option<MailV>, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    f.from0 == from && f.c0 == s0.c && told(a.push(Ev::NewMail).push(Ev::From(f)), Q::MailOkay, f.dec, b)
}
pub open spec fn mail_next(f: FromEv, s0: St) -> St {
    St { env: if f.dec is None { Some(Env { from: f.from1, to: Seq::empty() }) } else { None }, rest: s0.rest, c: f.c1 }
}
pub open spec fn react_mail(from: Option<MailV>, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    if s0.env is Some { s1 == s0 && answered(a, Q::AlreadyInMail, b) }
    else { exists|f: FromEv| #![trigger a.push(Ev::NewMail).push(Ev::From(f))] mail_said(f, from, s0, a, b) && s1 == mail_next(f, s0) }
}
// RCPT
pub open spec fn rcpt_said(f: ToEv, v: Env, to: MailV, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    f.to0 == to && f.c0 == s0.c && f.m0 == v && told(a.push(Ev::To(f)), Q::RcptOkay, f.dec, b)
}
pub open spec fn rcpt_next(f: ToEv, s0: St) -> St {
    St { env: Some(if f.dec is None { Env { from: f.m1.from, to: f.m1.to.push(f.to1) } } else { f.m1 }), rest: s0.rest, c: f.c1 }
}
pub open spec fn react_rcpt(to: MailV, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    match s0.env {
        None => s1 == s0 && answered(a, Q::RcptBeforeMail, b),
        Some(v) => exists|f: ToEv| #![trigger a.push(Ev::To(f))] rcpt_said(f, v, to, s0, a, b) && s1 == rcpt_next(f, s0),
    }
}
// DATA, up to and including the reply before any message data is asked for
pub open spec fn data_said(f: DataEv, v: Env, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    f.m0 == v && f.c0 == s0.c && told(a.push(Ev::Data(f)), Q::DataOkay, f.dec, b)
}
// after the go-ahead (history g): the message data, the handler, one more reply
pub open spec fn mail_done(f: DataEv, g: Seq<Ev>, m: Seq<Ev>, h: MailEv, b: Seq<Ev>) -> bool {
    h.m == f.m1 && h.c0 == f.c1 && told((g + m).push(Ev::Mail(h)), Q::MailAccepted, h.dec, b)
}
pub open spec fn react_data(s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    match s0.env {
        None => s1 == s0 && answered(a, Q::DataBeforeMail, b),
        Some(v) =>
            if v.to.len() == 0 { s1 == s0 && answered(a, Q::DataBeforeRcpt, b) }
            else { data_refused(v, s0, s1, a, b) || data_taken(v, s0, s1, a, b) },
    }
}
pub open spec fn data_refused(v: Env, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    exists|f: DataEv| #![trigger a.push(Ev::Data(f))] f.dec is Some && data_said(f, v, s0, a, b) && s1 == St { env: Some(f.m1), rest: s0.rest, c: f.c1 }
}
pub open spec fn data_taken(v: Env, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    exists|f: DataEv, g: Seq<Ev>, m: Seq<Ev>, h: MailEv| #![trigger a.push(Ev::Data(f)), (g + m).push(Ev::Mail(h))]
        f.dec is None && data_said(f, v, s0, a, g) && mail_done(f, g, m, h, b) && data_got(s0.rest, g, m, h.out, s1.rest) && s1.env is None && s1.c == h.c1
}
// a complete reaction: the history was a before it and is b after it
pub open spec fn react(cmd: Cmd, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    match cmd {
        Cmd::Bad => s1 == s0 && answered(a, Q::Unrecognized, b),
        Cmd::Other => s1 == s0 && answered(a, Q::Unimplemented, b),
        Cmd::Mail(from) => react_mail(from, s0, s1, a, b),
        Cmd::Rcpt(to) => react_rcpt(to, s0, s1, a, b),
        Cmd::Data => react_data(s0, s1, a, b),
    }
}
// what is said in a reaction, whatever state it leaves; for DATA possibly only the go-ahead
pub open spec fn said(cmd: Cmd, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    match cmd {
        Cmd::Bad => answered(a, Q::Unrecognized, b),
        Cmd::Other => answered(a, Q::Unimplemented, b),
        Cmd::Mail(from) => if s0.env is Some { answered(a, Q::AlreadyInMail, b) }
            else { exists|f: FromEv| #![trigger a.push(Ev::NewMail).push(Ev::From(f))] mail_said(f, from, s0, a, b) },
        Cmd::Rcpt(to) => match s0.env {
            None => answered(a, Q::RcptBeforeMail, b),
            Some(v) => exists|f: ToEv| #![trigger a.push(Ev::To(f))] rcpt_said(f, v, to, s0, a, b),
        },
        Cmd::Data => match s0.env {
            None => answered(a, Q::DataBeforeMail, b),
            Some(v) => if v.to.len() == 0 { answered(a, Q::DataBeforeRcpt, b) } else { data_begun(v, s0, a, b) || data_ended(v, s0, a, b) },
        },
    }
}
pub open spec fn data_begun(v: Env, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool { exists|f: DataEv| #![trigger a.push(Ev::Data(f))] data_said(f, v, s0, a, b) }
pub open spec fn data_ended(v: Env, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    exists|f: DataEv, g: Seq<Ev>, m: Seq<Ev>, h: MailEv| #![trigger a.push(Ev::Data(f)), (g + m).push(Ev::Mail(h))]
        f.dec is None && data_said(f, v, s0, a, g) && mail_done(f, g, m, h, b) && data_gave(s0.rest, g, m, h.out)
}
// a reaction cut short by the writer's error
pub open spec fn react_cut(cmd: Cmd, s0: St, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    exists|w: Seq<Ev>| said(cmd, s0, a, w) && #[trigger] cut(w, b) && a.len() < b.len()
}
// ---- a session ----------------------------------------------------------------------------------
// one turn: in state s0 with history a0 a command line was completed (history m), leaving rest
pub struct Turn { pub s0: St, pub a0: Seq<Ev>, pub m: Seq<Ev>, pub line: Seq<u8>, pub rest: Seq<u8> }
pub open spec fn line_read(t: Turn) -> bool {
    is_line(t.line) && reads(t.s0.rest, t.a0, t.m) && t.s0.rest + got(t.a0, t.m) == t.line + t.rest
}
pub open spec fn mid(t: Turn) -> St { St { env: t.s0.env, rest: t.rest, c: t.s0.c } }
// the banner, then these complete turns, lead to state s and history a
pub open spec fn reached(c0: int, ts: Seq<Turn>, s: St, a: Seq<Ev>) -> bool
    decreases ts.len(), 0int
{
    if ts.len() == 0 { s == St { env: None, rest: Seq::empty(), c: c0 } && answered(Seq::empty(), Q::Banner, a) }
    else { begun(c0, ts.drop_last(), ts.last()) && react(cmd_of(ts.last().line), mid(ts.last()), s, ts.last().m, a) }
}
pub open spec fn begun(c0: int, ts: Seq<Turn>, t: Turn) -> bool
    decreases ts.len(), 1int
{ reached(c0, ts, t.s0, t.a0) && line_read(t) }
// the connection ended between two lines or inside one
pub open spec fn session_over(c0: int, b: Seq<Ev>) -> bool {
    exists|ts: Seq<Turn>, s: St, a: Seq<Ev>, rest: Seq<u8>| #[trigger] reached(c0, ts, s, a) && #[trigger] ran_out(s.rest, a, b, rest)
}
// the writer failed, in the banner or in the reply to some line
pub open spec fn session_cut(c0: int, b: Seq<Ev>) -> bool {
    ||| exists|w: Seq<Ev>| answered(Seq::empty(), Q::Banner, w) && #[trigger] cut(w, b)
    ||| exists|ts: Seq<Turn>, t: Turn| #[trigger] begun(c0, ts, t) && react_cut(cmd_of(t.line), mid(t), t.m, b)
}
// ---- a session is put together turn by turn
pub broadcast proof fn banner_cut(c0: int, h: Seq<Ev>, c: int, t: Seq<u8>, b: Seq<Ev>)
    requires h.len() == 0, legal_reply(c, t), #[trigger] cut(h.push(Ev::Ask(Q::Banner, c, t)) + reply_evs(c, t), b),
    ensures #[trigger] session_cut(c0, b),
{ assert(h =~= Seq::<Ev>::empty()); assert(answered(Seq::empty(), Q::Banner, h.push(Ev::Ask(Q::Banner, c, t)) + reply_evs(c, t))); }
pub proof fn begin(c0: int, h: Seq<Ev>, c: int, t: Seq<u8>)
    requires h.len() == 0, legal_reply(c, t),
    ensures reached(c0, Seq::empty(), St { env: None, rest: Seq::empty(), c: c0 }, h.push(Ev::Ask(Q::Banner, c, t)) + reply_evs(c, t)),
{ assert(h =~= Seq::<Ev>::empty()); }
pub proof fn turn_begun(c0: int, ts: Seq<Turn>, t: Turn)
    requires reached(c0, ts, t.s0, t.a0), line_read(t),
    ensures begun(c0, ts, t),
{ }
pub proof fn turn_over(c0: int, ts: Seq<Turn>, t: Turn, s: St, a: Seq<Ev>)
    requires begun(c0, ts, t), react(cmd_of(t.line), mid(t), s, t.m, a),
    ensures reached(c0, ts.push(t), s, a),
{
    assert(ts.push(t).drop_last() =~= ts);
}
pub proof fn turn_cut(c0: int, ts: Seq<Turn>, t: Turn, b: Seq<Ev>)
    requires begun(c0, ts, t), react_cut(cmd_of(t.line), mid(t), t.m, b),
    ensures session_cut(c0, b),
{ }
pub proof fn lines_over(c0: int, ts: Seq<Turn>, s: St, a: Seq<Ev>, b: Seq<Ev>, rest: Seq<u8>)
    requires reached(c0, ts, s, a), ran_out(s.rest, a, b, rest),
    ensures session_over(c0, b),
{ }
