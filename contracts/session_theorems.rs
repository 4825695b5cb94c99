// ---- theorems: what every history of a session looks like ------------------------------------------
// The transaction, the connection metadata and the last accepted DATA, as told by the calls alone.
pub open spec fn env_after(a: Seq<Ev>) -> Option<Env>
    decreases a.len()
{
    if a.len() == 0 { None } else {
        match a.last() {
            Ev::From(f) => if f.dec is None { Some(Env { from: f.from1, to: Seq::empty() }) } else { None },
            Ev::To(f) => Some(if f.dec is None { Env { from: f.m1.from, to: f.m1.to.push(f.to1) } } else { f.m1 }),
            Ev::Data(f) => Some(f.m1),
            Ev::Mail(h) => None,
            _ => env_after(a.drop_last()),
        }
    }
}
pub open spec fn conn_after(c0: int, a: Seq<Ev>) -> int
    decreases a.len()
{
    if a.len() == 0 { c0 } else {
        match a.last() {
            Ev::From(f) => f.c1, Ev::To(f) => f.c1, Ev::Data(f) => f.c1, Ev::Mail(h) => h.c1,
            _ => conn_after(c0, a.drop_last()),
        }
    }
}
// the last call was DATA's filter, and it accepted
pub open spec fn data_accepted(a: Seq<Ev>) -> bool
    decreases a.len()
{
    if a.len() == 0 { false } else {
        match a.last() {
            Ev::Data(f) => f.dec is None,
            Ev::From(_) => false, Ev::To(_) => false, Ev::Mail(_) => false,
            _ => data_accepted(a.drop_last()),
        }
    }
}
// number of complete replies and of messages handed over
pub open spec fn finals(a: Seq<Ev>) -> int
    decreases a.len()
{
    if a.len() == 0 { 0 } else { finals(a.drop_last()) + if a.last() matches Ev::Line(_, true, _) { 1int } else { 0 } }
}
pub open spec fn mails(a: Seq<Ev>) -> int
    decreases a.len()
{
    if a.len() == 0 { 0 } else { mails(a.drop_last()) + if a.last() is Mail { 1int } else { 0 } }
}
// the law for one event, given what came before it
pub open spec fn law(c0: int, p: Seq<Ev>, e: Ev) -> bool {
    match e {
        // a sender filter only outside a transaction
        Ev::From(f) => env_after(p) is None && f.c0 == conn_after(c0, p),
        // a recipient filter only inside one, given exactly its envelope
        Ev::To(f) => env_after(p) == Some(f.m0) && f.c0 == conn_after(c0, p),
        // a data filter only inside one with a recipient
        Ev::Data(f) => env_after(p) == Some(f.m0) && f.m0.to.len() > 0 && f.c0 == conn_after(c0, p),
        // the handler only after DATA was accepted, given exactly the envelope
        Ev::Mail(h) => data_accepted(p) && env_after(p) == Some(h.m) && h.c0 == conn_after(c0, p),
        // the connection is not read after its end
        Ev::Pull(_) => !has_end(p),
        Ev::End => !has_end(p),
        _ => true,
    }
}
pub open spec fn lawful(c0: int, a: Seq<Ev>) -> bool { forall|i: int| 0 <= i < a.len() ==> law(c0, a.take(i), #[trigger] a[i]) }
pub open spec fn is_call(e: Ev) -> bool { e is From || e is To || e is Data || e is Mail }
// everything told by a about the calls
pub open spec fn facts(c0: int, a: Seq<Ev>, v: Option<Env>, c: int, d: bool, n: int, k: int) -> bool {
    lawful(c0, a) && env_after(a) == v && conn_after(c0, a) == c && data_accepted(a) == d && finals(a) == n && mails(a) == k
}
proof fn law_push(c0: int, a: Seq<Ev>, e: Ev)
    requires lawful(c0, a), law(c0, a, e),
    ensures lawful(c0, a.push(e)), a.push(e).drop_last() == a,
        finals(a.push(e)) == finals(a) + if e matches Ev::Line(_, true, _) { 1int } else { 0 },
        mails(a.push(e)) == mails(a) + if e is Mail { 1int } else { 0 },
{
    let b = a.push(e);
    assert forall|i: int| 0 <= i < b.len() implies law(c0, b.take(i), #[trigger] b[i]) by {
        if i < a.len() { assert(b.take(i) =~= a.take(i)); assert(b[i] == a[i]); } else { assert(b.take(i) =~= a); }
    }
    assert(b.drop_last() =~= a);
}
proof fn facts_reply(c0: int, a: Seq<Ev>, code: int, t: Seq<u8>, k: int)
    requires 0 <= k <= reply_evs(code, t).len(), lawful(c0, a),
    ensures ({ let b = a + reply_evs(code, t).take(k);
        facts(c0, b, env_after(a), conn_after(c0, a), data_accepted(a), finals(a) + if k == reply_evs(code, t).len() { 1int } else { 0 }, mails(a)) })
    decreases k
{
    let r = reply_evs(code, t);
    assert(r.len() >= 1) by { if t.len() > 0 { some_chunk(t.len() as int); } }
    let b = a + r.take(k);
    if k == 0 { assert(b =~= a); }
    else {
        facts_reply(c0, a, code, t, k - 1);
        assert(b =~= (a + r.take(k - 1)).push(r[k - 1]));
        law_push(c0, a + r.take(k - 1), r[k - 1]);
    }
}
proof fn some_chunk(n: int) requires n > 0 ensures chunks(n, 506) >= 1 {}
proof fn facts_answer(c0: int, a: Seq<Ev>, q: Q, b: Seq<Ev>)
    requires answered(a, q, b), lawful(c0, a),
    ensures facts(c0, b, env_after(a), conn_after(c0, a), data_accepted(a), finals(a) + 1, mails(a)), has_end(b) == has_end(a)
{
    broadcast use {end_push, end_reply};
    let (c, t) = choose|c: int, t: Seq<u8>| legal_reply(c, t) && b == #[trigger] (a.push(Ev::Ask(q, c, t)) + reply_evs(c, t));
    law_push(c0, a, Ev::Ask(q, c, t));
    let r = reply_evs(c, t);
    facts_reply(c0, a.push(Ev::Ask(q, c, t)), c, t, r.len() as int);
    assert(r.take(r.len() as int) =~= r);
}
proof fn facts_decided(c0: int, a: Seq<Ev>, q: Q, d: Dec, b: Seq<Ev>)
    requires told(a, q, d, b), lawful(c0, a),
    ensures facts(c0, b, env_after(a), conn_after(c0, a), data_accepted(a), finals(a) + 1, mails(a)), has_end(b) == has_end(a)
{
    broadcast use {end_push, end_reply};
    match d {
        None => { facts_answer(c0, a, q, b); }
        Some((c, t)) => {
            let r = reply_evs(c, t);
            facts_reply(c0, a, c, t, r.len() as int);
            assert(r.take(r.len() as int) =~= r);
        }
    }
}
proof fn facts_pulls(c0: int, a: Seq<Ev>, m: Seq<Ev>, k: int)
    requires
        0 <= k <= m.len(), lawful(c0, a),
        forall|i: int| 0 <= i < k ==> ((#[trigger] m[i]) is Pull || m[i] is End) && !has_end(a + m.take(i)),
    ensures facts(c0, a + m.take(k), env_after(a), conn_after(c0, a), data_accepted(a), finals(a), mails(a))
    decreases k
{
    if k == 0 { assert(a + m.take(0) =~= a); }
    else {
        facts_pulls(c0, a, m, k - 1);
        assert(a + m.take(k) =~= (a + m.take(k - 1)).push(m[k - 1]));
        law_push(c0, a + m.take(k - 1), m[k - 1]);
    }
}
// what was read for a line: packets only, none after the end
proof fn reads_packets(h0: Seq<u8>, a: Seq<Ev>, m: Seq<Ev>) -> (w: Seq<Ev>)
    requires reads(h0, a, m),
    ensures m == a + w, forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is Pull && !has_end(a + w.take(i)),
{
    hide(no_crlf); hide(pulled); hide(has_end);
    reveal(reads);
    let n = a.len() as int;
    let w = m.subrange(n, m.len() as int);
    assert(m =~= a + w);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Pull && !has_end(a + w.take(i)) by {
        assert(w[i] == m[n + i]);
        assert(a + w.take(i) =~= m.take(n + i));
    }
    w
}
proof fn facts_line(c0: int, h0: Seq<u8>, a: Seq<Ev>, m: Seq<Ev>)
    requires reads(h0, a, m), lawful(c0, a),
    ensures facts(c0, m, env_after(a), conn_after(c0, a), data_accepted(a), finals(a), mails(a))
{
    hide(lawful); hide(env_after); hide(conn_after); hide(data_accepted); hide(finals); hide(mails); hide(has_end);
    let w = reads_packets(h0, a, m);
    facts_pulls(c0, a, w, w.len() as int);
    assert(w.take(w.len() as int) =~= w);
}
// one reply more per turn, and one more for each message handed over
proof fn facts_react(c0: int, cmd: Cmd, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>)
    requires react(cmd, s0, s1, a, b), lawful(c0, a), env_after(a) == s0.env, conn_after(c0, a) == s0.c,
    ensures lawful(c0, b), env_after(b) == s1.env, conn_after(c0, b) == s1.c, finals(b) - mails(b) == finals(a) - mails(a) + 1,
{
    match cmd {
        Cmd::Bad => facts_answer(c0, a, Q::Unrecognized, b),
        Cmd::Other => facts_answer(c0, a, Q::Unimplemented, b),
        Cmd::Mail(from) => {
            if s0.env is Some { facts_answer(c0, a, Q::AlreadyInMail, b); }
            else {
                let f = choose|f: FromEv| #![trigger a.push(Ev::NewMail).push(Ev::From(f))] mail_said(f, from, s0, a, b) && s1 == mail_next(f, s0);
                law_push(c0, a, Ev::NewMail);
                law_push(c0, a.push(Ev::NewMail), Ev::From(f));
                facts_decided(c0, a.push(Ev::NewMail).push(Ev::From(f)), Q::MailOkay, f.dec, b);
            }
        }
        Cmd::Rcpt(to) => match s0.env {
            None => facts_answer(c0, a, Q::RcptBeforeMail, b),
            Some(v) => {
                let f = choose|f: ToEv| #![trigger a.push(Ev::To(f))] rcpt_said(f, v, to, s0, a, b) && s1 == rcpt_next(f, s0);
                law_push(c0, a, Ev::To(f));
                facts_decided(c0, a.push(Ev::To(f)), Q::RcptOkay, f.dec, b);
            }
        },
        Cmd::Data => match s0.env {
            None => facts_answer(c0, a, Q::DataBeforeMail, b),
            Some(v) => if v.to.len() == 0 { facts_answer(c0, a, Q::DataBeforeRcpt, b); }
                else if data_refused(v, s0, s1, a, b) {
                    let f = choose|f: DataEv| #![trigger a.push(Ev::Data(f))] f.dec is Some && data_said(f, v, s0, a, b) && s1 == St { env: Some(f.m1), rest: s0.rest, c: f.c1 };
                    law_push(c0, a, Ev::Data(f));
                    facts_decided(c0, a.push(Ev::Data(f)), Q::DataOkay, f.dec, b);
                } else {
                    let (f, g, m, h) = choose|f: DataEv, g: Seq<Ev>, m: Seq<Ev>, h: MailEv| #![trigger a.push(Ev::Data(f)), (g + m).push(Ev::Mail(h))]
                        f.dec is None && data_said(f, v, s0, a, g) && mail_done(f, g, m, h, b) && data_got(s0.rest, g, m, h.out, s1.rest) && s1.env is None && s1.c == h.c1;
                    law_push(c0, a, Ev::Data(f));
                    facts_decided(c0, a.push(Ev::Data(f)), Q::DataOkay, f.dec, g);
                    assert(m.take(m.len() as int) =~= m);
                    facts_pulls(c0, g, m, m.len() as int);
                    law_push(c0, g + m, Ev::Mail(h));
                    facts_decided(c0, (g + m).push(Ev::Mail(h)), Q::MailAccepted, h.dec, b);
                },
        },
    }
}
proof fn vx_reached_facts(c0: int, ts: Seq<Turn>, s: St, a: Seq<Ev>)
    requires reached(c0, ts, s, a),
    ensures lawful(c0, a), env_after(a) == s.env, conn_after(c0, a) == s.c, finals(a) == 1 + ts.len() + mails(a),
    decreases ts.len()
{
    if ts.len() == 0 {
        facts_answer(c0, Seq::empty(), Q::Banner, a);
    } else {
        let t = ts.last();
        vx_reached_facts(c0, ts.drop_last(), t.s0, t.a0);
        facts_line(c0, t.s0.rest, t.a0, t.m);
        facts_react(c0, cmd_of(t.line), mid(t), s, t.m, a);
    }
}
// S01, S02, S03, S06: a session that ended
proof fn vx_session_over(c0: int, b: Seq<Ev>)
    requires session_over(c0, b),
    ensures lawful(c0, b), has_end(b),
        exists|ts: Seq<Turn>, s: St, a: Seq<Ev>, rest: Seq<u8>| #![trigger reached(c0, ts, s, a), ran_out(s.rest, a, b, rest)]
            reached(c0, ts, s, a) && ran_out(s.rest, a, b, rest) && finals(b) == 1 + ts.len() + mails(b),
{
    let (ts, s, a, rest) = choose|ts: Seq<Turn>, s: St, a: Seq<Ev>, rest: Seq<u8>| #[trigger] reached(c0, ts, s, a) && #[trigger] ran_out(s.rest, a, b, rest);
    vx_reached_facts(c0, ts, s, a);
    let m = choose|m: Seq<Ev>| {
        &&& #[trigger] reads(s.rest, a, m)
        &&& b == (if has_end(m) { m } else { m.push(Ev::End) })
        &&& no_crlf(s.rest + got(a, m))
        &&& rest == s.rest + got(a, m)
    };
    facts_line(c0, s.rest, a, m);
    has_end_push(m, Ev::End);
    if !has_end(m) { law_push(c0, m, Ev::End); }
}
// S05: what was received is the command lines, each followed by the message data it started (if any), and the rest
pub open spec fn flat(ts: Seq<Turn>, ds: Seq<Seq<u8>>) -> Seq<u8>
    decreases ts.len()
{
    if ts.len() == 0 { Seq::empty() } else { flat(ts.drop_last(), ds.drop_last()) + ts.last().line + ds.last() }
}
proof fn pulled_cat(a: Seq<Ev>, m: Seq<Ev>)
    ensures pulled(a + m) == pulled(a) + pulled(m)
    decreases m.len()
{
    if m.len() == 0 { assert(a + m =~= a); assert(pulled(a) + Seq::<u8>::empty() =~= pulled(a)); }
    else {
        pulled_cat(a, m.drop_last());
        assert((a + m).drop_last() =~= a + m.drop_last());
        if let Ev::Pull(x) = m.last() { assert(pulled(a) + pulled(m.drop_last()) + x =~= pulled(a) + (pulled(m.drop_last()) + x)); }
    }
}
proof fn pulled_quiet(r: Seq<Ev>)
    requires forall|i: int| 0 <= i < r.len() ==> !((#[trigger] r[i]) is Pull),
    ensures pulled(r) == Seq::<u8>::empty()
    decreases r.len()
{
    if r.len() > 0 {
        assert forall|i: int| 0 <= i < r.drop_last().len() implies !((#[trigger] r.drop_last()[i]) is Pull) by { assert(r.drop_last()[i] == r[i]); }
        pulled_quiet(r.drop_last());
    }
}
proof fn pulled_answer(a: Seq<Ev>, q: Q, d: Dec, b: Seq<Ev>)
    requires told(a, q, d, b),
    ensures pulled(b) == pulled(a)
{
    match d {
        None => {
            let (c, t) = choose|c: int, t: Seq<u8>| legal_reply(c, t) && b == #[trigger] (a.push(Ev::Ask(q, c, t)) + reply_evs(c, t));
            pulled_push(a, Ev::Ask(q, c, t));
            pulled_quiet(reply_evs(c, t));
            pulled_cat(a.push(Ev::Ask(q, c, t)), reply_evs(c, t));
            assert(pulled(a) + Seq::<u8>::empty() =~= pulled(a));
        }
        Some((c, t)) => {
            pulled_quiet(reply_evs(c, t));
            pulled_cat(a, reply_evs(c, t));
            assert(pulled(a) + Seq::<u8>::empty() =~= pulled(a));
        }
    }
}
proof fn pulled_react(cmd: Cmd, s0: St, s1: St, a: Seq<Ev>, b: Seq<Ev>, p: Seq<u8>) -> (d: Seq<u8>)
    requires react(cmd, s0, s1, a, b), pulled(a) == p + s0.rest,
    ensures pulled(b) == p + d + s1.rest, !(cmd is Data) ==> d == Seq::<u8>::empty(),
{
    hide(reply_evs); hide(dec); hide(has_end); hide(data_reads);
    let e = Seq::<u8>::empty();
    assert(p + e + s0.rest =~= p + s0.rest);
    match cmd {
        Cmd::Bad => { pulled_answer(a, Q::Unrecognized, None, b); e }
        Cmd::Other => { pulled_answer(a, Q::Unimplemented, None, b); e }
        Cmd::Mail(from) => {
            if s0.env is Some { pulled_answer(a, Q::AlreadyInMail, None, b); e }
            else {
                let f = choose|f: FromEv| #![trigger a.push(Ev::NewMail).push(Ev::From(f))] mail_said(f, from, s0, a, b) && s1 == mail_next(f, s0);
                pulled_push(a, Ev::NewMail); pulled_push(a.push(Ev::NewMail), Ev::From(f));
                pulled_answer(a.push(Ev::NewMail).push(Ev::From(f)), Q::MailOkay, f.dec, b);
                e
            }
        }
        Cmd::Rcpt(to) => match s0.env {
            None => { pulled_answer(a, Q::RcptBeforeMail, None, b); e }
            Some(v) => {
                let f = choose|f: ToEv| #![trigger a.push(Ev::To(f))] rcpt_said(f, v, to, s0, a, b) && s1 == rcpt_next(f, s0);
                pulled_push(a, Ev::To(f));
                pulled_answer(a.push(Ev::To(f)), Q::RcptOkay, f.dec, b);
                e
            }
        },
        Cmd::Data => match s0.env {
            None => { pulled_answer(a, Q::DataBeforeMail, None, b); e }
            Some(v) => if v.to.len() == 0 { pulled_answer(a, Q::DataBeforeRcpt, None, b); e }
                else if data_refused(v, s0, s1, a, b) {
                    let f = choose|f: DataEv| #![trigger a.push(Ev::Data(f))] f.dec is Some && data_said(f, v, s0, a, b) && s1 == St { env: Some(f.m1), rest: s0.rest, c: f.c1 };
                    pulled_push(a, Ev::Data(f));
                    pulled_answer(a.push(Ev::Data(f)), Q::DataOkay, f.dec, b);
                    e
                } else {
                    let (f, g, m, h) = choose|f: DataEv, g: Seq<Ev>, m: Seq<Ev>, h: MailEv| #![trigger a.push(Ev::Data(f)), (g + m).push(Ev::Mail(h))]
                        f.dec is None && data_said(f, v, s0, a, g) && mail_done(f, g, m, h, b) && data_got(s0.rest, g, m, h.out, s1.rest) && s1.env is None && s1.c == h.c1;
                    pulled_push(a, Ev::Data(f));
                    pulled_answer(a.push(Ev::Data(f)), Q::DataOkay, f.dec, g);
                    pulled_cat(g, m);
                    pulled_push(g + m, Ev::Mail(h));
                    pulled_answer((g + m).push(Ev::Mail(h)), Q::MailAccepted, h.dec, b);
                    let all = s0.rest + pulled(m);
                    let t = dec_meaning(L::CrLf, all);
                    let d = if dec(L::CrLf, all) is Some { all.take(t + 3) } else { all };
                    assert(d + s1.rest =~= all);
                    assert(p + d + s1.rest =~= p + all);
                    assert(p + s0.rest + pulled(m) =~= p + all);
                    d
                },
        },
    }
}
// the bytes read for one line
proof fn pulled_line(t: Turn, p: Seq<u8>)
    requires line_read(t), pulled(t.a0) == p + t.s0.rest,
    ensures pulled(t.m) == p + t.line + t.rest, is_line(t.line),
{
    hide(is_line); hide(pulled); hide(has_end); hide(no_crlf);
    reveal(reads); reveal(got);
    let w = t.m.subrange(t.a0.len() as int, t.m.len() as int);
    assert(t.m =~= t.a0 + w);
    pulled_cat(t.a0, w);
    assert(p + t.s0.rest + pulled(w) =~= p + (t.s0.rest + pulled(w)));
    assert(p + (t.line + t.rest) =~= p + t.line + t.rest);
}
proof fn vx_bytes_accounted(c0: int, ts: Seq<Turn>, s: St, a: Seq<Ev>) -> (ds: Seq<Seq<u8>>)
    requires reached(c0, ts, s, a),
    ensures
        ds.len() == ts.len(),
        pulled(a) == flat(ts, ds) + s.rest,
        forall|i: int| 0 <= i < ts.len() ==> is_line((#[trigger] ts[i]).line) && (!(cmd_of(ts[i].line) is Data) ==> ds[i] == Seq::<u8>::empty()),
    decreases ts.len()
{
    hide(react); hide(reply_evs); hide(is_line); hide(line_read); hide(pulled); hide(cmd_of); hide(answered);
    if ts.len() == 0 {
        pulled_answer(Seq::empty(), Q::Banner, None, a);
        assert(pulled(Seq::empty()) == Seq::<u8>::empty()) by { reveal_with_fuel(pulled, 2); }
        assert(flat(ts, Seq::empty()) + s.rest =~= Seq::<u8>::empty());
        Seq::empty()
    } else {
        let t = ts.last();
        let us = ts.drop_last();
        let ds = vx_bytes_accounted(c0, us, t.s0, t.a0);
        let p = flat(us, ds);
        pulled_line(t, p);
        let d = pulled_react(cmd_of(t.line), mid(t), s, t.m, a, p + t.line);
        let r = ds.push(d);
        assert(r.drop_last() =~= ds);
        assert forall|i: int| 0 <= i < ts.len() implies is_line((#[trigger] ts[i]).line) && (!(cmd_of(ts[i].line) is Data) ==> r[i] == Seq::<u8>::empty()) by {
            if i < ts.len() - 1 { assert(us[i] == ts[i]); assert(r[i] == ds[i]); }
        }
        r
    }
}
// S07: what such a command leaves behind
proof fn vx_no_effect(c0: int, ts: Seq<Turn>, s: St, a: Seq<Ev>)
    requires reached(c0, ts, s, a), ts.len() > 0, cmd_of(ts.last().line) is Bad || cmd_of(ts.last().line) is Other,
    ensures s.env == ts.last().s0.env, s.c == ts.last().s0.c,
        answered(ts.last().m, if cmd_of(ts.last().line) is Bad { Q::Unrecognized } else { Q::Unimplemented }, a),
{}
