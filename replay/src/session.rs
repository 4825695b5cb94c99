//! The server session: the real `interact` against a reference model, event by event.
use crate::cmd::{email_bytes, email_of, ref_command, RCmd};
use crate::data::{rand_split, ref_decode, show_q};
use crate::frame::*;
use bytes::{Bytes, BytesMut};
use futures::prelude::*;
use futures::task::{noop_waker, Context, Poll};
use smtp_message::{DataStream, Email, ReplyCode, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Item(Vec<u8>),
    Pull(usize),
    End,
    PollAfterEnd,
    New,
    From(Option<String>, u64),
    To(String, Option<String>, Vec<String>, u64),
    Data(Option<String>, Vec<String>, u64),
    Handle(Option<String>, Vec<String>, u64),
    // data the handler read, result of complete
    Body(Vec<u8>, bool),
}
type Log = Arc<Mutex<Vec<Ev>>>;

struct Conn {
    q: VecDeque<Option<Vec<u8>>>,
    log: Log,
    ended: bool,
}
impl Stream for Conn {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        if self.ended {
            self.log.lock().unwrap().push(Ev::PollAfterEnd);
            return Poll::Ready(None);
        }
        match self.q.pop_front() {
            None => {
                self.ended = true;
                self.log.lock().unwrap().push(Ev::End);
                Poll::Ready(None)
            }
            Some(None) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Some(b)) => {
                self.log.lock().unwrap().push(Ev::Pull(b.len()));
                Poll::Ready(Some(BytesMut::from(&b[..])))
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum FailMode {
    Never,
    Ready(usize),
    Start(usize),
    Flush(usize),
}
struct Out {
    log: Log,
    n: usize,
    fail: FailMode,
    pend: u32,
}
impl Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.pend % 4 == 3 {
            self.pend += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let FailMode::Ready(k) = self.fail {
            if self.n >= k {
                return Poll::Ready(Err(()));
            }
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        if self.pend > 0 {
            self.pend += 1;
        }
        if let FailMode::Start(k) = self.fail {
            if self.n >= k {
                return Err(());
            }
        }
        self.n += 1;
        self.log.lock().unwrap().push(Ev::Item(b.to_vec()));
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        if let FailMode::Flush(k) = self.fail {
            if self.n >= k {
                return Poll::Ready(Err(()));
            }
        }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

// ---- what the configuration decides, as a function of the number of the call --------------------
#[derive(Clone)]
struct Plan {
    seed: u64,
    long: bool,
}
struct Step {
    accept: bool,
    change: bool,
    pend: bool,
    side: bool,
    code: u16,
    msg: Vec<u8>,
    kind: usize,
}
fn text(h: u64, long: bool) -> Vec<u8> {
    let n = match h % 7 {
        0 => 0,
        1 if long => 506,
        2 if long => 1012,
        3 if long => 507 + (h >> 8) as usize % 900,
        _ => 1 + (h >> 8) as usize % 30,
    };
    let mut r = Rng::new(h);
    (0..n).map(|_| if r.one_in(30) { 9 } else { 32 + r.below(95) as u8 }).collect()
}
impl Plan {
    fn step(&self, n: u64) -> Step {
        let mut r = Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(n));
        let often = self.seed % 3;
        Step {
            accept: match often {
                0 => true,
                1 => !r.one_in(4),
                _ => r.one_in(2),
            },
            change: r.one_in(3),
            pend: r.one_in(3),
            side: r.one_in(8),
            code: 400 + r.below(200) as u16,
            msg: text(r.next(), self.long),
            kind: r.below(6),
        }
    }
    /// the configured replies; index: the order of Config's methods
    fn reply(&self, i: u64) -> (u16, Vec<u8>) {
        let mut r = Rng::new(self.seed ^ (0xABCD + 77 * i));
        (100 * (i % 10) as u16 + i as u16, text(r.next(), self.long))
    }
}
const BANNER: u64 = 0;
const MAIL_OK: u64 = 1;
const RCPT_OK: u64 = 2;
const DATA_OK: u64 = 3;
const ACCEPTED: u64 = 4;
const IN_MAIL: u64 = 5;
const RCPT_EARLY: u64 = 6;
const DATA_NO_RCPT: u64 = 7;
const DATA_NO_MAIL: u64 = 8;
const UNIMPL: u64 = 9;
const UNREC: u64 = 10;

struct Cfg {
    plan: Plan,
    log: Log,
    calls: u64,
}
fn estr(e: &Email) -> String {
    show(&email_bytes(&email_of(e)))
}
fn fresh(n: u64) -> String {
    format!("new{}@x.y", n)
}
/// the address a filter puts in place of `old`: a new one, or the old one with its local part or its host
/// changed, or without a host
fn rewrite(old: &str, n: u64, s: &Step) -> String {
    let plain = |c: char| c.is_ascii_alphanumeric() || c == '.' || c == '@';
    if !old.chars().all(plain) || old.matches('@').count() != 1 {
        return fresh(n);
    }
    let at = old.find('@').unwrap();
    match s.kind {
        0 => format!("{}@host{}.z", &old[..at], n),
        1 => format!("alias{}{}", n, &old[at..]),
        2 => old[..at].to_string(),
        3 => old.to_uppercase(),
        _ => fresh(n),
    }
}
/// what `filter_data` does to the recipients
fn regroup<T>(to: &mut Vec<T>, s: &Step, late: T) {
    if s.change && !s.side {
        match s.kind {
            0 => {
                to.pop();
            }
            1 => to.push(late),
            2 => to.reverse(),
            _ => (),
        }
    }
}
struct Once(bool);
impl Future for Once {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 {
            self.0 = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}
impl Cfg {
    fn rep(&self, i: u64) -> (ReplyCode, SmtpString) {
        let (c, t) = self.plan.reply(i);
        (ReplyCode::custom(c), SmtpString::from(t))
    }
}
fn decide(s: &Step) -> Decision {
    if s.accept {
        Decision::Accept
    } else {
        Decision::Reject(Refusal {
            code: ReplyCode::custom(s.code),
            msg: SmtpString::from(s.msg.clone()),
        })
    }
}
fn parse_email(s: &str) -> Email {
    Email::parse_slice(s.as_bytes()).unwrap()
}
impl Config<u64> for Cfg {
    fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> {
        Box::pin(async move {
            Once(self.plan.seed % 2 == 0).await;
            self.log.lock().unwrap().push(Ev::New);
        })
    }
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, c: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(async move {
            self.calls += 1;
            c.user += 1;
            let s = self.plan.step(self.calls);
            self.log.lock().unwrap().push(Ev::From(from.as_ref().map(estr), c.user));
            Once(s.pend).await;
            if s.change {
                *from = if s.side {
                    None
                } else {
                    let old = from.as_ref().map(estr).unwrap_or_default();
                    Some(parse_email(&rewrite(&old, self.calls, &s)))
                };
            }
            decide(&s)
        })
    }
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, meta: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(async move {
            self.calls += 1;
            c.user += 1;
            let s = self.plan.step(self.calls);
            self.log.lock().unwrap().push(Ev::To(estr(to), meta.from.as_ref().map(estr), meta.to.iter().map(estr).collect(), c.user));
            Once(s.pend).await;
            if s.change {
                *to = parse_email(&rewrite(&estr(to), self.calls, &s));
            }
            if s.side {
                meta.to.push(parse_email("side"));
                if s.kind == 0 {
                    meta.from = Some(parse_email(&fresh(self.calls)));
                }
            }
            decide(&s)
        })
    }
    fn filter_data<'a>(&'a mut self, meta: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(async move {
            self.calls += 1;
            c.user += 1;
            let s = self.plan.step(self.calls);
            self.log.lock().unwrap().push(Ev::Data(meta.from.as_ref().map(estr), meta.to.iter().map(estr).collect(), c.user));
            Once(s.pend).await;
            if s.change && s.side {
                meta.from = Some(parse_email(&fresh(self.calls)));
            }
            regroup(&mut meta.to, &s, parse_email("late@x"));
            decide(&s)
        })
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, meta: MailMetadata, c: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            self.calls += 1;
            c.user += 1;
            let s = self.plan.step(self.calls);
            self.log.lock().unwrap().push(Ev::Handle(meta.from.as_ref().map(estr), meta.to.iter().map(estr).collect(), c.user));
            Once(s.pend).await;
            let mut v = vec![];
            while let Some(b) = stream.next().await {
                v.extend_from_slice(&b);
            }
            let r = stream.complete().is_ok();
            self.log.lock().unwrap().push(Ev::Body(v, r));
            decide(&s)
        })
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"unused")
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        self.rep(BANNER)
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        self.rep(MAIL_OK)
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        self.rep(RCPT_OK)
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        self.rep(DATA_OK)
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        self.rep(ACCEPTED)
    }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) {
        self.rep(IN_MAIL)
    }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) {
        self.rep(RCPT_EARLY)
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        self.rep(DATA_NO_RCPT)
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        self.rep(DATA_NO_MAIL)
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        self.rep(UNIMPL)
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        self.rep(UNREC)
    }
}

// ---- the model ---------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Banner,
    Decided,
    Refused,
    GoAhead,
    Sequence,
    Unknown,
}
#[derive(Clone, Debug)]
struct Exp {
    ev: Ev,          // Item holds the whole reply here
    items: usize,    // lines of a reply
    kind: Kind,      // context
    upto: usize,     // bytes of the connection that may have been requested by then
    eof: bool,       // its end may have been seen
}
fn reply_bytes(code: u16, t: &[u8]) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let chunks: Vec<&[u8]> = if t.is_empty() { vec![t] } else { t.chunks(506).collect() };
    for (i, c) in chunks.iter().enumerate() {
        v.extend_from_slice(format!("{:03}{}", code, if i + 1 == chunks.len() { ' ' } else { '-' }).as_bytes());
        v.extend_from_slice(c);
        v.extend_from_slice(b"\r\n");
    }
    (v, chunks.len())
}
fn model(plan: &Plan, input: &[u8]) -> Vec<Exp> {
    let mut out: Vec<Exp> = vec![];
    let mut calls = 0u64;
    let mut mail: Option<(Option<String>, Vec<String>)> = None;
    let mut pos = 0;
    let rep = |out: &mut Vec<Exp>, (c, t): (u16, Vec<u8>), kind, upto, eof| {
        let (b, n) = reply_bytes(c, &t);
        out.push(Exp { ev: Ev::Item(b), items: n, kind, upto, eof });
    };
    rep(&mut out, plan.reply(BANNER), Kind::Banner, 0, false);
    let call = |out: &mut Vec<Exp>, ev, upto| out.push(Exp { ev, items: 0, kind: Kind::Decided, upto, eof: false });
    while let Some(e) = input[pos..].windows(2).position(|w| w == b"\r\n") {
        let line = &input[pos..pos + e + 2];
        pos += e + 2;
        let refused = |s: &Step| (s.code, s.msg.clone());
        match ref_command(line) {
            Some(RCmd::Mail(from, _)) => {
                if mail.is_some() {
                    rep(&mut out, plan.reply(IN_MAIL), Kind::Sequence, pos, false);
                } else {
                    call(&mut out, Ev::New, pos);
                    calls += 1;
                    let s = plan.step(calls);
                    let mut f = from.map(|e| show(&email_bytes(&e)));
                    call(&mut out, Ev::From(f.clone(), calls), pos);
                    if s.change {
                        f = if s.side { None } else { Some(rewrite(&f.unwrap_or_default(), calls, &s)) };
                    }
                    if s.accept {
                        mail = Some((f, vec![]));
                        rep(&mut out, plan.reply(MAIL_OK), Kind::Decided, pos, false);
                    } else {
                        rep(&mut out, refused(&s), Kind::Refused, pos, false);
                    }
                }
            }
            Some(RCmd::Rcpt(to, _)) => match &mut mail {
                None => rep(&mut out, plan.reply(RCPT_EARLY), Kind::Sequence, pos, false),
                Some((f, ts)) => {
                    calls += 1;
                    let s = plan.step(calls);
                    let mut t = show(&email_bytes(&to));
                    call(&mut out, Ev::To(t.clone(), f.clone(), ts.clone(), calls), pos);
                    if s.change {
                        t = rewrite(&t, calls, &s);
                    }
                    if s.side {
                        ts.push("side".into());
                        if s.kind == 0 {
                            *f = Some(fresh(calls));
                        }
                    }
                    if s.accept {
                        ts.push(t);
                        rep(&mut out, plan.reply(RCPT_OK), Kind::Decided, pos, false);
                    } else {
                        rep(&mut out, refused(&s), Kind::Refused, pos, false);
                    }
                }
            },
            Some(RCmd::Word("DATA")) => match &mut mail {
                None => rep(&mut out, plan.reply(DATA_NO_MAIL), Kind::Sequence, pos, false),
                Some((_, ts)) if ts.is_empty() => rep(&mut out, plan.reply(DATA_NO_RCPT), Kind::Sequence, pos, false),
                Some((f, ts)) => {
                    calls += 1;
                    let s = plan.step(calls);
                    call(&mut out, Ev::Data(f.clone(), ts.clone(), calls), pos);
                    if s.change && s.side {
                        *f = Some(fresh(calls));
                    }
                    regroup(ts, &s, "late@x".into());
                    if !s.accept {
                        rep(&mut out, refused(&s), Kind::Refused, pos, false);
                        continue;
                    }
                    rep(&mut out, plan.reply(DATA_OK), Kind::GoAhead, pos, false);
                    calls += 1;
                    let s = plan.step(calls);
                    call(&mut out, Ev::Handle(f.clone(), ts.clone(), calls), pos);
                    mail = None;
                    let d = ref_decode(&input[pos..]);
                    let eof = d.is_none();
                    match d {
                        Some((data, rest)) => {
                            pos = input.len() - rest.len();
                            out.push(Exp { ev: Ev::Body(data, true), items: 0, kind: Kind::Decided, upto: pos, eof });
                        }
                        None => {
                            let p = pos;
                            pos = input.len();
                            out.push(Exp { ev: Ev::Body(input[p..].to_vec(), false), items: 0, kind: Kind::Decided, upto: pos, eof });
                        }
                    }
                    if s.accept {
                        rep(&mut out, plan.reply(ACCEPTED), Kind::Decided, pos, eof);
                    } else {
                        rep(&mut out, refused(&s), Kind::Refused, pos, eof);
                    }
                    if eof {
                        return out;
                    }
                }
            },
            Some(_) => rep(&mut out, plan.reply(UNIMPL), Kind::Unknown, pos, false),
            None => rep(&mut out, plan.reply(UNREC), Kind::Unknown, pos, false),
        }
    }
    out
}

// ---- running -----------------------------------------------------------------------------------
struct Run {
    log: Vec<Ev>,
    res: Result<(), ()>,
}
fn poll_to_end<F: Future>(f: F, limit: usize) -> Option<F::Output> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..limit {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
    }
    None
}
fn run(plan: &Plan, q: &[Option<Vec<u8>>], fail: FailMode, pend: u32) -> Result<Run, String> {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let conn = Conn {
        q: q.to_vec().into(),
        log: log.clone(),
        ended: false,
    };
    let mut cfg = Cfg {
        plan: plan.clone(),
        log: log.clone(),
        calls: 0,
    };
    let mut out = Out {
        log: log.clone(),
        n: 0,
        fail,
        pend,
    };
    let bytes: usize = q.iter().flatten().map(|x| x.len()).sum();
    let limit = 200 + 20 * (bytes + q.len());
    let l2 = log.clone();
    let r = panics(move || poll_to_end(interact(conn, Pin::new(&mut out), 0u64, &mut cfg), limit));
    let v = match l2.lock() {
        Ok(g) => g.clone(),
        Err(p) => p.into_inner().clone(),
    };
    match r {
        None => Err(format!("panic after {:?}", v.iter().rev().take(3).collect::<Vec<_>>())),
        Some(None) => Err("the session never ends".into()),
        Some(Some(res)) => Ok(Run { log: v, res }),
    }
}
/// (properties concerned, what)
type Div = (Vec<&'static str>, String);
fn short(e: &Ev) -> String {
    let s = match e {
        Ev::Item(b) => format!("reply \"{}\"", show(b)),
        Ev::Body(b, r) => format!("message \"{}\" complete={}", show(b), r),
        x => format!("{:?}", x),
    };
    s.chars().take(400).collect()
}
/// the number of lines the bytes written next make up, and the reply; None when they are no complete reply
fn observed(log: &[Ev]) -> (Vec<(Ev, usize, usize, bool)>, Vec<u8>, bool) {
    // groups items into replies; returns events with (bytes pulled, end seen) at that time
    let mut out = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut n = 0;
    let mut code = vec![];
    let mut pulled = 0;
    let mut end = false;
    let mut bad = false;
    for e in log {
        match e {
            Ev::Pull(k) => pulled += k,
            Ev::End => end = true,
            Ev::PollAfterEnd => {}
            Ev::Item(b) => {
                n += 1;
                cur.extend_from_slice(b);
                let ok = b.len() >= 6 && b.len() <= 512 && b.ends_with(b"\r\n") && b[..3].iter().all(|c| c.is_ascii_digit()) && (b[3] == b' ' || b[3] == b'-');
                if !ok || (n > 1 && code[..] != b[..3]) {
                    bad = true;
                    out.push((Ev::Item(std::mem::take(&mut cur)), n, pulled, end));
                    n = 0;
                    continue;
                }
                code = b[..3].to_vec();
                if b[3] == b' ' {
                    out.push((Ev::Item(std::mem::take(&mut cur)), n, pulled, end));
                    n = 0;
                }
            }
            x => {
                if n > 0 {
                    bad = true;
                    out.push((Ev::Item(std::mem::take(&mut cur)), n, pulled, end));
                    n = 0;
                }
                out.push((x.clone(), 0, pulled, end));
            }
        }
    }
    (out, cur, bad)
}
fn kinds(k: Kind) -> Vec<&'static str> {
    match k {
        Kind::Banner => vec!["S01", "S07"],
        Kind::Decided | Kind::Refused => vec!["S04"],
        Kind::GoAhead => vec!["S04", "S06"],
        Kind::Sequence => vec!["S02"],
        Kind::Unknown => vec!["S07"],
    }
}
fn compare(exp: &[Exp], r: &Run, q: &[Option<Vec<u8>>], fail: FailMode) -> Result<(), Div> {
    let (obs, partial, bad) = observed(&r.log);
    let mut ends = vec![0usize];
    for x in q.iter().flatten() {
        ends.push(ends.last().unwrap() + x.len());
    }
    let cap = |need: usize| *ends.iter().find(|e| **e >= need).unwrap_or(ends.last().unwrap());
    if r.log.contains(&Ev::PollAfterEnd) {
        return Err((vec!["S06"], "the connection was read again after it had reported its end".into()));
    }
    // how far the output may go
    let mut left = match fail {
        FailMode::Never => usize::MAX,
        FailMode::Ready(k) | FailMode::Start(k) | FailMode::Flush(k) => k,
    };
    for (i, e) in exp.iter().enumerate() {
        let o = obs.get(i);
        if let (Ev::Item(b), true) = (&e.ev, fail != FailMode::Never) {
            let over = match fail {
                FailMode::Flush(_) => e.items >= left,
                _ => e.items > left,
            };
            if over {
                // the failing reply: at most it (or part of it) was written, then the error is returned
                if obs.len() > i + 1 || (obs.len() == i + 1 && obs[i].0 != e.ev) || (obs.len() == i && !b.starts_with(&partial)) {
                    return Err((vec!["S01"], format!("after the connection could not be written: {:?}", obs.get(i..).map(|x| x.iter().map(|y| short(&y.0)).collect::<Vec<_>>()))));
                }
                if r.res.is_ok() {
                    return Err((vec!["S01"], "the connection could not be written, but the session reports success".into()));
                }
                return Ok(());
            }
            left -= e.items;
        }
        let o = match o {
            None => {
                let mut k = kinds(e.kind);
                match &e.ev {
                    Ev::Item(_) => k.extend(&["S01", "R04"]),
                    Ev::Body(..) => k.extend(&["S06"]),
                    _ => k.extend(&["S02", "S04"]),
                }
                if r.res.is_ok() {
                    k.push("S05");
                }
                return Err((k, format!("event {}: expected {}, got nothing more (unfinished output \"{}\")", i, short(&e.ev), show(&partial))));
            }
            Some(o) => o,
        };
        let same = match (&e.ev, &o.0) {
            (Ev::Body(a, false), Ev::Body(b, false)) => {
                // a truncated message: what was given out must be a prefix of its unstuffed form
                let mut full = a.clone();
                full.extend_from_slice(b"\r\n.\r\n");
                match ref_decode(&full) {
                    Some((d, _)) => d.starts_with(b),
                    None => false,
                }
            }
            (a, b) => a == b,
        };
        if !same {
            let mut k = kinds(e.kind);
            match (&e.ev, &o.0) {
                (Ev::Item(x), Ev::Item(y)) => {
                    if bad {
                        k.extend(&["R04", "S01"]);
                    }
                    if x.len() != y.len() && x.len() > 4 && y.len() > 4 && x[..3] == y[..3] {
                        k.push("R04");
                    }
                    // which reply is it?
                    if let Some(p) = exp.iter().find(|p| p.ev == o.0) {
                        k.extend(kinds(p.kind));
                    }
                    k.extend(&["S04"]);
                }
                (Ev::Item(_), _) => k.extend(&["S01", "S02"]),
                (Ev::Body(..), Ev::Body(..)) => k = vec!["S06", "S05"],
                (Ev::Body(..), _) | (_, Ev::Body(..)) => k = vec!["S06"],
                (Ev::From(..), Ev::From(..)) | (Ev::To(..), Ev::To(..)) | (Ev::Data(..), Ev::Data(..)) | (Ev::Handle(..), Ev::Handle(..)) => {
                    k = vec!["S03"];
                    // an envelope that something refused (or that is over) has touched
                    if exp[..i].iter().any(|x| x.kind == Kind::Refused) {
                        k.push("S04");
                    }
                }
                (_, Ev::Item(_)) => k.extend(&["S02", "S04", "S03"]),
                _ => k.extend(&["S02"]),
            }
            return Err((k, format!("event {}: expected {}, got {}", i, short(&e.ev), short(&o.0))));
        }
        let max = cap(e.upto);
        if o.2 > max || (o.3 && !e.eof) {
            let k = if e.kind == Kind::GoAhead { vec!["S06", "S01"] } else { vec!["S01"] };
            return Err((k, format!("event {} ({}): {} bytes had been read by then (end seen: {}), {} suffice", i, short(&e.ev), o.2, o.3, max)));
        }
    }
    if obs.len() > exp.len() || !partial.is_empty() {
        let x = obs.get(exp.len()).map(|o| o.0.clone()).unwrap_or(Ev::Item(partial));
        let k = match x {
            Ev::Item(_) => vec!["S01", "S05"],
            _ => vec!["S02", "S05"],
        };
        return Err((k, format!("after the last line: unexpected {}", short(&x))));
    }
    if r.res.is_err() {
        return Err((vec!["S01"], "the session reports an error, but nothing failed".into()));
    }
    Ok(())
}
fn one(plan: &Plan, input: &[u8], q: &[Option<Vec<u8>>], fail: FailMode, pend: u32) -> Result<(), Div> {
    let all: &[&str] = &["S01", "S02", "S03", "S04", "S05", "S06", "S07"];
    let exp = model(plan, input);
    let r = match run(plan, q, fail, pend) {
        Ok(r) => r,
        Err(e) => return Err((if e.starts_with("panic") { vec!["S01", "S02", "S05", "S06", "R04"] } else { all.to_vec() }, e)),
    };
    match compare(&exp, &r, q, fail) {
        Ok(()) => Ok(()),
        Err((mut k, w)) => {
            // does it depend on the packets?
            if fail == FailMode::Never && q.len() > 1 {
                let q1 = vec![Some(input.to_vec())];
                let bad1 = match run(plan, &q1, fail, pend) {
                    Ok(r1) => compare(&exp, &r1, &q1, fail).is_err(),
                    Err(_) => true,
                };
                if !bad1 {
                    k.push("S05");
                }
            }
            // does it depend on lines that must change nothing?
            if fail == FailMode::Never {
                let mut v = vec![];
                let mut at = 0;
                for e in exp.iter().filter(|e| e.kind == Kind::Unknown) {
                    let b = input[..e.upto - 2].windows(2).rposition(|w| w == b"\r\n").map_or(0, |i| i + 2);
                    v.extend_from_slice(&input[at..b]);
                    at = e.upto;
                }
                v.extend_from_slice(&input[at..]);
                if at > 0 {
                    let q1 = vec![Some(v.clone())];
                    let bad1 = match run(plan, &q1, fail, pend) {
                        Ok(r1) => compare(&model(plan, &v), &r1, &q1, fail).is_err(),
                        Err(_) => true,
                    };
                    if !bad1 {
                        k.push("S07");
                    }
                }
            }
            Err((k, w))
        }
    }
}

// ---- default configuration ---------------------------------------------------------------------
struct Def {
    host: Vec<u8>,
    log: Log,
}
impl Config<()> for Def {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(Decision::Accept))
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            while let Some(_) = stream.next().await {}
            let _ = stream.complete();
            self.log.lock().unwrap().push(Ev::New);
            Decision::Accept
        })
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from(self.host.clone())
    }
}
fn defaults(host: &[u8]) -> Result<(), String> {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let input = b"DATA\r\nRCPT TO:<a@b>\r\nNOOP\r\nFOO\r\nMAIL FROM:<a@b>\r\nMAIL FROM:<a@b>\r\nDATA\r\nRCPT TO:<c@d>\r\nDATA\r\nhi\r\n.\r\nHELP\r\n".to_vec();
    let conn = Conn { q: vec![Some(input)].into(), log: log.clone(), ended: false };
    let mut out = Out { log: log.clone(), n: 0, fail: FailMode::Never, pend: 0 };
    let mut cfg = Def { host: host.to_vec(), log: log.clone() };
    poll_to_end(interact(conn, Pin::new(&mut out), (), &mut cfg), 1000).ok_or("no end")?.map_err(|_| "error")?;
    let l = log.lock().unwrap().clone();
    let (obs, _, bad) = observed(&l);
    if bad {
        return Err("malformed reply".into());
    }
    let codes: Vec<String> = obs.iter().map(|o| match &o.0 {
        Ev::Item(b) => show(&b[..3]),
        _ => "handled".into(),
    }).collect();
    want("default reply codes", codes.join(" "), "220 503 503 502 500 250 503 503 250 354 handled 250 502".to_string())?;
    if let Ev::Item(b) = &obs[0].0 {
        let mut t = vec![];
        for l in b.split(|c| *c == b'\n') {
            if l.len() > 5 {
                t.extend_from_slice(&l[4..l.len() - 1]);
            }
        }
        let mut x = host.to_vec();
        x.push(b' ');
        if !t.starts_with(&x) {
            return Err(format!("the banner \"{}\" does not start with the host name \"{}\"", show(&t), show(host)));
        }
    }
    Ok(())
}

// ---- a handler that does not read the message to its end, or does not complete it -----------------
// The session may give up, or skip what was not read; it must not take message data for commands.
struct Careless {
    log: Log,
    reads: usize,
    done: bool,
    // the answer: accept, or refuse with this code
    code: u16,
    // mails read to their end before that
    good: usize,
}
impl Config<()> for Careless {
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        self.log.lock().unwrap().push(Ev::From(from.as_ref().map(estr), 0));
        Box::pin(future::ready(Decision::Accept))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(Decision::Accept))
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            if self.good > 0 {
                self.good -= 1;
                while let Some(_) = stream.next().await {}
                let _ = stream.complete();
                return Decision::Accept;
            }
            let mut over = false;
            for _ in 0..self.reads {
                if stream.next().await.is_none() {
                    over = true;
                    break;
                }
            }
            if over && self.done {
                let _ = stream.complete();
            }
            if self.code == 0 {
                return Decision::Accept;
            }
            Decision::Reject(Refusal { code: ReplyCode::custom(self.code), msg: SmtpString::from_static(b"no") })
        })
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"h")
    }
}
fn careless(reads: usize, done: bool, code: u16, good: usize, q: &[Option<Vec<u8>>]) -> Result<(), String> {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let conn = Conn { q: q.to_vec().into(), log: log.clone(), ended: false };
    let mut out = Out { log: log.clone(), n: 0, fail: FailMode::Never, pend: 0 };
    let mut cfg = Careless { log: log.clone(), reads, done, code, good };
    let _ = panics(move || {
        let _ = poll_to_end(interact(conn, Pin::new(&mut out), (), &mut cfg), 10_000);
    });
    let l = match log.lock() {
        Ok(l) => l.clone(),
        Err(e) => e.into_inner().clone(),
    };
    let froms: Vec<String> = l.iter().filter_map(|e| if let Ev::From(f, _) = e { f.clone() } else { None }).collect();
    if froms.iter().any(|f| f.contains("body")) {
        return Err(format!("message data the handler left unread was executed as a command (senders asked about: {})", froms.join(", ")));
    }
    Ok(())
}

// ---- generating sessions -----------------------------------------------------------------------
fn g_line(rng: &mut Rng, out: &mut Vec<u8>) {
    let l: &[u8] = match rng.below(24) {
        0..=4 => b"MAIL FROM:<a@b.c>\r\n",
        5 => b"mail from:<> X=Y\r\n",
        6..=10 => *rng.pick(&[&b"RCPT TO:<r1@x>\r\n"[..], b"RCPT TO:r2\r\n", b"rcpt to:<@q,@w:\"r 3\"@[1.2.3.4]> A=b\r\n", b"RCPT TO:<r1@x>\r\n"]),
        11..=14 => b"DATA\r\n",
        15 => b"data \t\r\n",
        16 => *rng.pick(&[&b"NOOP\r\n"[..], b"HELP x\r\n", b"EHLO a\r\n", b"HELO [1.2.3.4]\r\n", b"VRFY x\r\n", b"EXPN y\r\n", b"noop \xff\x00\r\n"]),
        17 => b"RSET\r\n",
        18 => b"QUIT\r\n",
        19 => *rng.pick(&[&b"FOO\r\n"[..], b"\r\n", b"DATA x\r\n", b"MAIL FROM:<\r\n", b"RCPT TO:<>\r\n", b"\x00\r\n", b" DATA\r\n", b"DATA\n\r\n", b"\r\r\n", b"MAIL FROM:<a@b.c>\n\r\n"]),
        20 => b"hello\r\n.\r\n",
        21 => b".\r\n",
        22 => b"..x\r\n.y\r\nz\r\n.\r\n",
        _ => b"\r\n.\r\n",
    };
    out.extend_from_slice(l);
    if l == b"DATA\r\n" && rng.one_in(2) {
        // a message
        for _ in 0..rng.below(4) {
            out.extend_from_slice(*rng.pick(&[&b"hi\r\n"[..], b"..\r\n", b"\r\n", b".x\r\n", b"a\rb\r\n", b"MAIL FROM:<e@e>\r\n", b"long long long long long long long long line\r\n"]));
        }
        out.extend_from_slice(b".\r\n");
    }
}
fn g_input(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    if rng.one_in(2) {
        // mostly a proper transaction
        for _ in 0..1 + rng.below(2) {
            for l in &[&b"MAIL FROM:<a@b.c>\r\n"[..], b"RCPT TO:<r1@x>\r\n", b"RCPT TO:<r2@x>\r\n", b"DATA\r\n"] {
                if !rng.one_in(10) {
                    v.extend_from_slice(l);
                }
                if rng.one_in(6) {
                    g_line(rng, &mut v);
                }
            }
            if rng.one_in(3) {
                // again, in case something was refused
                for _ in 0..1 + rng.below(2) {
                    v.extend_from_slice(*rng.pick(&[&b"DATA\r\n"[..], b"DATA\r\n", b"RCPT TO:<r3@x>\r\nDATA\r\n", b"MAIL FROM:<a2@b>\r\nDATA\r\n"]));
                }
            }
            let t = crate::data::rand_text(rng, 40);
            v.extend(t);
            v.extend_from_slice(b"\r\n.\r\n");
        }
    } else {
        for _ in 0..rng.below(10) {
            g_line(rng, &mut v);
        }
    }
    if rng.one_in(5) {
        let n = rng.below(v.len() + 1);
        v.truncate(n);
    }
    if rng.one_in(12) && !v.is_empty() {
        let i = rng.below(v.len());
        v[i] = *rng.pick(b"\r\n. x");
    }
    if rng.one_in(40) {
        let mut w = vec![b'x'; 3000];
        w.extend_from_slice(b"\r\n");
        w.extend(v);
        v = w;
    }
    v
}
/// long sessions: name, bytes, packet sizes (repeated)
fn big() -> Vec<(String, Vec<u8>, Vec<usize>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let rep = |b: &[u8], n: usize| -> Vec<u8> { b.iter().cloned().cycle().take(b.len() * n).collect() };
    for n in &[110usize, 300, 1100] {
        let mut s = b"MAIL FROM:<a@b.c>\r\n".to_vec();
        for i in 0..*n {
            s.extend_from_slice(format!("RCPT TO:<r{}@x>\r\n", i).as_bytes());
        }
        s.extend_from_slice(b"DATA\r\nDATA\r\nhi\r\n.\r\nNOOP\r\nRCPT TO:<a@b>\r\n");
        v.push((format!("a mail to {} recipients", n), s));
        let mut s = vec![];
        for l in &["NOOP\r\n", "FOO\r\n", "RCPT TO:<a@b>\r\n", "MAIL FROM:<a@b>\r\n", "DATA\r\n"] {
            s.extend(rep(l.as_bytes(), *n));
        }
        s.extend_from_slice(b"RCPT TO:<c@d>\r\nRCPT TO:<e@f>\r\nDATA\r\nDATA\r\nhi\r\n.\r\nNOOP\r\n");
        v.push((format!("{} times each of five lines, then a mail", n), s));
        v.push((format!("{} mails", n), rep(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nRCPT TO:<e@f>\r\nDATA\r\nhi\r\n.\r\n", *n)));
    }
    for n in &[490usize, 520, 1030, 2050, 4100, 9000, 17000, 33000, 70000] {
        let x = rep(b"x", *n);
        let y = rep(b"xy \r", *n / 4);
        let body: Vec<u8> = rep(b"line\r\n..\r\n.x\r\n", *n / 16);
        let text = [&b"NOOP "[..], &x, b"\r\nHELP ", &y, b"\r\n", &x, b"\r\n", &y, b"\r\nDATA\r\nMAIL FROM:<", &x, b"@b>\r\nRCPT TO:<c@d>\r\nRCPT TO:<", &x, b">\r\nDATA\r\n", &body, b".\r\nNOOP\r\nMAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n", &x, b"\r\n.", &x, b"\r\n.\r\nNOOP\r\n"].concat();
        v.push((format!("lines and messages of about {} bytes", n), text));
    }
    let mut out = vec![];
    for (w, s) in v {
        out.push((w.clone(), s.clone(), vec![s.len()]));
        out.push((w.clone(), s.clone(), vec![1400, 1500, 1]));
        out.push((w, s, vec![4096, 8191]));
    }
    out
}
pub const RULE: &str = "sessions of valid, damaged and out-of-sequence lines and messages, decisions by a plan that also changes addresses, packets cut anywhere, writers that fail; non-trivial: at least one line; distinct by input, packets, plan and failure";
pub fn sessions(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let id = rec.prop.clone();
    let mut go = |rec: &mut Rec, plan: &Plan, input: &[u8], q: &[Option<Vec<u8>>], fail: FailMode, pend: u32| -> Result<(), Fail> {
        let case = format!("plan {}{} packets {} fail {:?} sink-pending {}", plan.seed, if plan.long { " long" } else { "" }, show_q(q), fail, pend > 0);
        let nt = input.windows(2).any(|w| w == b"\r\n");
        rec.case(&case, nt, || match one(plan, input, q, fail, pend) {
            Ok(()) => Ok(()),
            Err((ids, w)) => {
                if ids.contains(&&id[..]) {
                    Err(w)
                } else {
                    Ok(())
                }
            }
        })
    };
    if rec.prop == "S07" {
        for h in &[&b"mx.example.org"[..], b"a", b"", &[b'h'; 600]] {
            rec.case(&format!("default replies, host \"{}\"", show(h)), true, || defaults(h))?;
        }
    }
    if rec.prop == "S06" {
        let pieces: Vec<&[u8]> = vec![b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n", b"hi\r\nMAIL FROM:<body1@x>\r\n", b"MAIL FROM:<body2@x>\r\n", b"MAIL FROM:<body3@x>\r\n.\r\n", b"MAIL FROM:<after@x>\r\n"];
        for how in 0..36usize {
            let (reads, code, good) = (how % 6, [0u16, 451, 250][how / 6 % 3], how / 18);
            for done in &[false, true] {
                for cut in 0..16u32 {
                    // pieces joined into packets
                    let mut q: Vec<Option<Vec<u8>>> = vec![Some(pieces[0].to_vec())];
                    if good == 1 {
                        q.insert(0, Some(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nhi\r\n.\r\n".to_vec()));
                    }
                    for i in 1..pieces.len() {
                        if cut >> (i - 1) & 1 == 1 {
                            q.push(Some(pieces[i].to_vec()));
                        } else if let Some(Some(l)) = q.last_mut() {
                            l.extend_from_slice(pieces[i]);
                        }
                    }
                    let case = format!("a handler that takes at most {} pieces of the message{}, packets {}", reads, if *done { "" } else { " and never completes it" }, show_q(&q));
                    let case = format!("{}, answering {}{}", case, if code == 0 { "accept".to_string() } else { code.to_string() }, if good == 1 { ", after one it reads to its end" } else { "" });
                    rec.case(&case, true, || careless(reads, *done, code, good, &q))?;
                }
            }
        }
        rec.exhaustive.push("handlers taking 0 to 5 pieces of one message and accepting or refusing it, in 16 packetisations".to_string());
    }
    for (what, input, cuts) in big() {
        for seed in &[3u64, 4] {
            let plan = Plan { seed: *seed, long: false };
            let mut q: Vec<Option<Vec<u8>>> = vec![];
            let (mut i, mut k) = (0, 0);
            while i < input.len() {
                let n = cuts[k % cuts.len()].min(input.len() - i);
                q.push(Some(input[i..i + n].to_vec()));
                i += n;
                k += 1;
            }
            let case = format!("{} (plan {}, packets of {:?} bytes)", what, seed, cuts);
            rec.case(&case, true, || match one(&plan, &input, &q, FailMode::Never, 0) {
                Err((ids, w)) if ids.contains(&&id[..]) => Err(w),
                _ => Ok(()),
            })?;
        }
    }
    rec.exhaustive.push("some long sessions: hundreds of lines, recipients and mails, lines and messages of up to 70000 bytes".into());
    // every sequence of up to 4 lines, decisions accepting, each also with refusals
    let lines: Vec<&[u8]> = vec![b"MAIL FROM:<a@b>\r\n", b"RCPT TO:<c@d>\r\n", b"DATA\r\n", b"x\r\n.\r\n", b"NOOP\r\n", b".\r\n", b"RSET\r\n"];
    'ex: for len in 0..=5u32 {
        for k in 0..lines.len().pow(len) {
            let mut c = k;
            let mut v = vec![];
            for _ in 0..len {
                v.extend_from_slice(lines[c % lines.len()]);
                c /= lines.len();
            }
            let q = vec![Some(v.clone())];
            for seed in &[3u64, 4, 5] {
                go(rec, &Plan { seed: *seed, long: false }, &v, &q, FailMode::Never, 0)?;
            }
            if !rec.time_left() || (len == 5 && rec.evals > 40_000) {
                break 'ex;
            }
        }
        rec.exhaustive.push(format!("all sequences of {} lines out of 7", len));
    }
    while rec.time_left() {
        let input = g_input(rng);
        let plan = Plan { seed: rng.next() % 1_000_000, long: rng.one_in(4) };
        let q = if rng.one_in(4) { vec![Some(input.clone())] } else { rand_split(rng, &input, true) };
        let k = rng.below(12);
        let fail = match rng.below(9) {
            0 => FailMode::Ready(k),
            1 => FailMode::Start(k),
            2 => FailMode::Flush(k + 1),
            _ => FailMode::Never,
        };
        let pend = rng.below(2) as u32;
        go(rec, &plan, &input, &q, fail, pend)?;
    }
    Ok(())
}

/// R04: every reply decomposes into the full text
pub const RULE_R4: &str = "banner and command replies with texts of any length; non-trivial: all; distinct by texts";
pub fn replies(rec: &mut Rec, rng: &mut Rng) -> Result<(), Fail> {
    let one = |c: u16, t: &[u8]| -> Result<(), String> {
        let log: Log = Arc::new(Mutex::new(vec![]));
        let conn = Conn { q: vec![Some(b"X\r\n".to_vec())].into(), log: log.clone(), ended: false };
        let mut out = Out { log: log.clone(), n: 0, fail: FailMode::Never, pend: 0 };
        struct One(u16, Vec<u8>);
        impl Config<()> for One {
            fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
                Box::pin(future::ready(Decision::Accept))
            }
            fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
                Box::pin(future::ready(Decision::Accept))
            }
            fn handle_mail<'a, S>(&'a mut self, _: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
            where
                S: 'a + Unpin + Stream<Item = BytesMut>,
            {
                Box::pin(future::ready(Decision::Accept))
            }
            fn hostname(&self) -> SmtpString {
                SmtpString::from_static(b"h")
            }
            fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
                (ReplyCode::custom(self.0), SmtpString::from(self.1.clone()))
            }
            fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
                (ReplyCode::custom(self.0), SmtpString::from(self.1.clone()))
            }
        }
        let mut cfg = One(c, t.to_vec());
        poll_to_end(interact(conn, Pin::new(&mut out), (), &mut cfg), 1000).ok_or("no end")?.map_err(|_| "error")?;
        let l = log.lock().unwrap().clone();
        let mut w = vec![];
        for e in &l {
            if let Ev::Item(b) = e {
                w.extend_from_slice(b);
            }
        }
        let (x, _) = reply_bytes(c, t);
        want_b("the banner and the reply to one line", &w, &[&x[..], &x[..]].concat())
    };
    for n in 0..1600 {
        let t: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
        rec.case(&format!("text of {} bytes", n), true, || one(250, &t))?;
    }
    for k in &[5usize, 10, 16, 17, 20, 32, 33, 64, 100, 130, 256, 300] {
        for d in 0..3 {
            let n = 506 * k + d - 1;
            let t: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
            rec.case(&format!("text of {} bytes", n), true, || one(250, &t))?;
        }
    }
    rec.exhaustive.push("every text length up to 1600; some up to 300 lines".into());
    while rec.time_left() {
        let base = *rng.pick(&[0usize, 506, 1012, 1518, 5060]);
        let n = (base + rng.below(5)).saturating_sub(rng.below(5));
        let t: Vec<u8> = (0..n).map(|_| if rng.one_in(30) { 9 } else { 32 + rng.below(95) as u8 }).collect();
        let c = rng.below(1000) as u16;
        rec.case(&format!("{} \"{}\"", c, show(&t)), true, || one(c, &t))?;
    }
    Ok(())
}
