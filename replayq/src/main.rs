//! Search for a history of storage and transport outcomes on which the real queue code leaves
//! its contract.  Time is virtual: the parked executor advances the clock.
#[path = "../../replay/src/frame.rs"]
#[allow(dead_code)]
mod frame;

use bytes::BytesMut;
use frame::*;
use futures::{future, stream, Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, Sendable, SmtpString};
use smtp_queue::{InflightMail, Mail, QueuedMail, Storage, Transport, VxFoundInflightMail};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio_executor::park::{Park, Unpark};
use tokio_timer::clock::{self, Clock, Now};
use tokio_timer::timer::{self, Timer};

type BF<T, E> = Box<dyn Future<Item = T, Error = E> + Send>;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    List,
    Listed(usize),
    ListEnd(bool),
    Find,
    FoundOne(usize),
    FindEnd(bool),
    Found(usize, bool, u64),
    Start(usize, bool),
    Get(usize, bool),
    Send(usize),
    Sent(usize, bool),
    Done(usize, bool),
    Cancel(usize, bool),
}

/// what happens to one mail: f = sending fails, put back; then one of
/// d done, e done fails, s start fails, g reading fails, c sending fails and putting back fails.
/// x: (found in flight) returning it fails
#[derive(Clone)]
struct Plan {
    script: Vec<u8>,
}
struct World {
    plans: Vec<Plan>,
    pos: Vec<usize>,
    log: Vec<Ev>,
    nq: usize,
    list_ok: bool,
    find_ok: bool,
    rng: Rng,
    slow: usize,
    now: Instant,
    t0: Instant,
    seed: u64,
    wrong: Option<String>,
}
#[derive(Clone)]
struct W(Arc<Mutex<World>>);
impl W {
    fn log(&self, e: Ev) {
        let mut w = self.0.lock().unwrap();
        if w.log.len() > 20000 + 40 * w.plans.len() {
            w.wrong = Some("more than 20000 operations".into());
            panic!("endless");
        }
        w.log.push(e)
    }
    fn cur(&self, id: usize) -> u8 {
        let w = self.0.lock().unwrap();
        *w.plans[id].script.get(w.pos[id]).unwrap_or(&b'd')
    }
    fn step(&self, id: usize) {
        self.0.lock().unwrap().pos[id] += 1
    }
    /// a future that is pending a random number of times (or for some virtual time), then runs f
    fn later<T: Send + 'static, E: Send + 'static, F: FnOnce(&W) -> Result<T, E> + Send + 'static>(&self, f: F) -> BF<T, E> {
        let (n, secs) = {
            let mut w = self.0.lock().unwrap();
            let s = w.slow;
            match s {
                0 => (0, 0),
                1 => (w.rng.below(3), 0),
                _ => (w.rng.below(3), if w.rng.one_in(3) { w.rng.below(5000) as u64 } else { 0 }),
            }
        };
        let w = self.clone();
        let mut f = Some(f);
        let mut n = n;
        let go = future::poll_fn(move || {
            if n > 0 {
                n -= 1;
                futures::task::current().notify();
                return Ok(Async::NotReady);
            }
            (f.take().expect("polled after its end"))(&w).map(Async::Ready)
        });
        if secs > 0 {
            let at = self.0.lock().unwrap().now + Duration::from_secs(secs);
            Box::new(tokio_timer::Delay::new(at).then(move |_| go))
        } else {
            Box::new(go)
        }
    }
}

/// the content of a mail: sender, recipients, pieces of data
fn content(id: usize, seed: u64) -> (Option<String>, Vec<String>, Vec<Vec<u8>>) {
    let mut r = Rng::new(seed.wrapping_mul(41).wrapping_add(id as u64));
    let from = if r.one_in(3) { None } else { Some(format!("s{}@example.org", id)) };
    let to = (0..r.below(4)).map(|i| format!("r{}@d{}.example", i, r.below(9))).collect();
    let data = (0..r.below(4)).map(|_| (0..r.below(5)).map(|_| *r.pick(b"\r\n.x\x00\xff")).collect()).collect();
    (from, to, data)
}
fn email(s: &str) -> Email {
    Email::parse_slice(s.as_bytes()).expect("an address")
}
fn shown(e: &Email) -> String {
    let mut v = vec![];
    e.send_to(&mut v).unwrap();
    String::from_utf8_lossy(&v).into_owned()
}
struct Qm(usize);
struct Im(usize, W);
struct Fim(usize);
impl QueuedMail<usize> for Qm {}
impl VxFoundInflightMail<usize> for Fim {}
impl InflightMail<usize> for Im {
    fn get_mail(&self) -> BF<Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, usize>, ()> {
        let id = self.0;
        let g = self.1.later::<(), (), _>(move |w| {
            let ok = w.cur(id) != b'g';
            w.log(Ev::Get(id, ok));
            if ok { Ok(()) } else { Err(()) }
        });
        let seed = self.1 .0.lock().unwrap().seed;
        Box::new(g.map(move |()| {
            let (from, to, data) = content(id, seed);
            let data = data.into_iter().map(BytesMut::from).collect::<Vec<_>>();
            let b: Box<dyn Stream<Item = BytesMut, Error = ()>> = Box::new(stream::iter_ok(data));
            Mail { from: from.map(|x| email(&x)), to: to.iter().map(|x| email(x)).collect(), data: b, metadata: id }
        }))
    }
}
struct Items {
    w: W,
    ids: Vec<usize>,
    i: usize,
    mark: fn(usize) -> Ev,
    end: fn(bool) -> Ev,
    ok: bool,
    done: bool,
    yielded: bool,
}
struct IdStream(Items);
impl Stream for IdStream {
    type Item = usize;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<usize>, ()> {
        let s = &mut self.0;
        if !s.yielded && {
            let mut w = s.w.0.lock().unwrap();
            w.slow > 0 && w.rng.one_in(2)
        } {
            s.yielded = true;
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        s.yielded = false;
        if s.done {
            panic!("polled after its end");
        }
        if s.i < s.ids.len() {
            s.i += 1;
            let id = s.ids[s.i - 1];
            s.w.log((s.mark)(id));
            return Ok(Async::Ready(Some(id)));
        }
        s.done = true;
        s.w.log((s.end)(s.ok));
        if s.ok { Ok(Async::Ready(None)) } else { Err(()) }
    }
}
struct St(W);
impl Storage<usize, Qm, Im, Fim> for St {
    fn list_queue(&self) -> Box<dyn Stream<Item = Qm, Error = ()>> {
        self.0.log(Ev::List);
        let w = self.0 .0.lock().unwrap();
        Box::new(
            IdStream(Items { w: self.0.clone(), ids: (0..w.nq).collect(), i: 0, mark: Ev::Listed, end: Ev::ListEnd, ok: w.list_ok, done: false, yielded: false })
                .map(Qm),
        )
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = Fim, Error = ()>> {
        self.0.log(Ev::Find);
        let w = self.0 .0.lock().unwrap();
        Box::new(
            IdStream(Items {
                w: self.0.clone(),
                ids: (w.nq..w.plans.len()).collect(),
                i: 0,
                mark: Ev::FoundOne,
                end: Ev::FindEnd,
                ok: w.find_ok,
                done: false,
                yielded: false,
            })
            .map(Fim),
        )
    }
    fn cancel_found_inflight(&self, mail: Fim) -> BF<Qm, ()> {
        let id = mail.0;
        // the moment counts at which the operation is started
        let at = {
            let w = self.0 .0.lock().unwrap();
            w.now.duration_since(w.t0).as_secs()
        };
        self.0.later(move |w| {
            let ok = w.cur(id) != b'x';
            w.log(Ev::Found(id, ok, at));
            if ok { Ok(Qm(id)) } else { Err(()) }
        })
    }
    fn enqueue<S: Stream<Item = BytesMut, Error = ()>>(&self, _: Mail<S, usize>) -> Box<dyn Future<Item = Qm, Error = ()>> {
        self.0 .0.lock().unwrap().wrong = Some("enqueue called".into());
        Box::new(future::err(()))
    }
    fn send_start(&self, mail: Qm) -> BF<Im, ()> {
        let id = mail.0;
        self.0.later(move |w| {
            let ok = w.cur(id) != b's';
            w.log(Ev::Start(id, ok));
            if ok { Ok(Im(id, w.clone())) } else { Err(()) }
        })
    }
    fn send_done(&self, mail: Im) -> BF<(), ()> {
        let id = mail.0;
        self.0.later(move |w| {
            let ok = w.cur(id) != b'e';
            w.log(Ev::Done(id, ok));
            if ok { Ok(()) } else { Err(()) }
        })
    }
    fn send_cancel(&self, mail: Im) -> BF<Qm, ()> {
        let id = mail.0;
        self.0.later(move |w| {
            let ok = w.cur(id) == b'f';
            w.log(Ev::Cancel(id, ok));
            if w.cur(id) == b'f' {
                w.step(id);
            }
            if ok { Ok(Qm(id)) } else { Err(()) }
        })
    }
}
const CODES: [u16; 24] = [
    550, 421, 450, 451, 452, 454, 455, 500, 501, 502, 503, 504, 551, 552, 553, 554, 555, 432, 530, 535, 250, 354, 100, 599,
];
struct Tr(W);
impl Transport<usize> for Tr {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, usize>) -> BF<(), (ReplyCode, SmtpString)> {
        let id = mail.metadata;
        let mut data = vec![];
        let mut d = mail.data;
        // the streams of the mails are always ready
        let end = loop {
            match d.poll() {
                Ok(Async::Ready(Some(b))) => data.extend_from_slice(&b),
                e => break e,
            }
        };
        let seed = self.0 .0.lock().unwrap().seed;
        let (f, t, x) = content(id, seed);
        if end != Ok(Async::Ready(None)) || data != x.concat() || mail.from.as_ref().map(shown) != f || mail.to.iter().map(shown).collect::<Vec<_>>() != t {
            self.0 .0.lock().unwrap().wrong = Some(format!("the transport got another mail than {}", id));
        }
        self.0.log(Ev::Send(id));
        self.0.later(move |w| {
            let ok = !b"fc".contains(&w.cur(id));
            w.log(Ev::Sent(id, ok));
            if ok {
                Ok(())
            } else {
                let mut g = w.0.lock().unwrap();
                let c = *g.rng.pick(&CODES);
                let t = *g.rng.pick(&[&b"no"[..], b"", b"4.2.1 come back later", b"\xff\r\n"]);
                Err((ReplyCode::custom(c), SmtpString::from(t.to_vec())))
            }
        })
    }
}

// virtual time
struct VNow(W);
impl Now for VNow {
    fn now(&self) -> Instant {
        self.0 .0.lock().unwrap().now
    }
}
struct VPark(W, u32);
#[derive(Clone)]
struct VUnpark;
impl Unpark for VUnpark {
    fn unpark(&self) {}
}
impl Park for VPark {
    type Unpark = VUnpark;
    type Error = ();
    fn unpark(&self) -> VUnpark {
        VUnpark
    }
    fn park(&mut self) -> Result<(), ()> {
        self.1 += 1;
        if self.1 > 20000 + 100 * self.0 .0.lock().unwrap().plans.len() as u32 {
            panic!("stuck: something is waited for that never happens");
        }
        Ok(())
    }
    fn park_timeout(&mut self, d: Duration) -> Result<(), ()> {
        self.1 = 0;
        self.0 .0.lock().unwrap().now += d;
        Ok(())
    }
}

fn enter<F: FnOnce(&mut tokio_current_thread::Entered<Timer<VPark>>)>(w: &W, f: F) {
    let ck = Clock::new_with_now(VNow(w.clone()));
    let timer = Timer::new_with_now(VPark(w.clone(), 0), ck.clone());
    let th = timer.handle();
    let mut ex = tokio_current_thread::CurrentThread::new_with_park(timer);
    let mut enter = tokio_executor::enter().expect("one executor");
    clock::with_default(&ck, &mut enter, |enter| {
        timer::with_default(&th, enter, |enter| {
            let mut d = tokio_current_thread::TaskExecutor::current();
            tokio_executor::with_default(&mut d, enter, |enter| {
                let mut e = ex.enter(enter);
                f(&mut e)
            })
        })
    });
}

struct Case {
    whole: bool,
    nq: usize,
    plans: Vec<Plan>,
    list_ok: bool,
    find_ok: bool,
    slow: usize,
    seed: u64,
}
impl Case {
    fn text(&self) -> String {
        let s = |p: &Plan| String::from_utf8(p.script.clone()).unwrap();
        format!(
            "{} queue=[{}]{} inflight=[{}]{} slow={} seed={}",
            if self.whole { "run" } else { "send" },
            self.plans[..self.nq].iter().map(s).collect::<Vec<_>>().join(","),
            if self.list_ok { "" } else { "!" },
            self.plans[self.nq..].iter().map(s).collect::<Vec<_>>().join(","),
            if self.find_ok { "" } else { "!" },
            self.slow,
            self.seed
        )
    }
}

fn expected(id: usize, script: &[u8]) -> Vec<Ev> {
    let mut v = vec![];
    for &c in script {
        v.push(Ev::Start(id, c != b's'));
        if c == b's' {
            return v;
        }
        v.push(Ev::Get(id, c != b'g'));
        if c == b'g' {
            return v;
        }
        v.push(Ev::Send(id));
        v.push(Ev::Sent(id, c != b'f' && c != b'c'));
        match c {
            b'f' => v.push(Ev::Cancel(id, true)),
            b'c' => {
                v.push(Ev::Cancel(id, false));
                return v;
            }
            _ => {
                v.push(Ev::Done(id, c == b'd'));
                return v;
            }
        }
    }
    v
}
fn of(e: &Ev) -> Option<usize> {
    use Ev::*;
    match *e {
        Found(i, _, _) | Start(i, _) | Get(i, _) | Send(i) | Sent(i, _) | Done(i, _) | Cancel(i, _) => Some(i),
        _ => None,
    }
}

fn judge(c: &Case) -> Result<(), String> {
    let now = Instant::now();
    let w = W(Arc::new(Mutex::new(World {
        plans: c.plans.clone(),
        pos: vec![0; c.plans.len()],
        log: vec![],
        nq: c.nq,
        list_ok: c.list_ok,
        find_ok: c.find_ok,
        rng: Rng::new(c.seed),
        slow: c.slow,
        now,
        t0: now,
        seed: c.seed,
        wrong: None,
    })));
    // leftovers count their script after the return operation
    let (st, tr) = (Arc::new(St(w.clone())), Arc::new(Tr(w.clone())));
    let mut res: Result<(), ()> = Ok(());
    enter(&w, |e| {
        if c.whole {
            let f = smtp_queue::run(st.clone(), tr.clone());
            match e.block_on(f) {
                Ok(()) => {}
                Err(_) => res = Err(()),
            }
        } else {
            for id in 0..c.nq {
                e.spawn(smtp_queue::vx::send_queued_mail(st.clone(), tr.clone(), Qm(id)));
            }
        }
        let _ = e.run();
    });
    let w = w.0.lock().unwrap();
    let mut why = None;
    if let Some(x) = &w.wrong {
        why = Some(x.clone());
    }
    let mut of_mail: Vec<Vec<Ev>> = vec![vec![]; c.plans.len()];
    let mut seen = vec![false; c.plans.len()];
    for e in &w.log {
        if let Some(id) = of(e) {
            of_mail[id].push(e.clone());
        }
        match *e {
            Ev::Listed(id) if id < c.nq => seen[id] = true,
            Ev::FoundOne(id) if id >= c.nq => seen[id] = true,
            _ => (),
        }
    }
    let listed = |id: usize| !c.whole || seen[id];
    for id in 0..c.plans.len() {
        let got = std::mem::replace(&mut of_mail[id], vec![]);
        let mut exp = vec![];
        let p = &c.plans[id].script;
        if id < c.nq {
            if listed(id) {
                exp = expected(id, p);
            }
        } else if seen[id] {
            match got.first() {
                Some(Ev::Found(_, _, at)) => {
                    if *at < 3600 {
                        why = Some(format!("mail {} was returned to the queue {} s after start-up", id, at));
                    }
                    exp.push(Ev::Found(id, p[0] != b'x', *at));
                }
                _ => exp.push(Ev::Found(id, p[0] != b'x', 3600)),
            }
            if p[0] != b'x' {
                exp.extend(expected(id, p));
            }
        }
        if got != exp && why.is_none() {
            why = Some(format!("mail {}: operations {:?}, the contract says {:?}", id, got, exp));
        }
    }
    if c.whole && why.is_none() {
        let head: Vec<Ev> = w.log.iter().filter(|e| of(e).is_none()).cloned().collect();
        let mut exp = vec![Ev::List];
        exp.extend((0..c.nq).map(Ev::Listed));
        exp.push(Ev::ListEnd(c.list_ok));
        if c.list_ok {
            exp.push(Ev::Find);
            exp.extend((c.nq..c.plans.len()).map(Ev::FoundOne));
            exp.push(Ev::FindEnd(c.find_ok));
        }
        // after a failed listing the rest of start-up is left open
        let cut = if c.list_ok { head.len() } else { exp.len().min(head.len()) };
        if head[..cut] != exp[..] {
            why = Some(format!("start-up: {:?}, the contract says {:?}", head, exp));
        }
        let _ = res;
    }
    match why {
        None => Ok(()),
        Some(x) => {
            let mut l = format!("{:?}", w.log);
            l.truncate(3000);
            Err(format!("{}; history {}", x, l))
        }
    }
}

fn plan(rng: &mut Rng, inflight: bool) -> Plan {
    if inflight && rng.one_in(6) {
        return Plan { script: b"x".to_vec() };
    }
    let mut s = vec![];
    while rng.one_in(2) && s.len() < 6 {
        s.push(b'f');
    }
    s.push(if rng.one_in(2) { b'd' } else { *rng.pick(b"esgc") });
    Plan { script: s }
}

pub const RULE: &str = "at least one mail went through the code; distinct by queue content, outcomes and seed of the delays";

fn go(rec: &mut Rec, rng: &mut Rng, whole: bool) -> Result<(), Fail> {
    let mut one = |rec: &mut Rec, c: Case| -> Result<(), Fail> {
        let t = c.text();
        let nt = !c.plans.is_empty();
        rec.case(&t, nt, || judge(&c))
    };
    // every outcome of one mail, at most five failed sendings
    for n in 0..6 {
        for &t in b"desgc" {
            for slow in 0..3 {
                let mut s = vec![b'f'; n];
                s.push(t);
                let p = Plan { script: s };
                one(rec, Case { whole, nq: 1, plans: vec![p.clone()], list_ok: true, find_ok: true, slow, seed: 1 })?;
                if whole {
                    one(rec, Case { whole, nq: 0, plans: vec![p], list_ok: true, find_ok: true, slow, seed: 1 })?;
                }
            }
        }
    }
    rec.exhaustive.push("one mail: at most five failed attempts, then every end".into());
    if whole {
        for nq in 0..4 {
            for nf in 0..4 {
                for fl in 0..4 {
                    for slow in 0..3 {
                        let plans = (0..nq + nf).map(|_| Plan { script: b"d".to_vec() }).collect();
                        one(rec, Case { whole, nq, plans, list_ok: fl & 1 == 0, find_ok: fl & 2 == 0, slow, seed: 1 })?;
                    }
                }
            }
        }
        rec.exhaustive.push("at most three queued and three in flight, each listing complete or broken off".into());
    }
    for n in &[10usize, 16, 17, 33, 64, 100, 128, 200, 256, 300] {
        let mut s = vec![b'f'; *n];
        s.push(b'd');
        let many = vec![Plan { script: s }];
        one(rec, Case { whole, nq: 1, plans: many.clone(), list_ok: true, find_ok: true, slow: 0, seed: 1 })?;
        let each: Vec<Plan> = (0..*n).map(|i| Plan { script: if i % 3 == 0 { b"fd".to_vec() } else { b"d".to_vec() } }).collect();
        one(rec, Case { whole, nq: *n, plans: each.clone(), list_ok: true, find_ok: true, slow: 1, seed: 1 })?;
        if whole {
            one(rec, Case { whole, nq: 0, plans: many, list_ok: true, find_ok: true, slow: 0, seed: 1 })?;
            one(rec, Case { whole, nq: 0, plans: each.clone(), list_ok: true, find_ok: true, slow: 1, seed: 1 })?;
            one(rec, Case { whole, nq: *n / 2, plans: each, list_ok: true, find_ok: true, slow: 2, seed: 1 })?;
        }
    }
    rec.exhaustive.push("some queues of up to 300 mails, mails refused up to 300 times".into());
    for n in &[513usize, 1025, 2049, 4200, 10100] {
        let all: Vec<Plan> = (0..*n).map(|_| Plan { script: b"d".to_vec() }).collect();
        one(rec, Case { whole, nq: *n, plans: all.clone(), list_ok: true, find_ok: true, slow: 0, seed: 1 })?;
        if whole {
            one(rec, Case { whole, nq: 0, plans: all, list_ok: true, find_ok: true, slow: 0, seed: 1 })?;
        }
    }
    rec.exhaustive.push("some queues of up to 10100 mails".into());
    while rec.time_left() {
        let big = rng.one_in(30);
        let nq = rng.below(if big { 40 } else { 5 });
        let nf = if whole { rng.below(if big { 40 } else { 4 }) } else { 0 };
        let mut plans: Vec<Plan> = (0..nq).map(|_| plan(rng, false)).collect();
        plans.extend((0..nf).map(|_| plan(rng, true)));
        let c = Case { whole, nq, plans, list_ok: !rng.one_in(8), find_ok: !rng.one_in(8), slow: rng.below(3), seed: rng.next() % 100000 };
        one(rec, c)?;
    }
    Ok(())
}

fn main() {
    frame_main(|prop, rec, rng| match prop {
        "Q01" => Some((RULE, go(rec, rng, false).and_then(|()| Ok(())))),
        "Q02" => Some((RULE, go(rec, rng, true))),
        _ => None,
    })
}
