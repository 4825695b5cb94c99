// ---- what the queue code is given: a storage, a transport, a clock --------------------------
// Opaque stand-ins for the type parameters.  A value is its own identity: the storage may give
// back any value, so code that takes one mail for another cannot be proved.
#[verifier::external_body] pub struct QM { x: u8 }
#[verifier::external_body] pub struct IM { x: u8 }
#[verifier::external_body] pub struct FIM { x: u8 }
#[verifier::external_body] pub struct M { x: u8 }
#[verifier::external_body] pub struct Email { x: u8 }
#[verifier::external_body] pub struct Body { x: u8 }
#[verifier::external_body] pub struct ReplyCode { x: u8 }
#[verifier::external_body] pub struct SmtpString { x: u8 }
#[verifier::external_body] pub struct TimerError { x: u8 }
//@type smtp-queue/src/mail.rs Mail
pub type Content = Mail<Body, M>;

impl ReplyCode {
    #[verifier::external_body]
    pub fn code(&self) -> (r: u16) { unimplemented!() }
}
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

// ---- the deliveries as a state machine ---------------------------------------------------
// one mail, from the queue to the end of its delivery
pub enum N {
    Queued(QM),             // in the queue, to be sent
    Inflight(IM),           // moved in flight
    Have(IM, Content),      // its content was read
    Accepted(IM),           // the transport took that content
    Refused(IM),            // the transport did not
}
pub enum Phase { Listing, Finding }
pub enum St {
    Begin,                  // start-up began
    Top(Phase),             // between two mails of a pass
    Between,                // the queue was listed to its end
    Broken,                 // listing the queue failed half-way
    Sending(Phase, N),      // a mail is being delivered
    Found(FIM),             // a mail was found in flight
    Waited(FIM),            // and the hour is over
    End, FindBroken,
    Bad,                    // none of the legal histories
}
pub enum Ev {
    ListQueue, Listed(QM), ListEnd, ListError,
    FindInflight, FoundOne(FIM), FindEnd, FindError,
    Delay(int, bool),               // waited until then; false: the timer failed
    CancelFound(FIM, Option<QM>),
    Start(QM, Option<IM>), Get(IM, Option<Content>), Send(Content, bool), Done(IM, bool), Cancel(IM, Option<QM>),
}
// the moment start-up began, in nanoseconds
pub uninterp spec fn begun() -> int;
pub open spec fn hour() -> int { 3_600_000_000_000 }
pub open spec fn step(s: St, e: Ev) -> St {
    match (s, e) {
        (St::Begin, Ev::ListQueue) => St::Top(Phase::Listing),
        // every listed mail is handed to delivery before the next
        (St::Top(Phase::Listing), Ev::Listed(q)) => St::Sending(Phase::Listing, N::Queued(q)),
        (St::Top(Phase::Listing), Ev::ListEnd) => St::Between,
        (St::Top(Phase::Listing), Ev::ListError) => St::Broken,
        (St::Between, Ev::FindInflight) => St::Top(Phase::Finding),
        (St::Broken, Ev::FindInflight) => St::Top(Phase::Finding),
        // every mail found in flight waits its hour, is returned, then handed to delivery
        (St::Top(Phase::Finding), Ev::FoundOne(f)) => St::Found(f),
        (St::Found(f), Ev::Delay(t, ok)) => if !ok { St::Top(Phase::Finding) }
            else if t >= begun() + hour() { St::Waited(f) } else { St::Found(f) },
        (St::Waited(f), Ev::CancelFound(g, r)) => if f != g { St::Bad } else { match r {
            Some(q) => St::Sending(Phase::Finding, N::Queued(q)),
            None => St::Top(Phase::Finding),
        } },
        (St::Top(Phase::Finding), Ev::FindEnd) => St::End,
        (St::Top(Phase::Finding), Ev::FindError) => St::FindBroken,
        (St::Sending(p, n), e) => match (n, e) {
            (N::Queued(q), Ev::Start(g, r)) => if q != g { St::Bad } else { match r {
                Some(im) => St::Sending(p, N::Inflight(im)),
                None => St::Top(p),
            } },
            (N::Inflight(im), Ev::Get(g, r)) => if im != g { St::Bad } else { match r {
                Some(c) => St::Sending(p, N::Have(im, c)),
                None => St::Top(p),
            } },
            (N::Have(im, c), Ev::Send(d, ok)) => if c != d { St::Bad }
                else if ok { St::Sending(p, N::Accepted(im)) } else { St::Sending(p, N::Refused(im)) },
            // marked done only after the transport accepted it
            (N::Accepted(im), Ev::Done(g, ok)) => if im != g { St::Bad } else { St::Top(p) },
            // put back, and what comes back is to be sent again
            (N::Refused(im), Ev::Cancel(g, r)) => if im != g { St::Bad } else { match r {
                Some(q) => St::Sending(p, N::Queued(q)),
                None => St::Top(p),
            } },
            _ => St::Bad,
        },
        _ => St::Bad,
    }
}
pub open spec fn legal(s: St, e: Ev) -> bool { !(step(s, e) is Bad) }
pub tracked struct Trace { pub ghost st: St }
impl View for Trace { type V = St; open spec fn view(&self) -> St { self.st } }

// ---- the operations ------------------------------------------------------------------------
// Each may succeed or fail, and tells the state machine what it was asked and how it went.
#[verifier::external_body] pub struct Stor { x: u8 }
#[verifier::external_body] pub struct Transp { x: u8 }
#[verifier::external_body] pub struct Queue { x: u8 }
#[verifier::external_body] pub struct Finds { x: u8 }
impl Stor {
    #[verifier::external_body]
    pub fn clone(&self) -> Stor { unimplemented!() }
    #[verifier::external_body]
    pub fn list_queue(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: Queue)
        requires legal(old(tr)@, Ev::ListQueue),
        ensures final(tr)@ == step(old(tr)@, Ev::ListQueue),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_inflight(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: Finds)
        requires legal(old(tr)@, Ev::FindInflight),
        ensures final(tr)@ == step(old(tr)@, Ev::FindInflight),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel_found_inflight(&self, mail: FIM, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<QM, ()>)
        requires legal(old(tr)@, Ev::CancelFound(mail, None)),
        ensures final(tr)@ == step(old(tr)@, Ev::CancelFound(mail, r.ok())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send_start(&self, mail: QM, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<IM, ()>)
        requires legal(old(tr)@, Ev::Start(mail, None)),
        ensures final(tr)@ == step(old(tr)@, Ev::Start(mail, r.ok())),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send_done(&self, mail: IM, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), ()>)
        requires legal(old(tr)@, Ev::Done(mail, true)),
        ensures final(tr)@ == step(old(tr)@, Ev::Done(mail, r is Ok)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send_cancel(&self, mail: IM, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<QM, ()>)
        requires legal(old(tr)@, Ev::Cancel(mail, None)),
        ensures final(tr)@ == step(old(tr)@, Ev::Cancel(mail, r.ok())),
    { unimplemented!() }
}
impl IM {
    #[verifier::external_body]
    pub fn get_mail(&self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<Content, ()>)
        requires legal(old(tr)@, Ev::Get(*self, None)),
        ensures final(tr)@ == step(old(tr)@, Ev::Get(*self, r.ok())),
    { unimplemented!() }
}
impl Transp {
    #[verifier::external_body]
    pub fn clone(&self) -> Transp { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&self, mail: Content, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), (ReplyCode, SmtpString)>)
        requires legal(old(tr)@, Ev::Send(mail, true)),
        ensures final(tr)@ == step(old(tr)@, Ev::Send(mail, r is Ok)),
    { unimplemented!() }
}
impl Queue {
    // the next mail of the stream, its end, or its failure
    #[verifier::external_body]
    pub fn vx_next(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<Option<QM>, ()>)
        requires legal(old(tr)@, Ev::ListEnd),
        ensures final(tr)@ == step(old(tr)@, match r {
            Ok(Some(q)) => Ev::Listed(q), Ok(None) => Ev::ListEnd, Err(_) => Ev::ListError }),
    { unimplemented!() }
}
impl Finds {
    #[verifier::external_body]
    pub fn vx_next(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<Option<FIM>, ()>)
        requires legal(old(tr)@, Ev::FindEnd),
        ensures final(tr)@ == step(old(tr)@, match r {
            Ok(Some(f)) => Ev::FoundOne(f), Ok(None) => Ev::FindEnd, Err(_) => Ev::FindError }),
    { unimplemented!() }
}

// ---- time ----------------------------------------------------------------------------------
#[derive(Copy, Clone)] #[verifier::external_body] pub struct Instant { x: u8 }
#[derive(Copy, Clone)] #[verifier::external_body] pub struct Duration { x: u8 }
impl Instant {
    pub uninterp spec fn at(self) -> int;
    #[verifier::external_body]
    pub fn now() -> (r: Instant) ensures r.at() >= begun(), { unimplemented!() }
}
impl Duration {
    pub uninterp spec fn ns(self) -> int;
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Duration) ensures r.ns() == n * 1_000_000_000, { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Duration) ensures r.ns() == n * 1_000_000, { unimplemented!() }
    #[verifier::external_body]
    pub fn new(n: u64, k: u32) -> (r: Duration) ensures r.ns() == n * 1_000_000_000 + k, { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    uninterp spec fn add_spec(self, d: Duration) -> Instant;
}
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Instant)
        ensures r.at() == self.at() + d.ns(),
    { unimplemented!() }
}
pub struct Delay { x: u8 }
impl Delay {
    #[verifier::external_body]
    pub fn new(t: Instant, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), TimerError>)
        requires legal(old(tr)@, Ev::Delay(t.at(), true)),
        ensures final(tr)@ == step(old(tr)@, Ev::Delay(t.at(), r is Ok)),
    { unimplemented!() }
}
