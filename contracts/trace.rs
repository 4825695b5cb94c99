// ---- ghost history of a connection ---------------------------------------------------------
pub enum Ev {
    Pull(Seq<u8>),  // the connection delivered a packet
    End,            // the connection reported its end
    Pend,           // the connection had nothing yet
}
pub tracked struct Trace { pub ghost ev: Seq<Ev> }
impl View for Trace { type V = Seq<Ev>; open spec fn view(&self) -> Seq<Ev> { self.ev } }
//@include pulls.rs
// what is new in history b compared with a
pub open spec fn since(a: Seq<Ev>, b: Seq<Ev>) -> Seq<Ev> { b.subrange(a.len() as int, b.len() as int) }
pub open spec fn extends(a: Seq<Ev>, b: Seq<Ev>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn since_push(a: Seq<Ev>, b: Seq<Ev>, e: Ev)
    requires extends(a, b),
    ensures extends(a, b.push(e)), since(a, b.push(e)) == since(a, b).push(e),
        pulled(since(a, b.push(e))) == (match e { Ev::Pull(x) => pulled(since(a, b)) + x, _ => pulled(since(a, b)) })
{
    assert(b.push(e).take(a.len() as int) =~= b.take(a.len() as int));
    assert(since(a, b.push(e)) =~= since(a, b).push(e));
    pulled_push(since(a, b), e);
}
