// ---- dependency contracts (trusted): futures Sink, stream::iter, itertools with_position ------
pub open spec fn line_ev(r: ReplyLine) -> Ev { Ev::Line(r.code.code as int, r.is_last == IsLastLine::Yes, r.line@) }
pub trait VxSent { spec fn sent(&self) -> Ev; }
impl VxSent for ReplyLine { open spec fn sent(&self) -> Ev { line_ev(*self) } }
pub struct VxIter<T> { pub items: Vec<T> }
pub mod stream {
    use vstd::prelude::*;
    use super::VxIter;
    pub fn iter<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r.items@ == v@ { VxIter { items: v } }
}
pub open spec fn sent_all<T: VxSent, E>(v: Seq<Result<T, E>>) -> Seq<Ev> { Seq::new(v.len(), |i: int| v[i]->Ok_0.sent()) }
pub trait Sink<T: VxSent> {
    type Error;
    fn send(&mut self, item: T, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), Self::Error>)
        ensures replied(old(tr)@, final(tr)@, seq![item.sent()], r);
    fn send_all(&mut self, items: &mut VxIter<Result<T, Self::Error>>, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), Self::Error>)
        requires forall|i: int| 0 <= i < old(items).items@.len() ==> (#[trigger] old(items).items@[i]) is Ok,
        ensures replied(old(tr)@, final(tr)@, sent_all(old(items).items@), r);
}
pub enum Position<T> { First(T), Middle(T), Last(T), Only(T) }
use Position::*;
pub fn vx_position<T>(x: T, i: usize, n: usize) -> (r: Position<T>)
    requires i < n,
    ensures r == (if n == 1 { Position::Only(x) } else if i == 0 { Position::First(x) } else if i + 1 == n { Position::Last(x) } else { Position::Middle(x) }),
{ if n == 1 { Position::Only(x) } else if i == 0 { Position::First(x) } else if i + 1 == n { Position::Last(x) } else { Position::Middle(x) } }
impl core::fmt::Debug for BuildError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl VxOwn<SmtpString> for Vec<SmtpString> {
    open spec fn own_seq(&self) -> Seq<SmtpString> { self@ }
    #[verifier::external_body] fn vx_own(&self, i: usize) -> (r: SmtpString) { unimplemented!() }
}
