// ---- dependency contract (trusted): futures Stream -----------------------------------------
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body] pub struct Context { _p: u8 }
pub trait VxItem { spec fn vx_bytes(&self) -> Seq<u8>; }
impl VxItem for BytesMut { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
pub open spec fn evp<T: VxItem>(r: Poll<Option<T>>) -> Ev {
    match r { Poll::Pending => Ev::Pend, Poll::Ready(None) => Ev::End, Poll::Ready(Some(b)) => Ev::Pull(b.vx_bytes()) }
}
pub trait Stream {
    type Item: VxItem;
    spec fn id(&self) -> int;
    // one poll is one event of the history
    fn poll_next(&mut self, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (r: Poll<Option<Self::Item>>)
        ensures final(tr)@ == old(tr)@.push(evp(r)), final(self).id() == old(self).id();
}
