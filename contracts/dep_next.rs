// ---- the connection: futures Stream, its fused form and the pushed-back form, awaited packet by packet
// One packet taken from the connection is one event; once it has reported its end it must not be
// asked again, unless the stream is fused.
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body] pub struct Context { _p: u8 }
pub trait VxItem: Sized { spec fn vx_bytes(&self) -> Seq<u8>; }
impl VxItem for BytesMut { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
pub trait Stream: Sized {
    type Item: VxItem;
    // does it stay quiet by itself once it has ended?
    spec fn fused() -> bool;
    spec fn done(&self) -> bool;
    fn poll_next(&mut self, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (r: Poll<Option<Self::Item>>)
        requires ready_of(Self::fused(), old(self).done(), old(tr)@),
        ensures polled(Self::fused(), final(self).done(), r, old(tr)@, final(tr)@);
}
// one poll: nothing yet, a packet, or the end (which a fused stream reports again)
pub open spec fn polled<I: VxItem>(fused: bool, done: bool, r: Poll<Option<I>>, t0: Seq<Ev>, t1: Seq<Ev>) -> bool {
    match r {
        Poll::Pending => t1 == t0 && ready_of(fused, done, t1),
        Poll::Ready(Some(b)) => !has_end(t0) && t1 == t0.push(Ev::Pull(b.vx_bytes())) && ready_of(fused, done, t1),
        Poll::Ready(None) => t1 == (if has_end(t0) { t0 } else { t0.push(Ev::End) }) && (fused ==> ready_of(fused, done, t1)),
    }
}
// what a stream knows agrees with the history
pub open spec fn ready_of(fused: bool, done: bool, t: Seq<Ev>) -> bool { if fused { done == has_end(t) } else { !has_end(t) } }
pub open spec fn ready<S: Stream>(s: S, t: Seq<Ev>) -> bool { ready_of(S::fused(), s.done(), t) }
#[verifier::reject_recursive_types(S)]
pub struct Fuse<S: Stream> { pub inner: S, pub over: Ghost<bool> }
impl<S: Stream> Stream for Fuse<S> {
    type Item = S::Item;
    open spec fn fused() -> bool { true }
    open spec fn done(&self) -> bool { self.over@ }
    #[verifier::external_body]
    fn poll_next(&mut self, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (r: Poll<Option<S::Item>>) { unimplemented!() }
}
pub trait VxFuse: Stream + Sized {
    fn fuse(self) -> (r: Fuse<Self>)
        ensures r.inner == self, !r.done();
}
impl<S: Stream> VxFuse for S {
    fn fuse(self) -> (r: Fuse<Self>) { Fuse { inner: self, over: Ghost(false) } }
}
#[verifier::external_body] pub fn vx_context() -> (r: Context) { unimplemented!() }
//@type smtp-message/src/streamext/prependable.rs Prependable generics=S:~Stream
// bytes pushed back and not yet taken again
pub open spec fn pb<S: Stream<Item = BytesMut>>(p: Prependable<S>) -> Seq<u8> {
    match p.prepended { Some(b) => b@, None => Seq::empty() }
}
impl<S: Stream<Item = BytesMut>> Prependable<S> {
    //@fn smtp-message/src/streamext/prependable.rs Prependable::new params=s loops=0
    pub fn new(s: S) -> (r: Prependable<S>)
        ensures r.stream == s, r.prepended is None,
    //@end
    //@fn smtp-message/src/streamext/prependable.rs Prependable::prepend params=self,item loops=0
    pub fn prepend(&mut self, item: S::Item) -> (r: Result<(), ()>)
        ensures
            final(self).stream == old(self).stream,
            old(self).prepended is None ==> r is Ok && final(self).prepended == Some(item),
            old(self).prepended is Some ==> r is Err && final(self).prepended == old(self).prepended,
    //@end
    //@fn smtp-message/src/streamext/prependable.rs <Stream for Prependable>::poll_next params=self,cx loops=0
    pub fn poll_next(&mut self, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (r: Poll<Option<S::Item>>)
        requires ready(old(self).stream, old(tr)@),
        ensures
            final(self).prepended is None,
            old(self).prepended matches Some(x) ==> r == Poll::Ready(Some(x)) && final(self).stream == old(self).stream && final(tr)@ == old(tr)@,
            old(self).prepended is None ==> polled(S::fused(), final(self).stream.done(), r, old(tr)@, final(tr)@),
    //@end
    // awaiting StreamExt::next: polled until it is ready (the executor; whose context it is does not matter)
    #[verifier::exec_allows_no_decreases_clause]
    pub fn next(&mut self, Tracked(tr): Tracked<&mut Trace>) -> (r: Option<BytesMut>)
        requires ready(old(self).stream, old(tr)@),
        ensures
            final(self).prepended is None,
            old(self).prepended matches Some(x) ==> r == Some(x) && final(self).stream == old(self).stream && final(tr)@ == old(tr)@,
            old(self).prepended is None ==> (match r {
                Some(b) => !has_end(old(tr)@) && final(tr)@ == old(tr)@.push(Ev::Pull(b@)),
                None => final(tr)@ == (if has_end(old(tr)@) { old(tr)@ } else { old(tr)@.push(Ev::End) }),
            }),
            S::fused() || r is Some ==> ready(final(self).stream, final(tr)@),
    {
        let mut cx = vx_context();
        loop
            invariant
                self.prepended is None || (self.prepended == old(self).prepended && self.stream == old(self).stream && tr@ == old(tr)@),
                self.prepended is None ==> old(self).prepended is None,
                ready(self.stream, tr@), tr@ == old(tr)@,
        {
            match self.poll_next(&mut cx, Tracked(&mut *tr)) {
                Poll::Ready(x) => { return x; }
                Poll::Pending => {}
            }
        }
    }
}
