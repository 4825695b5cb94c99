// ---- dependency contract (trusted): std::io::Write::write_all and io::Error -----------------
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { _p: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    pub trait Write {
        // all bytes accepted so far
        spec fn out(&self) -> Seq<u8>;
        // the first error reported, if any
        spec fn err(&self) -> Option<Error>;
        // room known to be there: writes that stay within it cannot fail
        spec fn limit(&self) -> Option<int>;
        fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
            requires old(self).err() is None,
            ensures
                r is Ok ==> final(self).out() == old(self).out() + b@ && final(self).err() is None,
                r matches Err(e) ==> final(self).err() == Some(e),
                r is Err ==> wrote_part(old(self).out(), final(self).out(), b@),
                final(self).limit() == old(self).limit(),
                old(self).limit() matches Some(l) && old(self).out().len() + b@.len() <= l ==> r is Ok;
    }
    // after a failure some beginning of the bytes may have been accepted
    pub open spec fn wrote_part(a: Seq<u8>, b: Seq<u8>, want: Seq<u8>) -> bool {
        exists|k: int| 0 <= k <= want.len() && b =~= a + #[trigger] want.take(k)
    }
    // what a serialiser promises: all of `want`, or the writer's own error
    pub open spec fn wrote<W: Write + ?Sized>(w0: &W, w1: &W, r: Result<()>, want: Seq<u8>) -> bool {
        &&& r is Ok ==> w1.out() == w0.out() + want && w1.err() is None
        &&& r matches Err(e) ==> w1.err() == Some(e)
        &&& w1.limit() == w0.limit()
        &&& (w0.limit() matches Some(l) && w0.out().len() + want.len() <= l) ==> r is Ok
    }
}
// bytes 0.4 BytesMut::writer(): takes bytes as long as there is capacity
#[verifier::external_body] pub struct BufWriter { _p: u8 }
impl BufWriter {
    pub uninterp spec fn buf(&self) -> Seq<u8>;
    pub uninterp spec fn cap(&self) -> int;
    pub uninterp spec fn failed(&self) -> Option<io::Error>;
    #[verifier::external_body] pub fn into_inner(self) -> (r: BytesMut) ensures r@ == self.buf() { unimplemented!() }
}
impl io::Write for BufWriter {
    open spec fn out(&self) -> Seq<u8> { self.buf() }
    open spec fn err(&self) -> Option<io::Error> { self.failed() }
    open spec fn limit(&self) -> Option<int> { Some(self.cap()) }
    #[verifier::external_body] fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
}
// an empty buffer with room for at least this many bytes
#[verifier::external_body] pub struct Room { _p: u8 }
impl Room {
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body] pub fn writer(self) -> (r: BufWriter) ensures r.buf() == Seq::<u8>::empty(), r.cap() == self.cap(), r.failed() is None { unimplemented!() }
}
impl BytesMut {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Room) ensures r.cap() == n { unimplemented!() }
}
use io::Write;
