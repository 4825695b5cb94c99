#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
// A range that is reversed or too long never yields a view: no precondition on the range, and the
// postcondition says that whenever the call returns the range was inside the view.
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@helpers smtp-message/src/byteslice.rs
// ---- ByteSlice: the real functions, under contract -----------------------------------------
//@type smtp-message/src/byteslice.rs ByteSlice derive=Copy,Clone
impl<'a> ByteSlice<'a> {
    // the bounds are ordered and inside the buffer
    pub open spec fn wf(&self) -> bool { self.start <= self.end <= self.buf@.len() }
    // the bytes of the view
    pub open spec fn v(&self) -> Seq<u8> { self.buf@.subrange(self.start as int, self.end as int) }
}
impl<'a> ByteSlice<'a> {
    //@fn smtp-message/src/byteslice.rs ByteSlice::len params=self loops=0
    pub fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.v().len(),
    //@end
    //@fn smtp-message/src/byteslice.rs <InputLength for ByteSlice<'a>>::input_len params=self loops=0
    pub fn input_len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.v().len(),
    //@end
    //@fn smtp-message/src/byteslice.rs <Deref for ByteSlice<'a>>::deref params=self loops=0
    pub fn deref(&self) -> (r: &[u8])
        requires self.wf(),
        ensures r@ == self.v(),
    //@end
}
pub open spec fn sub_view<'a>(p: ByteSlice<'a>, r: ByteSlice<'a>, a: int, b: int) -> bool {
    r.wf() && r.buf == p.buf && r.start == p.start + a && r.end == p.start + b && r.v() =~= p.v().subrange(a, b)
}
impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: Range<usize>) -> bool { self.wf() }
    open spec fn slice_post(&self, range: Range<usize>, r: Self) -> bool { range.start <= range.end <= self.v().len() && sub_view(*self, r, range.start as int, range.end as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<Range<usize>> for ByteSlice<'a>>::slice params=self,range loops=0 panics=allow
    fn slice(&self, range: Range<usize>) -> (r: Self)
    //@end
}
impl<'a> Slice<RangeTo<usize>> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: RangeTo<usize>) -> bool { self.wf() }
    open spec fn slice_post(&self, range: RangeTo<usize>, r: Self) -> bool { range.end <= self.v().len() && sub_view(*self, r, 0, range.end as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<RangeTo<usize>> for ByteSlice<'a>>::slice params=self,range loops=0 panics=allow
    fn slice(&self, range: RangeTo<usize>) -> (r: Self)
    //@end
}
impl<'a> Slice<RangeFrom<usize>> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: RangeFrom<usize>) -> bool { self.wf() }
    open spec fn slice_post(&self, range: RangeFrom<usize>, r: Self) -> bool { range.start <= self.v().len() && sub_view(*self, r, range.start as int, self.v().len() as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<RangeFrom<usize>> for ByteSlice<'a>>::slice params=self,range loops=0 panics=allow
    fn slice(&self, range: RangeFrom<usize>) -> (r: Self)
    //@end
}
impl<'a> Slice<RangeFull> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: RangeFull) -> bool { self.wf() }
    open spec fn slice_post(&self, range: RangeFull, r: Self) -> bool { r == *self && sub_view(*self, r, 0, self.v().len() as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<RangeFull> for ByteSlice<'a>>::slice params=self,range loops=0 panics=allow
    fn slice(&self, range: RangeFull) -> (r: Self)
    //@end
}
} // verus!
fn main() {}
