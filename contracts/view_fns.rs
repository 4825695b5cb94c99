// ---- ByteSlice: the real functions, under contract -----------------------------------------
//@type smtp-message/src/byteslice.rs ByteSlice derive=Copy,Clone
impl<'a> ByteSlice<'a> {
    // the bounds are ordered and inside the buffer
    pub open spec fn wf(&self) -> bool { self.start <= self.end <= self.buf@.len() }
    // the bytes of the view
    pub open spec fn v(&self) -> Seq<u8> { self.buf@.subrange(self.start as int, self.end as int) }
}
impl<'a> VxFrom<&'a Bytes> for ByteSlice<'a> {
    open spec fn vx_from_ok(x: &'a Bytes, r: Self) -> bool { r.wf() && r.v() == x@ && r.buf == x && r.start == 0 && r.end == x@.len() }
    //@fn smtp-message/src/byteslice.rs <From<&'aBytes> for ByteSlice<'a>>::from params=b loops=0
    fn vx_new_from(b: &'a Bytes) -> (r: ByteSlice<'a>)
    //@ghost start
        assert(b@.subrange(0, b@.len() as int) =~= b@);
    //@end
}
pub open spec fn sub_view<'a>(p: ByteSlice<'a>, r: ByteSlice<'a>, a: int, b: int) -> bool {
    r.wf() && r.buf == p.buf && r.start == p.start + a && r.end == p.start + b && r.v() =~= p.v().subrange(a, b)
}
impl<'a> ByteSlice<'a> {
    //@fn smtp-message/src/byteslice.rs ByteSlice::len params=self loops=0
    pub fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.v().len(),
    //@end
    //@fn smtp-message/src/byteslice.rs ByteSlice::promote params=self loops=0
    pub fn promote(&self) -> (r: Bytes)
        requires self.wf(),
        ensures r@ == self.v(),
    //@end
    //@fn smtp-message/src/byteslice.rs ByteSlice::demote params=self loops=0
    pub fn demote(self) -> (r: &'a [u8])
        requires self.wf(),
        ensures r@ == self.v(),
    //@end
    //@fn smtp-message/src/byteslice.rs ByteSlice::into_utf8 params=self loops=0
    pub fn into_utf8(self) -> (r: Result<&'a Str, str::Utf8Error>)
        requires self.wf(),
        ensures r is Ok <==> is_utf8(self.v()), r matches Ok(s) ==> s.utf8() == self.v(),
    //@end
    //@fn smtp-message/src/byteslice.rs <Deref for ByteSlice<'a>>::deref params=self loops=0
    pub fn deref(&self) -> (r: &[u8])
        requires self.wf(),
        ensures r@ == self.v(),
    //@end
    // equal views show equal bytes
    //@fn smtp-message/src/byteslice.rs <PartialEq for ByteSlice<'a>>::eq params=self,other loops=0
    pub fn eq(&self, other: &ByteSlice<'a>) -> (r: bool)
        requires self.wf(), other.wf(),
        ensures r ==> self.v() == other.v(),
    //@end
    //@fn smtp-message/src/byteslice.rs <InputIter for ByteSlice<'a>>::iter_elements params=self loops=1 out0=u8
    pub fn iter_elements(&self) -> (r: Vec<u8>)
        requires self.wf(),
        ensures r@ =~= self.v(),
    //@loop 0
        invariant self.wf(), vx_src0@ == self.v(), vx_i0 <= vx_src0@.len(), vx_out0@ =~= self.v().take(vx_i0 as int),
        decreases vx_src0@.len() - vx_i0,
    //@end
    //@fn smtp-message/src/byteslice.rs <InputIter for ByteSlice<'a>>::iter_indices params=self loops=0
    pub fn iter_indices(&self) -> (r: Vec<(usize, u8)>)
        requires self.wf(),
        ensures r@ =~= Seq::new(self.v().len(), |i: int| (i as usize, self.v()[i])),
    //@end
    //@fn smtp-message/src/byteslice.rs <InputIter for ByteSlice<'a>>::position params=self,predicate loops=1
    pub fn position<P: Fn(u8) -> bool>(&self, predicate: P) -> (r: Option<usize>)
        requires self.wf(), forall|c: u8| #[trigger] predicate.requires((c,)),
        ensures
            match r {
                Some(p) => p < self.v().len() && predicate.ensures((self.v()[p as int],), true)
                    && forall|i: int| 0 <= i < p ==> predicate.ensures((#[trigger] self.v()[i],), false),
                None => forall|i: int| 0 <= i < self.v().len() ==> predicate.ensures((#[trigger] self.v()[i],), false),
            },
    //@loop 0
        invariant
            self.wf(), vx_src0@ == self.v(), vx_i0 <= vx_src0@.len(), vx_pos0 is None,
            forall|c: u8| #[trigger] predicate.requires((c,)),
            forall|i: int| 0 <= i < vx_i0 ==> predicate.ensures((#[trigger] self.v()[i],), false),
        ensures
            match vx_pos0 {
                Some(p) => p < self.v().len() && predicate.ensures((self.v()[p as int],), true)
                    && forall|i: int| 0 <= i < p ==> predicate.ensures((#[trigger] self.v()[i],), false),
                None => forall|i: int| 0 <= i < self.v().len() ==> predicate.ensures((#[trigger] self.v()[i],), false),
            },
        decreases vx_src0@.len() - vx_i0,
    //@end
    //@fn smtp-message/src/byteslice.rs <InputIter for ByteSlice<'a>>::slice_index params=self,count loops=0
    pub fn slice_index(&self, count: usize) -> (r: Option<usize>)
        requires self.wf(),
        ensures r == (if count <= self.v().len() { Some(count) } else { None }),
    //@end
    //@fn smtp-message/src/byteslice.rs <InputLength for ByteSlice<'a>>::input_len params=self loops=0
    pub fn input_len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.v().len(),
    //@end
}
impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: Range<usize>) -> bool { self.wf() && range.start <= range.end <= self.v().len() }
    open spec fn slice_post(&self, range: Range<usize>, r: Self) -> bool { sub_view(*self, r, range.start as int, range.end as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<Range<usize>> for ByteSlice<'a>>::slice params=self,range loops=0
    fn slice(&self, range: Range<usize>) -> (r: Self)
    //@end
}
impl<'a> Slice<RangeTo<usize>> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: RangeTo<usize>) -> bool { self.wf() && range.end <= self.v().len() }
    open spec fn slice_post(&self, range: RangeTo<usize>, r: Self) -> bool { sub_view(*self, r, 0, range.end as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<RangeTo<usize>> for ByteSlice<'a>>::slice params=self,range loops=0
    fn slice(&self, range: RangeTo<usize>) -> (r: Self)
    //@end
}
impl<'a> Slice<RangeFrom<usize>> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: RangeFrom<usize>) -> bool { self.wf() && range.start <= self.v().len() }
    open spec fn slice_post(&self, range: RangeFrom<usize>, r: Self) -> bool { sub_view(*self, r, range.start as int, self.v().len() as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<RangeFrom<usize>> for ByteSlice<'a>>::slice params=self,range loops=0
    fn slice(&self, range: RangeFrom<usize>) -> (r: Self)
    //@end
}
impl<'a> Slice<RangeFull> for ByteSlice<'a> {
    open spec fn slice_pre(&self, range: RangeFull) -> bool { self.wf() }
    open spec fn slice_post(&self, range: RangeFull, r: Self) -> bool { r == *self && sub_view(*self, r, 0, self.v().len() as int) }
    //@fn smtp-message/src/byteslice.rs <Slice<RangeFull> for ByteSlice<'a>>::slice params=self,range loops=0
    fn slice(&self, range: RangeFull) -> (r: Self)
    //@end
}
impl<'a> VxText for ByteSlice<'a> { open spec fn text(&self) -> Seq<u8> { self.v() } open spec fn text_ok(&self) -> bool { self.wf() } }
impl<'a, T> Compare<T> for ByteSlice<'a> where &'a [u8]: Compare<T> {
    open spec fn cmp_of(c: Seq<u8>, t: T) -> CompareResult { <&'a [u8] as Compare<T>>::cmp_of(c, t) }
    open spec fn cmp_no_case_of(c: Seq<u8>, t: T) -> CompareResult { <&'a [u8] as Compare<T>>::cmp_no_case_of(c, t) }
    //@fn smtp-message/src/byteslice.rs <Compare<T> for ByteSlice<'a>>::compare params=self,t loops=0
    fn compare(&self, t: T) -> (r: CompareResult)
    //@end
    //@fn smtp-message/src/byteslice.rs <Compare<T> for ByteSlice<'a>>::compare_no_case params=self,t loops=0
    fn compare_no_case(&self, t: T) -> (r: CompareResult)
    //@end
}
impl<'a, T> FindSubstring<T> for ByteSlice<'a> where &'a [u8]: FindSubstring<T> {
    open spec fn found_of(c: Seq<u8>, t: T, r: Option<usize>) -> bool { <&'a [u8] as FindSubstring<T>>::found_of(c, t, r) }
    open spec fn find_fit(c: Seq<u8>, t: T) -> bool { <&'a [u8] as FindSubstring<T>>::find_fit(c, t) }
    //@fn smtp-message/src/byteslice.rs <FindSubstring<T> for ByteSlice<'a>>::find_substring params=self,t loops=0
    fn find_substring(&self, t: T) -> (r: Option<usize>)
    //@end
}
