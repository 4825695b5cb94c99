// ---- dependency contracts (trusted): what the nom 3.2.1 macros expand to -------------------
pub mod nom {
    #[derive(Copy, Clone)]
    pub enum Needed { Unknown, Size(usize) }
    // the kinds the macros in use mention; the text of an error is not specified
    pub enum ErrorKind<E = u32> {
        Custom(E), Tag, MapRes, MapOpt, Alt, IsNot, IsA, SeparatedList, SeparatedNonEmptyList, Many0, Many1, ManyTill, Count, TakeUntilAndConsume,
        TakeUntil, LengthValue, TagClosure, Alpha, Digit, HexDigit, OctDigit, AlphaNumeric, Space, MultiSpace, LengthValueFn, Eof, ExprOpt,
        ExprRes, CondReduce, Switch, TagBits, OneOf, NoneOf, Char, CrLf, RegexpMatch, TakeWhile1, Complete, Fix, Escaped, EscapedTransform,
        TagStr, IsNotStr, IsAStr, TakeWhile1Str, NonEmpty, ManyMN, TakeUntilAndConsumeStr, TakeUntilStr, Not, Permutation, Verify,
    }
    pub type Err<E = u32> = ErrorKind<E>;
    pub enum IResult<I, O, E = u32> { Done(I, O), Error(ErrorKind<E>), Incomplete(Needed) }
}
use nom::{IResult, Needed};
pub assume_specification[ usize::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), !r.1 ==> r.0 == a + b;
// a text literal of the source, with its bytes named in ghost code
pub fn vx_lit<'b, const N: usize>(a: &'b [u8; N], s: Ghost<Seq<u8>>) -> (r: &'b [u8; N])
    requires a@ =~= s@,
    ensures r@ == s@, r == a,
{ a }
pub trait InputLength: Sized {
    spec fn in_len(&self) -> int;
    fn input_len(&self) -> (r: usize) ensures r == self.in_len();
}
impl<'b, const N: usize> InputLength for &'b [u8; N] {
    open spec fn in_len(&self) -> int { self@.len() as int }
    #[verifier::external_body] fn input_len(&self) -> (r: usize) { unimplemented!() }
}
impl<'a, 'b, const N: usize> Compare<&'b [u8; N]> for &'a [u8] {
    open spec fn cmp_of(c: Seq<u8>, t: &'b [u8; N]) -> CompareResult { cmp_bytes(c, t@) }
    open spec fn cmp_no_case_of(c: Seq<u8>, t: &'b [u8; N]) -> CompareResult { cmp_bytes(lowered(c), lowered(t@)) }
    #[verifier::external_body] fn compare(&self, t: &'b [u8; N]) -> (r: CompareResult) { unimplemented!() }
    #[verifier::external_body] fn compare_no_case(&self, t: &'b [u8; N]) -> (r: CompareResult) { unimplemented!() }
}
impl<'a, 'b, const N: usize> FindSubstring<&'b [u8; N]> for &'a [u8] {
    open spec fn find_fit(c: Seq<u8>, t: &'b [u8; N]) -> bool { t@.len() <= c.len() && t@.len() > 0 }
    open spec fn found_of(c: Seq<u8>, t: &'b [u8; N], r: Option<usize>) -> bool { found(c, t@, r) }
    #[verifier::external_body] fn find_substring(&self, t: &'b [u8; N]) -> (r: Option<usize>) { unimplemented!() }
}
// the first item of an iterator over bytes
pub trait VxNext { spec fn nx_seq(&self) -> Seq<u8>; fn next(self) -> (r: Option<u8>) where Self: Sized ensures r == (if self.nx_seq().len() > 0 { Some(self.nx_seq()[0]) } else { None::<u8> }); }
impl VxNext for Vec<u8> {
    open spec fn nx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn next(self) -> (r: Option<u8>) { unimplemented!() }
}
pub trait AsChar: Sized {
    spec fn ch_len(self) -> int;
    spec fn ch(self) -> char;
    fn as_char(self) -> (r: char) ensures r == self.ch();
    fn len(self) -> (r: usize) ensures r == self.ch_len();
}
impl AsChar for u8 {
    open spec fn ch_len(self) -> int { 1 }
    open spec fn ch(self) -> char { self as char }
    #[verifier::external_body] fn as_char(self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn len(self) -> (r: usize) { unimplemented!() }
}
// address distance of two views of one buffer (nom subtracts the addresses)
pub trait Offset: Sized {
    spec fn off_ok(&self, o: &Self) -> bool;
    spec fn off(&self, o: &Self) -> int;
    fn offset(&self, o: &Self) -> (r: usize) requires self.off_ok(o) ensures r == self.off(o);
}
impl<'a> Offset for ByteSlice<'a> {
    open spec fn off_ok(&self, o: &Self) -> bool { self.wf() && o.wf() && self.buf == o.buf && self.start <= o.start }
    open spec fn off(&self, o: &Self) -> int { o.start - self.start }
    #[verifier::external_body] fn offset(&self, o: &Self) -> (r: usize) { unimplemented!() }
}
// reading a view through its Deref
impl<'a> VxSeq for ByteSlice<'a> {
    type Elem = u8;
    open spec fn vx_seq(&self) -> Seq<u8> { if self.wf() { self.v() } else { Seq::empty() } }
    #[verifier::external_body] fn vx_at(&self, i: usize) -> (r: &u8) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[u8]) { unimplemented!() }
}
// nom's own parser of one CRLF
#[verifier::external_body]
pub fn crlf<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires i.wf(),
    ensures took(i, r, p_tag(i.v(), CRLF())),
{ unimplemented!() }
