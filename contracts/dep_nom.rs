// ---- dependency contracts (trusted): the nom 3.2.1 traits a view implements ----------------
pub use core::ops::{Range, RangeFrom, RangeFull, RangeTo};
pub trait Slice<R>: Sized {
    spec fn slice_pre(&self, range: R) -> bool;
    spec fn slice_post(&self, range: R, r: Self) -> bool;
    fn slice(&self, range: R) -> (r: Self)
        requires self.slice_pre(range),
        ensures self.slice_post(range, r);
}
//@include nom_spec.rs
// the bytes a text shows
pub trait VxText { spec fn text(&self) -> Seq<u8>; spec fn text_ok(&self) -> bool; }
impl<'a> VxText for &'a [u8] { open spec fn text(&self) -> Seq<u8> { self@ } open spec fn text_ok(&self) -> bool { true } }
pub trait Compare<T>: Sized + VxText {
    // the verdict depends on the bytes alone
    spec fn cmp_of(c: Seq<u8>, t: T) -> CompareResult;
    spec fn cmp_no_case_of(c: Seq<u8>, t: T) -> CompareResult;
    fn compare(&self, t: T) -> (r: CompareResult)
        requires self.text_ok(),
        ensures r == Self::cmp_of(self.text(), t);
    fn compare_no_case(&self, t: T) -> (r: CompareResult)
        requires self.text_ok(),
        ensures r == Self::cmp_no_case_of(self.text(), t);
}
pub trait FindSubstring<T>: Sized + VxText {
    spec fn find_fit(c: Seq<u8>, t: T) -> bool;
    spec fn found_of(c: Seq<u8>, t: T, r: Option<usize>) -> bool;
    fn find_substring(&self, t: T) -> (r: Option<usize>)
        requires self.text_ok(), Self::find_fit(self.text(), t),
        ensures Self::found_of(self.text(), t, r);
}
// nom's own implementations for byte slices (verified in unit nom)
impl<'a> Compare<&'static [u8]> for &'a [u8] {
    open spec fn cmp_of(c: Seq<u8>, t: &'static [u8]) -> CompareResult { cmp_bytes(c, t@) }
    open spec fn cmp_no_case_of(c: Seq<u8>, t: &'static [u8]) -> CompareResult { cmp_bytes(lowered(c), lowered(t@)) }
    #[verifier::external_body] fn compare(&self, t: &'static [u8]) -> (r: CompareResult) { unimplemented!() }
    #[verifier::external_body] fn compare_no_case(&self, t: &'static [u8]) -> (r: CompareResult) { unimplemented!() }
}
impl<'a> FindSubstring<&'static [u8]> for &'a [u8] {
    open spec fn find_fit(c: Seq<u8>, t: &'static [u8]) -> bool { t@.len() <= c.len() && t@.len() > 0 }
    open spec fn found_of(c: Seq<u8>, t: &'static [u8], r: Option<usize>) -> bool { found(c, t@, r) }
    #[verifier::external_body] fn find_substring(&self, t: &'static [u8]) -> (r: Option<usize>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_same_addr(a: &Bytes, b: &Bytes) -> (r: bool)
    ensures r ==> *a == *b
{ unimplemented!() }
#[verifier::external_body] pub struct Utf8Error { _p: u8 }
pub uninterp spec fn is_utf8(b: Seq<u8>) -> bool;
pub mod str {
    pub use super::Utf8Error;
    use super::{Str, is_utf8};
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn from_utf8(b: &[u8]) -> (r: Result<&Str, Utf8Error>)
        ensures r is Ok <==> is_utf8(b@), r matches Ok(s) ==> s.utf8() == b@
    { unimplemented!() }
}
// a lazy iterator is represented by the sequence of its items
pub trait VxEnumerate<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn enumerate(self) -> (r: Vec<(usize, T)>)
        ensures r@ == Seq::new(self.items().len(), |i: int| (i as usize, self.items()[i]));
}
impl<T> VxEnumerate<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn enumerate(self) -> (r: Vec<(usize, T)>) { unimplemented!() }
}
