// ---- dependency contracts (trusted): slice iterators, std conversions ----------------------
pub mod slice {
    use vstd::prelude::*;
    #[verifier::external_body] #[verifier::reject_recursive_types(T)]
    pub struct Iter<'a, T> { _p: &'a T }
    // the items still to come
    impl<'a, T> View for Iter<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
}
impl Bytes {
    #[verifier::external_body] pub fn iter(&self) -> (r: slice::Iter<'_, u8>) ensures r@ == self@ { unimplemented!() }
}
impl VxFrom<Vec<u8>> for Bytes {
    open spec fn vx_from_ok(x: Vec<u8>, r: Bytes) -> bool { r@ == x@ }
    #[verifier::external_body] fn vx_new_from(x: Vec<u8>) -> (r: Bytes) { unimplemented!() }
}
impl<'a> VxFrom<&'a [u8]> for Bytes {
    open spec fn vx_from_ok(x: &'a [u8], r: Bytes) -> bool { r@ == x@ }
    #[verifier::external_body] fn vx_new_from(x: &'a [u8]) -> (r: Bytes) { unimplemented!() }
}
// text: the bytes of its UTF-8 form
#[verifier::external_body] pub struct Str { _p: u8 }
impl Str {
    pub uninterp spec fn utf8(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.utf8() { unimplemented!() }
}
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
