// ---- dependency contracts (trusted): slices, bytes 0.4 -------------------------------------
pub mod vx_dep {
use vstd::prelude::*;
// Sequences as the extracted code reads them (indexing, ranges).
pub trait VxSeq {
    type Elem;
    spec fn vx_seq(&self) -> Seq<Self::Elem>;
    fn vx_at(&self, i: usize) -> (r: &Self::Elem)
        requires i < self.vx_seq().len(),
        ensures *r == self.vx_seq()[i as int];
    fn vx_range(&self, a: usize, b: usize) -> (r: &[Self::Elem])
        requires a <= b <= self.vx_seq().len(),
        ensures r@ == self.vx_seq().subrange(a as int, b as int);
    fn vx_from(&self, a: usize) -> (r: &[Self::Elem])
        requires a <= self.vx_seq().len(),
        ensures r@ == self.vx_seq().subrange(a as int, self.vx_seq().len() as int);
    fn vx_full(&self) -> (r: &[Self::Elem])
        ensures r@ == self.vx_seq();
}
impl<T> VxSeq for [T] {
    type Elem = T;
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_at(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSeq for Vec<T> {
    type Elem = T;
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_at(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() }
}
// by-value iteration over a vector: each index is taken at most once by the generated loop
pub trait VxOwn<T> {
    spec fn own_seq(&self) -> Seq<T>;
    fn vx_own(&self, i: usize) -> (r: T)
        requires i < self.own_seq().len(),
        ensures r == self.own_seq()[i as int];
}
#[verifier::external_body]
pub fn vx_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
pub fn vx_win(len: usize, n: usize) -> (r: usize)
    requires n > 0,
    ensures r == (if len >= n { len - n + 1 } else { 0 }),
{ if len >= n { len - n + 1 } else { 0 } }
// assert!-like macro where a panic must be impossible
pub fn vx_assert(b: bool) requires b { }
// assert!-like macro where a panic is allowed: execution continues only if it held
#[verifier::external_body]
pub fn vx_check(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> (r: ()) ensures false { unimplemented!() }
pub fn vx_unreachable() -> (r: ()) requires false { }
// From and Into: each implementation says which results it may give
pub trait VxFrom<T>: Sized {
    spec fn vx_from_ok(x: T, r: Self) -> bool;
    fn vx_new_from(x: T) -> (r: Self) ensures Self::vx_from_ok(x, r);
}
pub trait VxInto<T>: Sized {
    spec fn vx_into_ok(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.vx_into_ok(r);
}
impl<T, U: VxFrom<T>> VxInto<U> for T {
    open spec fn vx_into_ok(self, r: U) -> bool { U::vx_from_ok(self, r) }
    fn vx_into(self) -> (r: U) { U::vx_new_from(self) }
}

#[verifier::external_body] pub struct Bytes { _p: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, n: &[u8]) -> (r: bool) ensures r == (n@.len() <= self@.len() && self@.subrange(0, n@.len() as int) =~= n@) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with(&self, n: &[u8]) -> (r: bool) ensures r == (n@.len() <= self@.len() && self@.subrange(self@.len() - n@.len(), self@.len() as int) =~= n@) { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<&u8>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&u8>) ensures r == (if self@.len() > 0 { Some(&self@[self@.len() - 1]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self, begin: usize, end: usize) -> (r: Bytes)
        requires begin <= end <= self@.len() ensures r@ == self@.subrange(begin as int, end as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_to(&self, end: usize) -> (r: Bytes)
        requires end <= self@.len() ensures r@ == self@.subrange(0, end as int) { unimplemented!() }
    #[verifier::external_body] pub fn slice_from(&self, begin: usize) -> (r: Bytes)
        requires begin <= self@.len() ensures r@ == self@.subrange(begin as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len() ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, n as int), r@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn from_static(b: &'static [u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice<T: VxSeq<Elem = u8> + ?Sized>(&mut self, b: &T) ensures final(self)@ == old(self)@ + b.vx_seq() { unimplemented!() }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Bytes { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Bytes) -> bool { self@ == o@ } }
impl PartialEq for Bytes { #[verifier::external_body] fn eq(&self, o: &Bytes) -> (r: bool) { unimplemented!() } }
impl Clone for Bytes {
    #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
impl VxSeq for Bytes {
    type Elem = u8;
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_at(&self, i: usize) -> (r: &u8) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body] pub struct BytesMut { _p: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// no allocation exceeds isize::MAX bytes
pub broadcast axiom fn bytes_len_bound(b: Bytes) ensures #[trigger] b@.len() <= isize::MAX;
pub broadcast axiom fn bytesmut_len_bound(b: BytesMut) ensures #[trigger] b@.len() <= isize::MAX;
pub broadcast group vx_len { bytes_len_bound, bytesmut_len_bound }
impl BytesMut {
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with(&self, n: &[u8]) -> (r: bool) ensures r == (n@.len() <= self@.len() && self@.subrange(0, n@.len() as int) =~= n@) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with(&self, n: &[u8]) -> (r: bool) ensures r == (n@.len() <= self@.len() && self@.subrange(self@.len() - n@.len(), self@.len() as int) =~= n@) { unimplemented!() }
    #[verifier::external_body] pub fn first(&self) -> (r: Option<&u8>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn last(&self) -> (r: Option<&u8>) ensures r == (if self@.len() > 0 { Some(&self@[self@.len() - 1]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len() ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.subrange(0, n as int), r@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn take(&mut self) -> (r: BytesMut)
        ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn unsplit(&mut self, b: BytesMut) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice<T: VxSeq<Elem = u8> + ?Sized>(&mut self, b: &T) ensures final(self)@ == old(self)@ + b.vx_seq() { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
impl VxSeq for BytesMut {
    type Elem = u8;
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_at(&self, i: usize) -> (r: &u8) { unimplemented!() }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[u8]) { unimplemented!() }
}
pub assume_specification<T>[ core::mem::replace ](d: &mut T, x: T) -> (r: T)
    ensures *final(d) == x, r == *old(d);
} // mod vx_dep
use vx_dep::*;
broadcast use vx_dep::vx_len;
