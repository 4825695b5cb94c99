#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
// nom 3.2.1's own functions on byte slices, from cargo's registry: what dep_nom.rs and dep_parse.rs say of them
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include nom_spec.rs
// ---- dependency contract (trusted): memchr
pub mod memchr {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn memchr(c: u8, s: &[u8]) -> (r: Option<usize>)
        ensures match r {
            Some(i) => i < s@.len() && s@[i as int] == c && forall|j: int| 0 <= j < i ==> s@[j] != c,
            None => forall|j: int| 0 <= j < s@.len() ==> s@[j] != c,
        },
    { unimplemented!() }
}
pub trait Nom<'b>: Sized {
    spec fn b(&self) -> Seq<u8>;
    fn compare(&self, t: &'b [u8]) -> (r: CompareResult)
        ensures r == cmp_bytes(self.b(), t@);
    fn compare_no_case(&self, t: &'b [u8]) -> (r: CompareResult)
        ensures r == cmp_bytes(lowered(self.b()), lowered(t@));
    fn find_substring(&self, substr: &'b [u8]) -> (r: Option<usize>)
        requires 0 < substr@.len() <= self.b().len(),
        ensures found(self.b(), substr@, r);
}
// a token is one of a list; a byte as a character
pub trait NomToken: Sized {
    spec fn byte(self) -> u8;
    fn find_token(&self, input: &[u8]) -> (r: bool)
        ensures r == input@.contains(self.byte());
    fn as_char(self) -> (r: char)
        ensures r == self.byte() as char;
    fn len(self) -> (r: usize)
        ensures r == 1;
}
impl NomToken for u8 {
    open spec fn byte(self) -> u8 { self }
    //@fn @nom/traits.rs <FindToken<&'a[u8]> for u8>::find_token params=self,input loops=0
    fn find_token(&self, input: &[u8]) -> (r: bool)
    //@end
    //@fn @nom/traits.rs <AsChar for u8>::as_char params=self loops=0
    fn as_char(self) -> (r: char)
    //@end
    //@fn @nom/traits.rs <AsChar for u8>::len params=self loops=0
    fn len(self) -> (r: usize)
    //@end
}
proof fn case_bit(a: u8, b: u8)
    ensures
        65 <= a <= 90 ==> a | 0b00100000 == a + 32, 97 <= a <= 122 ==> a | 0b00100000 == a,
        65 <= b <= 90 ==> b | 0b00100000 == b + 32, 97 <= b <= 122 ==> b | 0b00100000 == b,
{
    assert(65 <= a <= 90 ==> a | 0b00100000 == a + 32) by (bit_vector);
    assert(97 <= a <= 122 ==> a | 0b00100000 == a) by (bit_vector);
    assert(65 <= b <= 90 ==> b | 0b00100000 == b + 32) by (bit_vector);
    assert(97 <= b <= 122 ==> b | 0b00100000 == b) by (bit_vector);
}
// an occurrence starts with the needle's first byte
proof fn lemma_first(c: Seq<u8>, t: Seq<u8>)
    requires t.len() > 0,
    ensures
        forall|j: int| occurs(c, t, j) ==> 0 <= j < c.len() && c[j] == t[0] && j + t.len() <= c.len(),
        t.len() == 1 ==> forall|j: int| 0 <= j < c.len() && c[j] == t[0] ==> occurs(c, t, j),
{
    assert forall|j: int| occurs(c, t, j) implies 0 <= j < c.len() && c[j] == t[0] && j + t.len() <= c.len() by {
        assert(c.subrange(j, j + t.len())[0] == t[0]);
    }
}
// equal parts: no difference at any position
proof fn lemma_parts(c: Seq<u8>, t: Seq<u8>)
    ensures
        forall|m: int| 0 <= m <= c.len() && m <= t.len() ==>
            (#[trigger] c.subrange(0, m) == #[trigger] t.subrange(0, m) <==> forall|i: int| 0 <= i < m ==> c[i] == t[i]),
{
    assert forall|m: int| 0 <= m <= c.len() && m <= t.len() implies
        (#[trigger] c.subrange(0, m) == #[trigger] t.subrange(0, m) <==> forall|i: int| 0 <= i < m ==> c[i] == t[i]) by {
        let (a, b) = (c.subrange(0, m), t.subrange(0, m));
        if a == b { assert forall|i: int| 0 <= i < m implies c[i] == t[i] by { assert(a[i] == b[i]); } }
        if forall|i: int| 0 <= i < m ==> c[i] == t[i] { assert(a =~= b); }
    }
}
impl<'a, 'b> Nom<'b> for &'a [u8] {
    open spec fn b(&self) -> Seq<u8> { self@ }
    //@fn @nom/traits.rs <Compare<&'b[u8]> for &'a[u8]>::compare params=self,t loops=0 bytes=reduced|b
    fn compare(&self, t: &'b [u8]) -> (r: CompareResult)
    //@ghost start
        proof { lemma_parts(self@, t@); }
    //@end
    //@fn @nom/traits.rs <Compare<&'b[u8]> for &'a[u8]>::compare_no_case params=self,t loops=1
    fn compare_no_case(&self, t: &'b [u8]) -> (r: CompareResult)
    //@loop 0
        invariant_except_break
            vx_all0,
        invariant
            vx_i0 <= reduced@.len(), vx_i0 <= other@.len(),
            reduced@ == self@.subrange(0, m as int), other@ == t@.subrange(0, m as int),
            forall|j: int| 0 <= j < vx_i0 ==> lower(self@[j]) == lower(t@[j]),
        ensures
            vx_all0 ==> vx_i0 == m,
            forall|j: int| 0 <= j < vx_i0 ==> lower(self@[j]) == lower(t@[j]),
            !vx_all0 ==> vx_i0 < m && lower(self@[vx_i0 as int]) != lower(t@[vx_i0 as int]),
        decreases reduced@.len() - vx_i0,
    //@ghost loopstart 0
        proof { if vx_i0 < reduced@.len() && vx_i0 < other@.len() { case_bit(reduced@[vx_i0 as int], other@[vx_i0 as int]); } }
    //@ghost start
        proof {
            assert(lowered(self@).len() == self@.len() && lowered(t@).len() == t@.len());
            assert(forall|j: int| 0 <= j < self@.len() ==> lowered(self@)[j] == lower(self@[j]));
            assert(forall|j: int| 0 <= j < t@.len() ==> lowered(t@)[j] == lower(t@[j]));
            assert forall|i: int| 0 <= i < self@.len() && i < t@.len() && lower(#[trigger] self@[i]) != lower(#[trigger] t@[i]) implies
                cmp_bytes(lowered(self@), lowered(t@)) is Error by { assert(lowered(self@)[i] != lowered(t@)[i]); }
        }
    //@end
    //@fn @nom/traits.rs <FindSubstring<&'b[u8]> for &'a[u8]>::find_substring params=self,substr loops=1 bytes=substr
    fn find_substring(&self, substr: &'b [u8]) -> (r: Option<usize>)
    //@ghost start
        proof {
            lemma_first(self@, substr@);
            assert forall|o: int, j: int| 0 <= o <= j < self@.len() implies
                self@[j] == (#[trigger] self@.subrange(o, self@.len() as int))[j - o] || !#[trigger] occurs(self@, substr@, j) by {}
        }
    //@loop 0
        invariant
            substr_len == substr@.len(), max == self@.len() - substr_len,
            offset <= self@.len(),
            haystack@ =~= self@.subrange(offset as int, self@.len() as int),
            forall|j: int| 0 <= j < offset ==> !occurs(self@, substr@, j),
        ensures
            forall|j: int| !occurs(self@, substr@, j),
        decreases haystack@.len(),
    //@end
}
} // verus!
fn main() {}
