// ---- SmtpString: the real functions, under contract ---------------------------------------
//@type smtp-message/src/smtpstring.rs SmtpString derived=Clone,PartialEq
impl View for SmtpString { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.0@ } }
pub open spec fn chunk(s: Seq<u8>, n: int, i: int) -> Seq<u8> {
    s.subrange(i * n, if s.len() <= (i + 1) * n { s.len() as int } else { (i + 1) * n })
}
pub open spec fn chunks(len: int, n: int) -> int { if len % n == 0 { len / n } else { len / n + 1 } }
pub open spec fn chunk_seq(s: Seq<u8>, n: int) -> Seq<Seq<u8>> { Seq::new(chunks(s.len() as int, n) as nat, |i: int| chunk(s, n, i)) }
pub open spec fn views(v: Seq<SmtpString>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub proof fn chunk_at(len: int, n: int, i: int)
    requires len >= 0, n >= 1, 0 <= i < chunks(len, n),
    ensures 0 <= i * n < len, i * n + n == (i + 1) * n, (i + 1) * n >= 1,
        i + 1 < chunks(len, n) ==> (i + 1) * n < len, i + 1 == chunks(len, n) ==> (i + 1) * n >= len,
        (i + 1) * n <= len + n,
{
    let q = len / n; let r = len % n;
    assert(len == n * q + r && 0 <= r < n) by (nonlinear_arith) requires n >= 1, q == len / n, r == len % n;
    assert(i * n + n == (i + 1) * n) by (nonlinear_arith);
    assert(0 <= i * n) by (nonlinear_arith) requires i >= 0, n >= 1;
    if i + 1 <= q { assert((i + 1) * n <= q * n) by (nonlinear_arith) requires i + 1 <= q, n >= 1; }
    if i <= q { assert(i * n <= q * n) by (nonlinear_arith) requires i <= q, n >= 1; }
    if i + 1 < q { assert((i + 1) * n <= (q - 1) * n && (q - 1) * n == q * n - n) by (nonlinear_arith) requires i + 1 < q, n >= 1; }
    assert(q * n == n * q) by (nonlinear_arith);
    if r == 0 {
        assert(i + 1 <= q);
        if i + 1 == q { } 
    } else {
        assert(i <= q);
    }
}
impl SmtpString {
    //@fn smtp-message/src/smtpstring.rs SmtpString::from_static params=b loops=0
    pub fn from_static(b: &'static [u8]) -> (r: SmtpString)
        ensures r@ == b@,
    //@end
    //@fn smtp-message/src/smtpstring.rs SmtpString::iter_bytes params=self loops=0
    pub fn iter_bytes(&self) -> (r: slice::Iter<'_, u8>)
        ensures r@ == self@,
    //@end
    //@fn smtp-message/src/smtpstring.rs SmtpString::byte_len params=self loops=0
    pub fn byte_len(&self) -> (r: usize)
        ensures r == self@.len(),
    //@end
    //@fn smtp-message/src/smtpstring.rs SmtpString::byte params=self,pos loops=0
    pub fn byte(&self, pos: usize) -> (r: u8)
        requires pos < self@.len(),
        ensures r == self@[pos as int],
    //@end
    //@fn smtp-message/src/smtpstring.rs SmtpString::bytes params=self loops=0
    pub fn bytes(&self) -> (r: &Bytes)
        ensures r@ == self@,
    //@end
    //@fn smtp-message/src/smtpstring.rs SmtpString::byte_chunks params=self,bytes loops=1 out0=SmtpString
    pub fn byte_chunks(&self, bytes: usize) -> (r: Vec<SmtpString>)
        requires bytes >= 1,
        ensures views(r@) =~= chunk_seq(self@, bytes as int),
    //@ghost start
        let ghost s0 = self@; let ghost n0 = bytes as int;
        assert(s0.len() as int / n0 <= s0.len()) by (nonlinear_arith) requires n0 >= 1;
        assert(n0 == 1 ==> s0.len() as int % n0 == 0) by (nonlinear_arith);
        assert(n0 >= 2 ==> s0.len() as int / n0 <= s0.len() / 2) by (nonlinear_arith);
    //@loop 0
        invariant
            copy@ == s0, n0 == bytes, s0 == self@, vx_i0 <= vx_end0,
            vx_end0 == chunks(s0.len() as int, n0),
            vx_out0@.len() == vx_i0,
            forall|i: int| #![trigger vx_out0@[i]] 0 <= i < vx_i0 ==> vx_out0@[i]@ == chunk(s0, n0, i),
        decreases vx_end0 - vx_i0,
    //@ghost loopstart 0
        proof {
            chunk_at(s0.len() as int, n0, vx_i0 as int);
            if vx_i0 > 0 {
                let i = vx_i0 as int;
                assert(i * n0 >= n0) by (nonlinear_arith) requires i >= 1, n0 >= 1;
            }
        }
    //@end
}
impl Clone for SmtpString {
    // derived
    fn clone(&self) -> (r: SmtpString) ensures r@ == self@ { SmtpString(self.0.clone()) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SmtpString { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SmtpString) -> bool { self@ == o@ } }
impl PartialEq for SmtpString {
    // derived
    fn eq(&self, o: &SmtpString) -> (r: bool) { self.0 == o.0 }
}
// iterating over iter_bytes() reads the bytes in order
impl VxSeq for SmtpString {
    type Elem = u8;
    open spec fn vx_seq(&self) -> Seq<u8> { self.0@ }
    fn vx_at(&self, i: usize) -> (r: &u8) { self.0.vx_at(i) }
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { self.0.vx_range(a, b) }
    fn vx_from(&self, a: usize) -> (r: &[u8]) { self.0.vx_from(a) }
    fn vx_full(&self) -> (r: &[u8]) { self.0.vx_full() }
}
impl SmtpString {
    // length of the iteration over iter_bytes()
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.0.len() }
}
