// ---- specification: EHLO and HELO ----------------------------------------------------------
pub open spec fn W_EHLO() -> Seq<u8> { seq![69u8, 72u8, 76u8, 79u8] }
pub open spec fn W_HELO() -> Seq<u8> { seq![72u8, 69u8, 76u8, 79u8] }
// a part with blanks around it
pub open spec fn p_sp<T>(s: Seq<u8>, p: P<T>) -> P<T> {
    match p { P::Done(n, v) => { let b = blanks(s) + n; P::Done(b + blanks(s.skip(b)), v) } P::More => P::More, P::Err => P::Err }
}
pub open spec fn p_sp_word(s: Seq<u8>, w: Seq<u8>) -> P<()> { p_sp(s, p_word(s.skip(blanks(s)), w)) }
pub open spec fn p_sp_host(s: Seq<u8>) -> P<DomV> { p_sp(s, p_host(s.skip(blanks(s)))) }
pub open spec fn p_sp_crlf(s: Seq<u8>) -> P<()> { p_sp(s, p_tag(s.skip(blanks(s)), CRLF())) }
// word, host and CRLF, with blanks around each
pub open spec fn p_hello(s: Seq<u8>, w: Seq<u8>) -> P<DomV> {
    match p_sp_word(s, w) {
        P::Done(n, _) => match p_sp_host(s.skip(n)) {
            P::Done(k, d) => match p_sp_crlf(s.skip(n + k)) { P::Done(m, _) => P::Done(n + k + m, d), P::More => P::More, P::Err => P::Err },
            P::More => P::More, P::Err => P::Err,
        }
        P::More => P::More, P::Err => P::Err,
    }
}
// blanks are eaten once
pub proof fn sp_once(s: Seq<u8>, w: Seq<u8>)
    ensures blanks(s.skip(blanks(s))) == 0, 0 <= blanks(s) <= s.len(),
        p_sp_word(s, w) == (match p_sp_word(s.skip(blanks(s)), w) { P::Done(n, v) => P::Done(blanks(s) + n, v), x => x }),
{
    blanks_are(s);
    let a = blanks(s); let t = s.skip(a);
    blanks_are(t);
    if blanks(t) > 0 { assert(blank(t[0])); assert(t[0] == s[a]); }
    assert(t.skip(0) =~= t);
    if p_word(t, w) is Done {
        let n = w.len() as int;
        assert(lowered(t).len() >= n);
        assert(t.skip(n) =~= s.skip(a + n));
    }
}
// no more is used than there is
pub proof fn fits(s: Seq<u8>, w: Seq<u8>)
    ensures
        p_sp_word(s, w) matches P::Done(n, _) ==> 0 <= n <= s.len(),
        p_sp_host(s) matches P::Done(n, _) ==> 0 <= n <= s.len(),
        p_sp_crlf(s) matches P::Done(n, _) ==> 0 <= n <= s.len(),
{
    blanks_are(s);
    let t = s.skip(blanks(s));
    host_fits(t);
    match p_word(t, w) { P::Done(n, _) => { assert(lowered(t).len() == t.len()); blanks_are(s.skip(blanks(s) + n)); } _ => {} }
    match p_host(t) { P::Done(n, _) => { blanks_are(s.skip(blanks(s) + n)); } _ => {} }
    match p_tag(t, CRLF()) { P::Done(n, _) => { blanks_are(s.skip(blanks(s) + n)); } _ => {} }
}
pub proof fn crlf_tail(x: Seq<u8>)
    ensures p_sp_crlf(x) matches P::Done(m, _) ==> 0 <= m <= x.len() && blanks(x.skip(m)) == 0,
{
    if let P::Done(m, _) = p_sp_crlf(x) {
        blanks_are(x);
        let c = blanks(x) + 2;
        let y = x.skip(c);
        blanks_are(y);
        sp_once(y, CRLF());
        assert(y.skip(blanks(y)) =~= x.skip(m));
    }
}
pub proof fn hello_once(s: Seq<u8>, w: Seq<u8>)
    ensures
        0 <= blanks(s) <= s.len(),
        p_hello(s, w) == (match p_hello(s.skip(blanks(s)), w) { P::Done(n, v) => P::Done(blanks(s) + n, v), x => x }),
        p_hello(s, w) matches P::Done(n, _) ==> 0 <= n <= s.len() && blanks(s.skip(n)) == 0,
{
    hide(p_sp_word); hide(p_sp_host); hide(p_sp_crlf); hide(blanks); hide(p_host);
    sp_once(s, w); fits(s, w);
    let a = blanks(s); let t = s.skip(a);
    fits(t, w);
    if let P::Done(n, _) = p_sp_word(t, w) {
        assert(t.skip(n) =~= s.skip(a + n));
        let u = s.skip(a + n);
        fits(u, w);
        if let P::Done(k, _) = p_sp_host(u) {
            assert(t.skip(n + k) =~= s.skip(a + n + k));
            let x = s.skip(a + n + k);
            crlf_tail(x);
            if let P::Done(m, _) = p_sp_crlf(x) {
                assert(x.skip(m) =~= s.skip(a + n + k + m));
            }
        }
    }
}
//@type smtp-message/src/ehlo/mod.rs EhloCommand
impl EhloCommand {
    //@fn smtp-message/src/ehlo/mod.rs EhloCommand::new params=domain loops=0
    pub fn new(domain: Domain) -> (r: EhloCommand)
        ensures r.domain == domain,
    //@end
    //@fn smtp-message/src/ehlo/mod.rs EhloCommand::domain params=self loops=0
    pub fn domain(&self) -> (r: &Domain)
        ensures *r == self.domain,
    //@end
}
//@fn @msg command_ehlo_args params=i loops=0
pub fn command_ehlo_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, EhloCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_hello(i.v(), W_EHLO()), |o: EhloCommand| o.domain.dv()),
//@ghost start
    hide(p_sp_word); hide(p_sp_host); hide(p_sp_crlf); hide(blanks); hide(p_host);
    proof {
        rests(i); let s = i.v(); hello_once(s, W_EHLO()); let b = blanks(s); let t = s.skip(b); fits(t, W_EHLO());
        if let P::Done(n, _) = p_sp_word(t, W_EHLO()) {
            let u = t.skip(n); fits(u, W_EHLO()); assert(u =~= s.skip(b + n));
            if let P::Done(k, _) = p_sp_host(u) {
                let x = t.skip(n + k); fits(x, W_EHLO()); assert(x =~= u.skip(k)); assert(x =~= s.skip(b + n + k));
                if let P::Done(m, _) = p_sp_crlf(x) { assert(x.skip(m) =~= t.skip(n + k + m)); assert(x.skip(m) =~= s.skip(b + n + k + m)); }
            }
        }
    }
//@outline 1
fn ehlo_word<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sp_word(vx_in.v(), W_EHLO()), |o: ByteSlice<'a>| ()),
//@ghost start
    proof { rests(vx_in); skips(); blanks_are(vx_in.v()); fits(vx_in.v(), W_EHLO()); }
//@outline 3
fn ehlo_host<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Domain, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sp_host(vx_in.v()), |o: Domain| o.dv()),
//@ghost start
    proof { rests(vx_in); skips(); blanks_are(vx_in.v()); fits(vx_in.v(), W_EHLO()); }
//@outline 5
fn ehlo_crlf<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sp_crlf(vx_in.v()), |o: ByteSlice<'a>| ()),
//@ghost start
    proof { rests(vx_in); skips(); blanks_are(vx_in.v()); fits(vx_in.v(), W_EHLO()); }
//@end
//@type smtp-message/src/helo/mod.rs HeloCommand
impl HeloCommand {
    //@fn smtp-message/src/helo/mod.rs HeloCommand::new params=domain loops=0
    pub fn new(domain: Domain) -> (r: HeloCommand)
        ensures r.domain == domain,
    //@end
    //@fn smtp-message/src/helo/mod.rs HeloCommand::domain params=self loops=0
    pub fn domain(&self) -> (r: &Domain)
        ensures *r == self.domain,
    //@end
}
//@fn @msg command_helo_args params=i loops=0
pub fn command_helo_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, HeloCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_hello(i.v(), W_HELO()), |o: HeloCommand| o.domain.dv()),
//@ghost start
    hide(p_sp_word); hide(p_sp_host); hide(p_sp_crlf); hide(blanks); hide(p_host);
    proof {
        rests(i); let s = i.v(); hello_once(s, W_HELO()); let b = blanks(s); let t = s.skip(b); fits(t, W_HELO());
        if let P::Done(n, _) = p_sp_word(t, W_HELO()) {
            let u = t.skip(n); fits(u, W_HELO()); assert(u =~= s.skip(b + n));
            if let P::Done(k, _) = p_sp_host(u) {
                let x = t.skip(n + k); fits(x, W_HELO()); assert(x =~= u.skip(k)); assert(x =~= s.skip(b + n + k));
                if let P::Done(m, _) = p_sp_crlf(x) { assert(x.skip(m) =~= t.skip(n + k + m)); assert(x.skip(m) =~= s.skip(b + n + k + m)); }
            }
        }
    }
//@outline 1
fn helo_word<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sp_word(vx_in.v(), W_HELO()), |o: ByteSlice<'a>| ()),
//@ghost start
    proof { rests(vx_in); skips(); blanks_are(vx_in.v()); fits(vx_in.v(), W_HELO()); }
//@outline 3
fn helo_host<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Domain, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sp_host(vx_in.v()), |o: Domain| o.dv()),
//@ghost start
    proof { rests(vx_in); skips(); blanks_are(vx_in.v()); fits(vx_in.v(), W_HELO()); }
//@outline 5
fn helo_crlf<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_sp_crlf(vx_in.v()), |o: ByteSlice<'a>| ()),
//@ghost start
    proof { rests(vx_in); skips(); blanks_are(vx_in.v()); fits(vx_in.v(), W_HELO()); }
//@end
