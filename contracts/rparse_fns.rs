impl ReplyLine { pub open spec fn rv(&self) -> ReplyV { ReplyV { code: self.code.code as int, last: self.is_last == IsLastLine::Yes, text: self.line@ } } }
//@fn @msg reply params=i
pub fn reply<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ReplyLine, u32>)
    requires i.wf(),
    ensures gave(i, r, p_reply(i.v()), |o: ReplyLine| o.rv()),
//@ghost start
    proof {
        rests(i); skips(); assert(CRLF() == seq![13u8, 10u8]);
        assert forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, CRLF(), f) implies f == (if crlf_at(s) < 0 { None::<usize> } else { Some(crlf_at(s) as usize) }) && crlf_at(s) <= usize::MAX by { found_crlf(s, f); }
        assert forall|s: Seq<u8>| #![trigger crlf_at(s)] crlf_at(s) <= s.len() && (s.len() >= 2 ==> crlf_at(s) <= s.len() - 2) by { crlf_at_is(s); }
    }
//@loop 0
        invariant x.wf(), vx_i0 <= x.v().len(), vx_all0 ==> forall|j: int| 0 <= j < vx_i0 ==> dig(#[trigger] x.v()[j]), !vx_all0 ==> exists|j: int| 0 <= j < x.v().len() && !dig(#[trigger] x.v()[j]),
        decreases x.v().len() - vx_i0,
//@outline 1
fn reply_code<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, u16, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_code(vx_in.v()), |o: u16| o as int),
        r matches IResult::Done(_, o) ==> o < 1000,
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); if p_code(s) is Done { let t = s.subrange(0, 3); assert(t[0] == s[0] && t[1] == s[1] && t[2] == s[2]); ascii_utf8(t); assert(dig(t[0]) && dig(t[1]) && dig(t[2])); } }
//@outline 6
fn reply_sep<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures took(vx_in, r, (match p_last(vx_in.v()) { P::Done(n, _) => P::Done(n, ()), P::More => P::More, P::Err => P::Err })),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); }
//@end
impl ReplyLine {
    //@fn smtp-message/src/reply.rs ReplyLine::parse params=arg
    pub fn parse(arg: Bytes) -> (r: Result<ReplyLine, ParseError>)
        ensures whole(arg@, r, p_reply(arg@), |o: ReplyLine| o.rv()),
    //@end
}
