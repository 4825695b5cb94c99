// ---- specification: one reply line -----------------------------------------------------------
pub open spec fn dig(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn code_of(s: Seq<u8>) -> int { (s[0] - 48) * 100 + (s[1] - 48) * 10 + (s[2] - 48) }
pub ghost struct ReplyV { pub code: int, pub last: bool, pub text: Seq<u8> }
pub open spec fn p_code(s: Seq<u8>) -> P<int> {
    if s.len() < 3 { P::More } else if dig(s[0]) && dig(s[1]) && dig(s[2]) { P::Done(3, code_of(s)) } else { P::Err }
}
// '-' or ' '
pub open spec fn p_last(s: Seq<u8>) -> P<bool> {
    if s.len() == 0 { P::More } else if s[0] == 45 { P::Done(1, false) } else if s[0] == 32 { P::Done(1, true) } else { P::Err }
}
// the text up to the first CRLF, which is used too
pub open spec fn p_text_crlf(s: Seq<u8>) -> P<Seq<u8>> {
    match p_until_crlf(s) { P::Done(k, t) => P::Done(k + 2, t), P::More => P::More, P::Err => P::Err }
}
pub open spec fn p_reply(s: Seq<u8>) -> P<ReplyV> {
    match p_code(s) {
        P::Done(n, c) => match p_last(s.skip(n)) {
            P::Done(k, l) => match p_text_crlf(s.skip(n + k)) { P::Done(m, t) => P::Done(n + k + m, ReplyV { code: c, last: l, text: t }), P::More => P::More, P::Err => P::Err },
            P::More => P::More, P::Err => P::Err,
        },
        P::More => P::More, P::Err => P::Err,
    }
}
// ---- dependency contracts (trusted): core's number parser -------------------------------------
pub assume_specification[ <u8>::is_ascii_digit ](b: &u8) -> (r: bool) ensures r == dig(*b);
#[verifier::external_body] pub struct ParseIntError { _p: u8 }
pub trait FromStr: Sized { type Err; spec fn from_text(s: Seq<u8>, r: core::result::Result<Self, Self::Err>) -> bool; fn from_str(s: &Str) -> (r: core::result::Result<Self, Self::Err>) ensures Self::from_text(s.utf8(), r); }
impl FromStr for u16 {
    type Err = ParseIntError;
    // said of three digits only
    open spec fn from_text(s: Seq<u8>, r: core::result::Result<u16, ParseIntError>) -> bool { s.len() == 3 && dig(s[0]) && dig(s[1]) && dig(s[2]) ==> (r matches Ok(v) && v == code_of(s)) }
    #[verifier::external_body] fn from_str(s: &Str) -> (r: core::result::Result<u16, ParseIntError>) { unimplemented!() }
}
// ASCII is UTF-8
#[verifier::external_body] pub proof fn ascii_utf8(s: Seq<u8>)
    requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 128,
    ensures is_utf8(s)
{}
