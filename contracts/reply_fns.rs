// ---- ReplyCode, ReplyLine: the real types ---------------------------------------------------
//@type smtp-message/src/builderror.rs BuildError
//@type smtp-message/src/reply.rs ReplyCode derive=Copy,Clone,PartialEq,Eq,Structural
//@type smtp-message/src/reply.rs IsLastLine derive=Copy,Clone,PartialEq,Eq,Structural
//@type smtp-message/src/reply.rs ReplyLine
pub open spec fn legal_byte(b: u8) -> bool { b == 9 || 32 <= b <= 126 }
pub open spec fn legal_text(s: Seq<u8>) -> bool { s.len() <= 506 && forall|i: int| 0 <= i < s.len() ==> legal_byte(#[trigger] s[i]) }
pub open spec fn digit(n: int) -> u8 { (n % 10 + 48) as u8 }
pub open spec fn reply_wire(code: int, last: bool, text: Seq<u8>) -> Seq<u8> {
    seq![digit(code / 100), digit(code / 10), digit(code), if last { 32u8 } else { 45u8 }] + text + seq![13u8, 10u8]
}
// every reply line holds a code below 1000 and no more than 506 legal bytes if built
pub open spec fn reply_ok(r: ReplyLine) -> bool { r.code.code < 1000 }
pub open spec fn reply_bytes(r: ReplyLine) -> Seq<u8> { reply_wire(r.code.code as int, r.is_last == IsLastLine::Yes, r.line@) }
impl ReplyLine {
    //@const smtp-message/src/reply.rs ReplyLine::MAX_LEN
    //@fn smtp-message/src/reply.rs ReplyLine::build params=code,is_last,line loops=1
    pub fn build(code: ReplyCode, is_last: IsLastLine, line: SmtpString) -> (r: Result<ReplyLine, BuildError>)
        ensures
            legal_text(line@) ==> r == Ok::<ReplyLine, BuildError>(ReplyLine { code, is_last, line }),
            line@.len() > 506 ==> (r matches Err(BuildError::LineTooLong { length, limit }) && length == line@.len() && limit == 506),
            line@.len() <= 506 && !legal_text(line@) ==> (r matches Err(BuildError::DisallowedByte { b, pos })
                && pos < line@.len() && line@[pos as int] == b && !legal_byte(b)
                && (forall|i: int| 0 <= i < pos ==> legal_byte(#[trigger] line@[i]))),
    //@loop 0
        invariant
            vx_i0 <= line@.len(), vx_pos0 is None,
            forall|i: int| 0 <= i < vx_i0 ==> legal_byte(#[trigger] line@[i]),
        ensures
            match vx_pos0 {
                Some(p) => p < line@.len() && !legal_byte(line@[p as int]) && forall|i: int| 0 <= i < p ==> legal_byte(#[trigger] line@[i]),
                None => forall|i: int| 0 <= i < line@.len() ==> legal_byte(#[trigger] line@[i]),
            },
        decreases line@.len() - vx_i0,
    //@end
}
