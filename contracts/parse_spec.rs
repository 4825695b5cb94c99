// ---- specification: parsers over byte sequences --------------------------------------------
// refused; more input needed; accepted with the number of bytes used and a value
pub enum P<T> { Err, More, Done(int, T) }
pub open spec fn CRLF() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn p_tag(s: Seq<u8>, t: Seq<u8>) -> P<()> {
    match cmp_bytes(s, t) { CompareResult::Ok => P::Done(t.len() as int, ()), CompareResult::Incomplete => P::More, CompareResult::Error => P::Err }
}
pub open spec fn p_word(s: Seq<u8>, t: Seq<u8>) -> P<()> { p_tag(lowered(s), lowered(t)) }
// how many bytes a parser may ask for
pub open spec fn few(n: nom::Needed, len: int) -> bool { n matches nom::Needed::Size(k) ==> k <= len + 64 }
// a parser's result against its specification, when the value is the text used
pub open spec fn took<'a>(i: ByteSlice<'a>, r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>, p: P<()>) -> bool {
    match r {
        IResult::Done(rest, o) => p is Done && 0 <= p->Done_0 <= i.v().len() && sub_view(i, rest, p->Done_0, i.v().len() as int) && sub_view(i, o, 0, p->Done_0),
        IResult::Error(_) => p is Err,
        IResult::Incomplete(n) => p is More && few(n, i.v().len() as int),
    }
}
// ... when the value is something else
pub open spec fn gave<'a, T, O>(i: ByteSlice<'a>, r: IResult<ByteSlice<'a>, O, u32>, p: P<T>, v: spec_fn(O) -> T) -> bool {
    match r {
        IResult::Done(rest, o) => p is Done && 0 <= p->Done_0 <= i.v().len() && sub_view(i, rest, p->Done_0, i.v().len() as int) && v(o) == p->Done_1,
        IResult::Error(_) => p is Err,
        IResult::Incomplete(n) => p is More && few(n, i.v().len() as int),
    }
}
pub open spec fn blank(c: u8) -> bool { c == 32 || c == 9 }
// how many blanks lead
pub open spec fn blanks(s: Seq<u8>) -> int decreases s.len() {
    if s.len() > 0 && blank(s[0]) { 1 + blanks(s.skip(1)) } else { 0 }
}
pub proof fn blanks_are(s: Seq<u8>)
    ensures 0 <= blanks(s) <= s.len(), forall|j: int| 0 <= j < blanks(s) ==> blank(#[trigger] s[j]), blanks(s) < s.len() ==> !blank(s[blanks(s)]),
    decreases s.len(),
{
    if s.len() > 0 && blank(s[0]) {
        blanks_are(s.skip(1));
        let k = blanks(s.skip(1));
        assert forall|j: int| 0 <= j < blanks(s) implies blank(#[trigger] s[j]) by { if j > 0 { assert(s[j] == s.skip(1)[j - 1]); } }
        if k + 1 < s.len() { assert(s[k + 1] == s.skip(1)[k]); }
    }
}
pub proof fn blanks_unique(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> blank(#[trigger] s[j]), k < s.len() ==> !blank(s[k]),
    ensures blanks(s) == k,
{
    blanks_are(s);
    if blanks(s) < k { assert(blank(s[blanks(s)])); }
}
// commands of one word: word, blanks, CRLF
pub open spec fn p_simple(s: Seq<u8>, w: Seq<u8>) -> P<()> {
    match p_word(s, w) {
        P::Done(n, _) => {
            let b = n + blanks(s.skip(n));
            match p_tag(s.skip(b), CRLF()) { P::Done(m, _) => P::Done(b + m, ()), P::More => P::More, P::Err => P::Err }
        }
        P::More => P::More,
        P::Err => P::Err,
    }
}
// where the first CRLF begins; -1: nowhere
pub open spec fn crlf_at(s: Seq<u8>) -> int decreases s.len() {
    if s.len() < 2 { -1 } else if s[0] == 13 && s[1] == 10 { 0 } else { let r = crlf_at(s.skip(1)); if r < 0 { -1 } else { r + 1 } }
}
pub open spec fn is_crlf_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 2 <= s.len() && s[i] == 13 && s[i + 1] == 10 }
pub proof fn crlf_at_is(s: Seq<u8>)
    ensures
        -1 <= crlf_at(s) <= s.len() - 2 || crlf_at(s) == -1,
        crlf_at(s) >= 0 ==> is_crlf_at(s, crlf_at(s)),
        forall|j: int| 0 <= j && (crlf_at(s) < 0 || j < crlf_at(s)) ==> !#[trigger] is_crlf_at(s, j),
    decreases s.len(),
{
    if s.len() >= 2 && !(s[0] == 13 && s[1] == 10) {
        let t = s.skip(1);
        crlf_at_is(t);
        assert forall|j: int| 0 <= j && (crlf_at(s) < 0 || j < crlf_at(s)) implies !#[trigger] is_crlf_at(s, j) by {
            if j > 0 { assert(!is_crlf_at(t, j - 1)); }
        }
    }
}
pub proof fn crlf_at_unique(s: Seq<u8>, k: int)
    requires is_crlf_at(s, k), forall|j: int| 0 <= j < k ==> !#[trigger] is_crlf_at(s, j),
    ensures crlf_at(s) == k,
{
    crlf_at_is(s);
    if crlf_at(s) >= 0 && crlf_at(s) < k { assert(is_crlf_at(s, crlf_at(s))); }
}
pub proof fn found_crlf(s: Seq<u8>, r: Option<usize>)
    requires found(s, CRLF(), r),
    ensures r == (if crlf_at(s) < 0 { None::<usize> } else { Some(crlf_at(s) as usize) }), crlf_at(s) >= 0 ==> crlf_at(s) <= usize::MAX,
{
    crlf_at_is(s);
    assert forall|j: int| occurs(s, CRLF(), j) == #[trigger] is_crlf_at(s, j) by {
        if is_crlf_at(s, j) { assert(s.subrange(j, j + 2) =~= CRLF()); }
        if occurs(s, CRLF(), j) { let u = s.subrange(j, j + 2); assert(u[0] == s[j] && u[1] == s[j + 1]); }
    }
    match r {
        Some(i) => { assert(is_crlf_at(s, i as int)); assert(crlf_at(s) >= 0 ==> is_crlf_at(s, crlf_at(s))); assert(crlf_at(s) >= 0 ==> occurs(s, CRLF(), crlf_at(s))); }
        None => { if crlf_at(s) >= 0 { assert(is_crlf_at(s, crlf_at(s))); assert(occurs(s, CRLF(), crlf_at(s))); } }
    }
}
// everything up to the next CRLF, which is not used
pub open spec fn p_until_crlf(s: Seq<u8>) -> P<Seq<u8>> {
    if s.len() < 2 { P::More } else if crlf_at(s) < 0 { P::Err } else { P::Done(crlf_at(s), s.take(crlf_at(s))) }
}
pub open spec fn p_blank(s: Seq<u8>) -> P<()> {
    if s.len() == 0 { P::More } else if blank(s[0]) { P::Done(1, ()) } else { P::Err }
}
// one blank and the text up to the next CRLF
pub open spec fn p_arg(s: Seq<u8>) -> P<Seq<u8>> {
    match p_blank(s) {
        P::Done(_, _) => match p_until_crlf(s.skip(1)) { P::Done(k, t) => P::Done(1 + k, t), P::More => P::More, P::Err => P::Err },
        P::More => P::More,
        P::Err => P::Err,
    }
}
pub open spec fn then_crlf<T>(s: Seq<u8>, n: int, v: T) -> P<T> {
    match p_tag(s.skip(n), CRLF()) { P::Done(m, _) => P::Done(n + m, v), P::More => P::More, P::Err => P::Err }
}
// word, one blank, text, CRLF
pub open spec fn p_free(s: Seq<u8>, w: Seq<u8>) -> P<Seq<u8>> {
    match p_word(s, w) {
        P::Done(n, _) => match p_arg(s.skip(n)) { P::Done(k, t) => then_crlf(s, n + k, t), P::More => P::More, P::Err => P::Err },
        P::More => P::More,
        P::Err => P::Err,
    }
}
// word, then possibly one blank and text, CRLF
pub open spec fn p_free_or_none(s: Seq<u8>, w: Seq<u8>) -> P<Seq<u8>> {
    match p_word(s, w) {
        P::Done(n, _) => match p_arg(s.skip(n)) { P::Done(k, t) => then_crlf(s, n + k, t), P::More => P::More, P::Err => then_crlf(s, n, Seq::<u8>::empty()) },
        P::More => P::More,
        P::Err => P::Err,
    }
}
pub open spec fn W_DATA() -> Seq<u8> { seq![68u8, 65u8, 84u8, 65u8] }
pub open spec fn W_QUIT() -> Seq<u8> { seq![81u8, 85u8, 73u8, 84u8] }
pub open spec fn W_RSET() -> Seq<u8> { seq![82u8, 83u8, 69u8, 84u8] }
pub open spec fn W_EXPN() -> Seq<u8> { seq![69u8, 88u8, 80u8, 78u8] }
pub open spec fn W_VRFY() -> Seq<u8> { seq![86u8, 82u8, 70u8, 89u8] }
pub open spec fn W_HELP() -> Seq<u8> { seq![72u8, 69u8, 76u8, 80u8] }
pub open spec fn W_NOOP() -> Seq<u8> { seq![78u8, 79u8, 79u8, 80u8] }
// a view of the rest is the rest of the view
pub proof fn rests<'a>(i: ByteSlice<'a>)
    requires i.wf(),
    ensures i.buf@.len() <= isize::MAX, forall|w: ByteSlice<'a>| #![trigger w.v()] w.wf() && w.buf == i.buf && w.end == i.end && w.start >= i.start ==> w.v() == i.v().skip(w.start - i.start),
{
    broadcast use vx_len;
    assert forall|w: ByteSlice<'a>| #![trigger w.v()] w.wf() && w.buf == i.buf && w.end == i.end && w.start >= i.start implies w.v() == i.v().skip(w.start - i.start) by {
        assert(w.v() =~= i.v().skip(w.start - i.start));
    }
}
pub proof fn skips()
    ensures forall|s: Seq<u8>, a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() ==> s.skip(a).skip(b) == s.skip(a + b),
{
    assert forall|s: Seq<u8>, a: int, b: int| #![trigger s.skip(a).skip(b)] 0 <= a && 0 <= b && a + b <= s.len() implies s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
}
