// ---- specification: one command ------------------------------------------------------------
pub ghost enum CmdV { Data, Ehlo(DomV), Expn(Seq<u8>), Helo(DomV), Help(Seq<u8>), Mail(Option<MailV>, ParV), Noop(Seq<u8>), Quit, Rcpt(MailV, ParV), Rset, Vrfy(Seq<u8>) }
pub open spec fn as_data(p: P<()>) -> P<CmdV> { match p { P::Done(n, _) => P::Done(n, CmdV::Data), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_quit(p: P<()>) -> P<CmdV> { match p { P::Done(n, _) => P::Done(n, CmdV::Quit), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_rset(p: P<()>) -> P<CmdV> { match p { P::Done(n, _) => P::Done(n, CmdV::Rset), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_ehlo(p: P<DomV>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Ehlo(v)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_helo(p: P<DomV>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Helo(v)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_expn(p: P<Seq<u8>>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Expn(v)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_vrfy(p: P<Seq<u8>>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Vrfy(v)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_help(p: P<Seq<u8>>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Help(v)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_noop(p: P<Seq<u8>>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Noop(v)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_mail(p: P<(Option<MailV>, ParV)>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Mail(v.0, v.1)), P::More => P::More, P::Err => P::Err } }
pub open spec fn as_rcpt(p: P<(MailV, ParV)>) -> P<CmdV> { match p { P::Done(n, v) => P::Done(n, CmdV::Rcpt(v.0, v.1)), P::More => P::More, P::Err => P::Err } }
// the form of kind k
pub open spec fn p_kind(s: Seq<u8>, k: int) -> P<CmdV> {
    if k == 0 { as_data(p_simple(s, W_DATA())) } else if k == 1 { as_ehlo(p_hello(s, W_EHLO())) } else if k == 2 { as_expn(p_free(s, W_EXPN())) }
    else if k == 3 { as_helo(p_hello(s, W_HELO())) } else if k == 4 { as_help(p_free_or_none(s, W_HELP())) } else if k == 5 { as_mail(p_mail(s)) }
    else if k == 6 { as_noop(p_free_or_none(s, W_NOOP())) } else if k == 7 { as_quit(p_simple(s, W_QUIT())) } else if k == 8 { as_rcpt(p_rcpt(s)) }
    else if k == 9 { as_rset(p_simple(s, W_RSET())) } else { as_vrfy(p_free(s, W_VRFY())) }
}


pub open spec fn word_of(k: int) -> Seq<u8> {
    if k == 0 { W_DATA() } else if k == 1 { W_EHLO() } else if k == 2 { W_EXPN() } else if k == 3 { W_HELO() } else if k == 4 { W_HELP() } else if k == 5 { W_MAIL() }
    else if k == 6 { W_NOOP() } else if k == 7 { W_QUIT() } else if k == 8 { W_RCPT() } else if k == 9 { W_RSET() } else { W_VRFY() }
}
pub open spec fn up(b: u8) -> u8 { if 97 <= b <= 122 { (b - 32) as u8 } else { b } }
// the four letters a text of kind k begins with, in capitals
pub open spec fn head(s: Seq<u8>, k: int) -> Seq<u8> { if k == 1 || k == 3 { s.skip(blanks(s)) } else { s } }
pub open spec fn begins(s: Seq<u8>, k: int) -> bool { let t = head(s, k); t.len() >= 4 && forall|j: int| 0 <= j < 4 ==> lower(#[trigger] t[j]) == lower(word_of(k)[j]) }
// the text has the form of some kind, uses n bytes of it and means c
pub open spec fn is_cmd(s: Seq<u8>, n: int, c: CmdV) -> bool { exists|k: int| 0 <= k <= 10 && #[trigger] p_kind(s, k) == P::Done(n, c) }
pub open spec fn no_cmd(s: Seq<u8>) -> bool { forall|k: int| 0 <= k <= 10 ==> #[trigger] p_kind(s, k) is Err }
pub open spec fn part_cmd(s: Seq<u8>) -> bool { exists|k: int| 0 <= k <= 10 && #[trigger] p_kind(s, k) is More }
pub proof fn begins_so(s: Seq<u8>, k: int)
    requires 0 <= k <= 10, p_kind(s, k) is Done,
    ensures begins(s, k),
{
    hide(p_maybe); hide(p_sender); hide(p_env_end); hide(p_sp_host); hide(p_sp_crlf); hide(p_arg); hide(then_crlf); hide(blanks);
    let w = word_of(k);
    let t = head(s, k);
    blanks_are(s);
    assert(p_word(t, w) is Done);
    assert(lowered(t).len() == t.len() && lowered(w).len() == w.len());
    assert forall|j: int| 0 <= j < 4 implies lower(#[trigger] t[j]) == lower(w[j]) by {
        assert(lowered(t)[j] == lower(t[j]));
        assert(lowered(w)[j] == lower(w[j]));
    }
}
// a text that does not begin with the word, as far as it goes, is refused
pub open spec fn differs(s: Seq<u8>, k: int) -> bool { let t = head(s, k); exists|j: int| 0 <= j < 4 && j < t.len() && lower(#[trigger] t[j]) != lower(word_of(k)[j]) }
pub proof fn refused_so(s: Seq<u8>, k: int)
    requires 0 <= k <= 10, differs(s, k),
    ensures p_kind(s, k) is Err,
{
    hide(p_maybe); hide(p_sender); hide(p_env_end); hide(p_sp_host); hide(p_sp_crlf); hide(p_arg); hide(then_crlf); hide(blanks);
    let w = word_of(k);
    let t = head(s, k);
    let j = choose|j: int| 0 <= j < 4 && j < t.len() && lower(#[trigger] t[j]) != lower(w[j]);
    assert(lowered(t)[j] == lower(t[j]));
    assert(lowered(w)[j] == lower(w[j]));
    assert(p_word(t, w) is Err);
}
// a text has the form of at most one kind
pub proof fn only_one(s: Seq<u8>, k: int)
    requires 0 <= k <= 10, p_kind(s, k) is Done,
    ensures forall|j: int| 0 <= j <= 10 && j != k ==> #[trigger] p_kind(s, j) is Err,
{
    hide(p_kind); hide(blanks);
    begins_so(s, k);
    blanks_are(s);
    assert forall|j: int| 0 <= j <= 10 && j != k implies #[trigger] p_kind(s, j) is Err by {
        let a = head(s, k); let b = head(s, j);
        if blanks(s) == 0 { assert(s.skip(0) =~= s); }
        if a == b || blanks(s) == 0 {
            let u = word_of(k); let v = word_of(j);
            let x = if lower(u[0]) != lower(v[0]) { 0int } else if lower(u[1]) != lower(v[1]) { 1 } else if lower(u[2]) != lower(v[2]) { 2 } else { 3 };
            assert(lower(a[x]) == lower(u[x]));
            assert(lower(b[x]) != lower(v[x]));
        } else if k == 1 || k == 3 {
            assert(lower(b[0]) != lower(word_of(j)[0]));
        } else {
            assert(blank(s[0]));
            assert(lower(a[0]) == lower(word_of(k)[0]));
        }
        refused_so(s, j);
    }
}
pub proof fn decided(s: Seq<u8>)
    ensures
        forall|n: int, c: CmdV| #[trigger] is_cmd(s, n, c) ==> !no_cmd(s) && !part_cmd(s),
        forall|n: int, c: CmdV, n2: int, c2: CmdV| #[trigger] is_cmd(s, n, c) && #[trigger] is_cmd(s, n2, c2) ==> n == n2 && c == c2,
{
    hide(p_kind);
    assert forall|n: int, c: CmdV| #[trigger] is_cmd(s, n, c) implies !no_cmd(s) && !part_cmd(s) by {
        let k = choose|k: int| 0 <= k <= 10 && #[trigger] p_kind(s, k) == P::Done(n, c);
        only_one(s, k);
    }
    assert forall|n: int, c: CmdV, n2: int, c2: CmdV| #[trigger] is_cmd(s, n, c) && #[trigger] is_cmd(s, n2, c2) implies n == n2 && c == c2 by {
        let k = choose|k: int| 0 <= k <= 10 && #[trigger] p_kind(s, k) == P::Done(n, c);
        let k2 = choose|k: int| 0 <= k <= 10 && #[trigger] p_kind(s, k) == P::Done(n2, c2);
        only_one(s, k); only_one(s, k2);
    }
}
