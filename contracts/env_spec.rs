// ---- specification: MAIL FROM and RCPT TO ---------------------------------------------------
pub open spec fn W_MAIL() -> Seq<u8> { seq![77u8, 65u8, 73u8, 76u8, 32u8, 70u8, 82u8, 79u8, 77u8, 58u8] }
pub open spec fn W_RCPT() -> Seq<u8> { seq![82u8, 67u8, 80u8, 84u8, 32u8, 84u8, 79u8, 58u8] }
pub open spec fn T_NULL() -> Seq<u8> { seq![60u8, 62u8] }
// the null sender, or an address
pub open spec fn p_sender(s: Seq<u8>) -> P<Option<MailV>> {
    match p_tag(s, T_NULL()) {
        P::Done(n, _) => P::Done(n, None),
        P::More => P::More,
        P::Err => match p_maybe(s) { P::Done(n, v) => P::Done(n, Some(v)), P::More => P::More, P::Err => P::Err },
    }
}
// after the address: parameters, blanks, CRLF
pub open spec fn p_env_end(s: Seq<u8>) -> P<ParV> {
    match p_parmap(s) {
        P::Done(n, m) => { let b = n + blanks(s.skip(n)); match p_tag(s.skip(b), CRLF()) { P::Done(k, _) => P::Done(b + k, m), P::More => P::More, P::Err => P::Err } }
        P::More => P::More, P::Err => P::Err,
    }
}
// words, blanks
pub open spec fn p_env_word(s: Seq<u8>, w: Seq<u8>) -> P<()> {
    match p_word(s, w) { P::Done(n, _) => P::Done(n + blanks(s.skip(n)), ()), P::More => P::More, P::Err => P::Err }
}
pub open spec fn p_mail(s: Seq<u8>) -> P<(Option<MailV>, ParV)> {
    match p_env_word(s, W_MAIL()) {
        P::Done(n, _) => match p_sender(s.skip(n)) {
            P::Done(k, a) => match p_env_end(s.skip(n + k)) { P::Done(m, p) => P::Done(n + k + m, (a, p)), P::More => P::More, P::Err => P::Err },
            P::More => P::More, P::Err => P::Err,
        },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_rcpt(s: Seq<u8>) -> P<(MailV, ParV)> {
    match p_env_word(s, W_RCPT()) {
        P::Done(n, _) => match p_maybe(s.skip(n)) {
            P::Done(k, a) => match p_env_end(s.skip(n + k)) { P::Done(m, p) => P::Done(n + k + m, (a, p)), P::More => P::More, P::Err => P::Err },
            P::More => P::More, P::Err => P::Err,
        },
        P::More => P::More, P::Err => P::Err,
    }
}
pub proof fn env_word_fits(s: Seq<u8>, w: Seq<u8>)
    ensures p_env_word(s, w) matches P::Done(n, _) ==> w.len() <= n <= s.len(), p_word(s, w) matches P::Done(n, _) ==> n == w.len() && n <= s.len(),
{ if let P::Done(n, _) = p_word(s, w) { assert(lowered(s).len() == s.len()); assert(lowered(w).len() == w.len()); blanks_are(s.skip(n)); } }
pub proof fn sender_fits(s: Seq<u8>)
    ensures p_sender(s) matches P::Done(n, _) ==> 1 <= n <= s.len(),
{ maybe_fits(s); }
pub proof fn env_end_fits(s: Seq<u8>)
    ensures p_env_end(s) matches P::Done(n, _) ==> 2 <= n <= s.len(), p_parmap(s) matches P::Done(n, _) ==> 0 <= n <= s.len(), !(p_parmap(s) is Err),
{ params_fit(s); if let P::Done(n, _) = p_parmap(s) { blanks_are(s.skip(n)); } }
// C04: the empty path is nobody's address
pub proof fn C04_no_null_recipient(s: Seq<u8>)
    requires s.len() >= 2, s[0] == 60, s[1] == 62,
    ensures p_maybe(s) is Err, p_sender(s) == P::Done(2, None::<MailV>),
{
    let t = s.skip(1);
    assert(t[0] == s[1]);
    assert(T_NULL() =~= seq![60u8, 62u8]);
    assert(cmp_bytes(s, T_NULL()) == CompareResult::Ok) by {
        assert forall|i: int| 0 <= i < s.len() && i < T_NULL().len() implies s[i] == T_NULL()[i] by { if i == 0 {} else {} }
    }
    assert forall|u: Seq<u8>| u.len() > 0 && (u[0] == 60 || u[0] == 62) implies #[trigger] p_path(u) is Err by {
        assert(u[0] != T_AT()[0]);
        assert(p_hop(u) is Err);
        assert(p_route(u) is Err);
        assert(u[0] != T_QUOTE()[0]);
        assert(p_quoted(u) is Err);
        assert(atom(u) == 0);
    }
    assert(p_path(t) is Err);
    assert(p_path(s) is Err);
}
// the two alternatives of a sender exclude each other: they may be tried in either order
pub proof fn sender_either(s: Seq<u8>)
    ensures
        p_tag(s, T_NULL()) is Done ==> p_maybe(s) is Err,
        p_tag(s, T_NULL()) is More ==> p_maybe(s) is More,
{
    assert(T_NULL() =~= seq![60u8, 62u8]);
    if p_tag(s, T_NULL()) is Done {
        assert(s.len() >= 2 && s[0] == T_NULL()[0] && s[1] == T_NULL()[1]);
        C04_no_null_recipient(s);
    }
    if p_tag(s, T_NULL()) is More {
        assert(s.len() < 2);
        if s.len() == 1 { assert(s[0] == T_NULL()[0]); assert(s.skip(1).len() == 0); }
    }
}
