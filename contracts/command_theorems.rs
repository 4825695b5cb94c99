// ---- theorems: what the command grammar means ------------------------------------------------
pub open spec fn starts_with(s: Seq<u8>, w: Seq<u8>) -> bool { s.len() >= w.len() && forall|j: int| 0 <= j < w.len() ==> lower(#[trigger] s[j]) == lower(w[j]) }
pub open spec fn ends_crlf(s: Seq<u8>) -> bool { s.len() >= 2 && s[s.len() - 2] == 13 && s[s.len() - 1] == 10 }
// the word in any case, blanks, CRLF, nothing else
pub open spec fn word_line(s: Seq<u8>, w: Seq<u8>) -> bool {
    starts_with(s, w) && ends_crlf(s) && s.len() >= w.len() + 2 && forall|j: int| w.len() <= j < s.len() - 2 ==> blank(#[trigger] s[j])
}
// the word in any case, one blank, the argument without CRLF, CRLF, nothing else
pub open spec fn arg_line(s: Seq<u8>, w: Seq<u8>, a: Seq<u8>) -> bool {
    starts_with(s, w) && ends_crlf(s) && s.len() == w.len() + 1 + a.len() + 2 && blank(s[w.len() as int])
    && s.subrange(w.len() as int + 1, s.len() - 2) == a && forall|j: int| !#[trigger] is_crlf_at(a, j)
}
pub proof fn word_exact(s: Seq<u8>, w: Seq<u8>)
    ensures p_word(s, w) is Done <==> starts_with(s, w), p_word(s, w) matches P::Done(n, _) ==> n == w.len(),
{
    let (a, b) = (lowered(s), lowered(w));
    assert(a.len() == s.len() && b.len() == w.len());
    if p_word(s, w) is Done { assert forall|j: int| 0 <= j < w.len() implies lower(#[trigger] s[j]) == lower(w[j]) by { assert(a[j] == b[j]); } }
    if starts_with(s, w) { assert forall|i: int| 0 <= i < a.len() && i < b.len() implies a[i] == b[i] by { assert(lower(s[i]) == lower(w[i])); } }
}
pub proof fn crlf_exact(s: Seq<u8>)
    ensures (p_tag(s, CRLF()) is Done) <==> (s.len() >= 2 && s[0] == 13 && s[1] == 10), p_tag(s, CRLF()) matches P::Done(n, _) ==> n == 2,
{
    let c = CRLF();
    if s.len() >= 2 && s[0] == 13 && s[1] == 10 { assert forall|i: int| 0 <= i < s.len() && i < c.len() implies s[i] == c[i] by { if i == 0 {} else {} } }
    else if s.len() >= 2 { if s[0] != 13 { assert(s[0] != c[0]); } else { assert(s[1] != c[1]); } }
}
pub proof fn simple_exact(s: Seq<u8>, w: Seq<u8>)
    ensures (p_simple(s, w) is Done && p_simple(s, w)->Done_0 == s.len()) <==> word_line(s, w),
{
    word_exact(s, w);
    if starts_with(s, w) {
        let n = w.len() as int;
        let t = s.skip(n);
        blanks_are(t);
        let b = n + blanks(t);
        let u = s.skip(b);
        crlf_exact(u);
        assert forall|j: int| n <= j < s.len() implies s[j] == #[trigger] t[j - n] by {}
        if p_simple(s, w) is Done && p_simple(s, w)->Done_0 == s.len() {
            assert(u[0] == s[b] && u[1] == s[b + 1]);
            assert forall|j: int| n <= j < s.len() - 2 implies blank(#[trigger] s[j]) by { assert(blank(t[j - n])); }
        }
        if word_line(s, w) {
            assert forall|j: int| 0 <= j < t.len() - 2 implies blank(#[trigger] t[j]) by { assert(blank(s[j + n])); }
            blanks_unique(t, t.len() - 2);
        }
    }
}
pub proof fn arg_exact(s: Seq<u8>, w: Seq<u8>, a: Seq<u8>)
    requires starts_with(s, w),
    ensures
        (p_arg(s.skip(w.len() as int)) matches P::Done(k, t) && then_crlf(s, w.len() as int + k, t) == P::Done(s.len() as int, a)) <==> arg_line(s, w, a),
        p_arg(s.skip(w.len() as int)) matches P::Done(k, t) ==> blank(s[w.len() as int]) && s.len() > w.len() && then_crlf(s, w.len() as int + k, t) is Done,
        p_arg(s.skip(w.len() as int)) is Err && s.len() > w.len() && blank(s[w.len() as int]) ==> !ends_crlf(s) || s.len() < w.len() + 3,
{
    let n = w.len() as int;
    let t = s.skip(n);
    let u = t.skip(1);
    crlf_at_is(u);
    if t.len() > 0 {
        assert(t[0] == s[n]);
        if blank(t[0]) {
            assert(u =~= s.skip(n + 1));
            let k = crlf_at(u);
            if k >= 0 {
                assert(is_crlf_at(u, k));
                let e = s.skip(n + 1 + k);
                assert(e[0] == u[k] && e[1] == u[k + 1]);
                crlf_exact(e);
                let v = u.take(k);
                assert(v =~= s.subrange(n + 1, n + 1 + k));
                assert forall|j: int| !#[trigger] is_crlf_at(v, j) by { if is_crlf_at(v, j) { assert(is_crlf_at(u, j)); } }
            }
            if arg_line(s, w, a) {
                let m = a.len() as int;
                assert(u[m] == s[s.len() - 2] && u[m + 1] == s[s.len() - 1]);
                assert(is_crlf_at(u, m));
                assert forall|j: int| 0 <= j < m implies !#[trigger] is_crlf_at(u, j) by {
                    assert(u[j] == a[j]);
                    if j + 1 < m { assert(u[j + 1] == a[j + 1]); if is_crlf_at(u, j) { assert(is_crlf_at(a, j)); } }
                }
                crlf_at_unique(u, m);
                assert(u.take(m) =~= a);
            }
            if ends_crlf(s) && s.len() >= n + 3 { assert(u[u.len() - 2] == 13 && u[u.len() - 1] == 10); assert(is_crlf_at(u, u.len() - 2)); }
        }
    }
}
pub proof fn free_exact(s: Seq<u8>, w: Seq<u8>, a: Seq<u8>)
    ensures p_free(s, w) == P::Done(s.len() as int, a) <==> arg_line(s, w, a),
{
    word_exact(s, w);
    if starts_with(s, w) { arg_exact(s, w, a); }
}
// HELP and NOOP: with an argument, or with neither blank nor argument
pub proof fn free_or_none_exact(s: Seq<u8>, w: Seq<u8>, a: Seq<u8>)
    requires w.len() > 0,
    ensures p_free_or_none(s, w) == P::Done(s.len() as int, a) <==> arg_line(s, w, a) || (a.len() == 0 && s.len() == w.len() + 2 && starts_with(s, w) && ends_crlf(s)),
{
    word_exact(s, w);
    if starts_with(s, w) {
        arg_exact(s, w, a);
        let n = w.len() as int;
        let t = s.skip(n);
        crlf_exact(t);
        if t.len() > 0 { assert(t[0] == s[n]); }
        if t.len() >= 2 { assert(t[1] == s[n + 1]); }
        if a.len() == 0 { assert(a =~= Seq::<u8>::empty()); }
    }
}
pub proof fn kind_of(s: Seq<u8>, n: int, c: CmdV, k: int)
    requires 0 <= k <= 10, c == CmdV::Data ==> k == 0, c is Ehlo ==> k == 1, c is Expn ==> k == 2, c is Helo ==> k == 3, c is Help ==> k == 4, c is Mail ==> k == 5,
        c is Noop ==> k == 6, c == CmdV::Quit ==> k == 7, c is Rcpt ==> k == 8, c == CmdV::Rset ==> k == 9, c is Vrfy ==> k == 10,
    ensures is_cmd(s, n, c) <==> p_kind(s, k) == P::Done(n, c),
{
    hide(p_simple); hide(p_hello); hide(p_free); hide(p_free_or_none); hide(p_mail); hide(p_rcpt);
    if is_cmd(s, n, c) { let j = choose|j: int| 0 <= j <= 10 && #[trigger] p_kind(s, j) == P::Done(n, c); assert(j == k); }
}
// C02: a line is DATA, QUIT or RSET exactly when it is that word, blanks and CRLF
pub proof fn C02_words_exact(s: Seq<u8>)
    ensures
        is_cmd(s, s.len() as int, CmdV::Data) <==> word_line(s, W_DATA()),
        is_cmd(s, s.len() as int, CmdV::Quit) <==> word_line(s, W_QUIT()),
        is_cmd(s, s.len() as int, CmdV::Rset) <==> word_line(s, W_RSET()),
{
    hide(p_simple); hide(word_line);
    let n = s.len() as int;
    kind_of(s, n, CmdV::Data, 0); kind_of(s, n, CmdV::Quit, 7); kind_of(s, n, CmdV::Rset, 9);
    simple_exact(s, W_DATA()); simple_exact(s, W_QUIT()); simple_exact(s, W_RSET());
    assert(p_kind(s, 0) == as_data(p_simple(s, W_DATA()))); assert(p_kind(s, 7) == as_quit(p_simple(s, W_QUIT()))); assert(p_kind(s, 9) == as_rset(p_simple(s, W_RSET())));
}
// C03: the argument is what stands between the one blank and the final CRLF
pub proof fn C03_arguments_exact(s: Seq<u8>, a: Seq<u8>)
    ensures
        is_cmd(s, s.len() as int, CmdV::Expn(a)) <==> arg_line(s, W_EXPN(), a),
        is_cmd(s, s.len() as int, CmdV::Vrfy(a)) <==> arg_line(s, W_VRFY(), a),
        is_cmd(s, s.len() as int, CmdV::Help(a)) <==> arg_line(s, W_HELP(), a) || (a.len() == 0 && s.len() == 6 && starts_with(s, W_HELP()) && ends_crlf(s)),
        is_cmd(s, s.len() as int, CmdV::Noop(a)) <==> arg_line(s, W_NOOP(), a) || (a.len() == 0 && s.len() == 6 && starts_with(s, W_NOOP()) && ends_crlf(s)),
{
    hide(p_free); hide(p_free_or_none); hide(arg_line); hide(starts_with);
    let n = s.len() as int;
    kind_of(s, n, CmdV::Expn(a), 2); kind_of(s, n, CmdV::Vrfy(a), 10); kind_of(s, n, CmdV::Help(a), 4); kind_of(s, n, CmdV::Noop(a), 6);
    free_exact(s, W_EXPN(), a); free_exact(s, W_VRFY(), a); free_or_none_exact(s, W_HELP(), a); free_or_none_exact(s, W_NOOP(), a);
}
