// ---- theorems: the reply grammar ---------------------------------------------------------------
pub open spec fn no_crlf(t: Seq<u8>) -> bool { forall|j: int| !#[trigger] is_crlf_at(t, j) }
// R03: a line parses exactly if it is what a reply line of these parts is sent as
pub proof fn R03_exact(s: Seq<u8>, v: ReplyV)
    ensures p_reply(s) == P::Done(s.len() as int, v) <==> 0 <= v.code < 1000 && no_crlf(v.text) && s == reply_wire(v.code, v.last, v.text),
{
    if p_reply(s) == P::Done(s.len() as int, v) {
        let u = s.skip(4);
        assert(s.skip(3)[0] == s[3]);
        crlf_at_is(u);
        let k = crlf_at(u);
        assert(is_crlf_at(u, k));
        let t = u.take(k);
        assert forall|j: int| !#[trigger] is_crlf_at(t, j) by { if is_crlf_at(t, j) { assert(is_crlf_at(u, j)); } }
        let (a, b, c) = (s[0] - 48, s[1] - 48, s[2] - 48);
        assert(v.code == 100 * a + 10 * b + c);
        assert(v.code / 100 == a && (v.code / 10) % 10 == b && v.code % 10 == c) by(nonlinear_arith) requires v.code == 100 * a + 10 * b + c, 0 <= a < 10, 0 <= b < 10, 0 <= c < 10;
        assert(s =~= reply_wire(v.code, v.last, v.text)) by { assert(s[s.len() - 2] == u[k]); assert(s[s.len() - 1] == u[k + 1]); }
    }
    if 0 <= v.code < 1000 && no_crlf(v.text) && s == reply_wire(v.code, v.last, v.text) {
        let x = v.code;
        assert(100 * ((x / 100) % 10) + 10 * ((x / 10) % 10) + x % 10 == x && 0 <= (x / 100) % 10 < 10 && 0 <= (x / 10) % 10 < 10 && 0 <= x % 10 < 10) by(nonlinear_arith) requires 0 <= x < 1000;
        assert(p_code(s) == P::Done(3, x));
        assert(s.skip(3)[0] == s[3]);
        let u = s.skip(4);
        let m = v.text.len() as int;
        assert(u.take(m) =~= v.text);
        assert(u[m] == 13 && u[m + 1] == 10);
        assert(is_crlf_at(u, m));
        assert forall|j: int| 0 <= j < m implies !#[trigger] is_crlf_at(u, j) by {
            assert(u[j] == v.text[j]);
            if j + 1 < m { assert(u[j + 1] == v.text[j + 1]); if is_crlf_at(u, j) { assert(is_crlf_at(v.text, j)); } }
        }
        crlf_at_unique(u, m);
    }
}
// R03: what a reply line is sent as parses back to its code, its flag and its text
pub proof fn R03_round_trip(r: ReplyLine)
    requires reply_ok(r), legal_text(r.line@),
    ensures p_reply(reply_bytes(r)) == P::Done(reply_bytes(r).len() as int, r.rv()),
{
    assert forall|j: int| !#[trigger] is_crlf_at(r.line@, j) by { if is_crlf_at(r.line@, j) { assert(legal_byte(r.line@[j])); } }
    R03_exact(reply_bytes(r), r.rv());
}
