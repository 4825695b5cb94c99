// ---- specification: the canonical local part -----------------------------------------------
// each backslash pair replaced by its second character
pub open spec fn unescaped(t: Seq<u8>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if t[0] == 92 && t.len() >= 2 { seq![t[1]] + unescaped(t.skip(2)) }
    else { seq![t[0]] + unescaped(t.skip(1)) }
}
// how the code reads: left to right, remembering a backslash
pub open spec fn reading(t: Seq<u8>, bs: bool) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if bs { seq![t[0]] + reading(t.skip(1), false) }
    else if t[0] == 92 { reading(t.skip(1), true) }
    else { seq![t[0]] + reading(t.skip(1), false) }
}
pub open spec fn is_local(s: Seq<u8>) -> bool { p_local(s) matches P::Done(n, _) && n == s.len() }
pub open spec fn canonical(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 34 { unescaped(s.subrange(1, s.len() - 1)) } else { s } }
pub proof fn reads_quoted(t: Seq<u8>, k: int)
    requires p_qtext(t) == P::<()>::Done(k, ()), k + 1 == t.len(), t[k] == 34,
    ensures reading(t, false) == unescaped(t.take(k)).push(34),
    decreases t.len(),
{
    reveal_with_fuel(reading, 3);
    match p_qchar(t) {
        P::Done(n, _) => {
            let u = t.skip(n);
            qtext_fits(u);
            reads_quoted(u, k - n);
            assert(t.take(k).skip(n) =~= u.take(k - n));
            if n == 2 { assert(t.skip(1).skip(1) =~= u); assert(reading(t, false) == reading(t.skip(1), true)); assert(t.skip(1)[0] == t[1]); }
            assert(reading(t, false) =~= unescaped(t.take(k)).push(34));
        }
        _ => {
            assert(k == 0);
            assert(t.skip(1) =~= Seq::<u8>::empty());
            assert(reading(t, false) =~= unescaped(t.take(k)).push(34));
        }
    }
}
pub proof fn local_reads(s: Seq<u8>)
    requires is_local(s),
    ensures s.len() > 0, s[0] == 34 ==> s.len() >= 2 && reading(s.skip(1), false) == canonical(s).push(34),
{
    local_fits(s);
    if s[0] == 34 {
        assert(atom(s) == 0);
        let t = s.skip(1);
        qtext_fits(t);
        if let P::Done(k, _) = p_qtext(t) {
            assert(t.skip(k) =~= s.skip(1 + k));
            assert(s.skip(1 + k)[0] == t[k]);
            reads_quoted(t, k);
            assert(t.take(k) =~= s.subrange(1, s.len() - 1));
        }
    }
}
//@hoist
impl Email {
    //@fn smtp-message/src/email.rs Email::localpart params=self loops=1
    pub fn localpart(&self) -> (r: SmtpString)
        requires is_local(self.mv().local),
        ensures r@ == canonical(self.mv().local),
    //@ghost start
        let ghost s = self.localpart@;
        proof { local_reads(s); }
    //@loop 0
        invariant
            1 <= vx_i0 <= s.len(), s == self.localpart@,
            vx_out0@ + reading(s.skip(vx_i0 as int), vx_st0 is Backslash) == reading(s.skip(1), false),
        decreases s.len() - vx_i0,
    //@ghost loopstart 0
        proof { let t = s.skip(vx_i0 as int); assert(t.skip(1) =~= s.skip(vx_i0 + 1)); assert(t[0] == s[vx_i0 as int]); }
        let ghost out = vx_out0@; let ghost bs = vx_st0 is Backslash; let ghost at = vx_i0 as int;
    //@ghost loopend 0
        proof { assert(vx_out0@ + reading(s.skip(at + 1), vx_st0 is Backslash) =~= out + reading(s.skip(at), bs)); }
    //@end
}
