// ---- theorems about the specification itself ------------------------------------------------
pub open spec fn termst(st: L, s: Seq<u8>, i: int) -> bool {
    0 <= i && i + 3 <= s.len() && lrun(st, s.take(i)) == L::CrLf && s[i] == 46 && s[i + 1] == 13 && s[i + 2] == 10
}
pub proof fn cons_facts(st: L, s: Seq<u8>, i: int)
    requires s.len() > 0, 0 <= i < s.len(),
    ensures lrun(st, s.take(i + 1)) == lrun(lstep(st, s[0]), s.skip(1).take(i)),
{
    enc_one(st, s[0]);
    lrun_cat(st, seq![s[0]], s.skip(1).take(i));
    assert(seq![s[0]] + s.skip(1).take(i) =~= s.take(i + 1));
}
pub proof fn unst_cat(st: L, a: Seq<u8>, b: Seq<u8>)
    ensures unst(st, a + b) == unst(st, a) + unst(lrun(st, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(unst(st, a) + Seq::<u8>::empty() =~= unst(st, a)); }
    else {
        let c = b.drop_last();
        unst_cat(st, a, c);
        lrun_cat(st, a, c);
        assert((a + b).drop_last() =~= a + c);
        assert((a + b).last() == b.last());
        assert((unst(st, a) + unst(lrun(st, a), c)).push(b.last()) =~= unst(st, a) + unst(lrun(st, a), c).push(b.last()));
    }
}
pub proof fn unst_one(st: L, c: u8)
    ensures unst(st, seq![c]) == (if st == L::CrLf && c == 46 { Seq::<u8>::empty() } else { seq![c] })
{
    let e = Seq::<u8>::empty();
    assert(seq![c].drop_last() =~= e);
    assert(lrun(st, e) == st);
    assert(unst(st, e) =~= e);
    assert(e.push(c) =~= seq![c]);
}
// THEOREM dec_meaning: decoding gives the bytes before the first terminating line with line-leading dots
// removed, and the bytes after that line; it gives nothing as long as there is no terminating line.
pub proof fn dec_meaning(st: L, s: Seq<u8>) -> (t: int)
    ensures match dec(st, s) {
        None => forall|i: int| !#[trigger] termst(st, s, i),
        Some((o, r)) => termst(st, s, t) && (forall|i: int| 0 <= i < t ==> !#[trigger] termst(st, s, i))
            && o == unst(st, s.take(t)) && r == s.skip(t + 3),
    }
    decreases s.len()
{
    if s.len() == 0 { -1 }
    else {
        let c = s[0];
        let u = s.skip(1);
        assert(s.take(0) =~= Seq::<u8>::empty());
        assert(lrun(st, s.take(0)) == st);
        if st == L::CrLf && c == 46 && s.len() >= 3 && s[1] == 13 && s[2] == 10 {
            assert(termst(st, s, 0));
            assert(unst(st, s.take(0)) =~= Seq::<u8>::empty());
            0
        } else {
            let n = lstep(st, c);
            let t = dec_meaning(n, u);
            assert forall|i: int| #[trigger] termst(st, s, i) implies i > 0 && termst(n, u, i - 1) by {
                if i > 0 { cons_facts(st, s, i - 1); }
            }
            assert forall|i: int| #[trigger] termst(n, u, i) implies termst(st, s, i + 1) by {
                if i >= 0 && i < s.len() { cons_facts(st, s, i); }
            }
            if dec(st, s) is Some {
                assert(termst(n, u, t));
                assert(seq![c] + u.take(t) =~= s.take(t + 1));
                unst_cat(st, seq![c], u.take(t));
                unst_one(st, c); enc_one(st, c);
                assert(u.skip(t + 3) =~= s.skip(t + 4));
                assert(Seq::<u8>::empty() + unst(n, u.take(t)) =~= unst(n, u.take(t)));
                assert(n == L::Run || !(st == L::CrLf && c == 46));
            }
            t + 1
        }
    }
}
// at the start of a message, `termst` is the declarative `term_at`
pub proof fn termst_is_term_at(s: Seq<u8>, i: int)
    ensures termst(L::CrLf, s, i) <==> term_at(s, i)
{
    if 0 <= i <= s.len() { lrun_is_line_start(s, i); }
}
// stuffed bytes decode to the message, whatever follows
pub proof fn dec_enc(st: L, m: Seq<u8>, f: Seq<u8>)
    requires m.len() > 0 && f.len() >= 3 || m.len() == 0,
    ensures dec(st, enc(st, m) + f) == prep(m, dec(lrun(st, m), f))
    decreases m.len()
{
    if m.len() == 0 {
        assert(enc(st, m) + f =~= f);
        prep_prep(m, m, dec(st, f));
        assert(m =~= Seq::<u8>::empty());
    } else {
        let c = m[0];
        let u = m.skip(1);
        let n = lstep(st, c);
        assert(seq![c] + u =~= m);
        enc_cat(st, seq![c], u); lrun_cat(st, seq![c], u); enc_one(st, c);
        let w = enc(n, u) + f;
        dec_enc(n, u, f);
        prep_prep(seq![c], u, dec(lrun(n, u), f));
        if st == L::CrLf && c == 46 {
            let g = seq![46u8, c] + w;
            assert(enc(st, m) + f =~= g);
            assert(g[0] == 46 && g[1] == 46);
            dec_dot2(g);
            assert(g.skip(1) =~= seq![c] + w);
            let h = seq![c] + w;
            assert(h.skip(1) =~= w);
            assert(dec(L::Run, h) == prep(seq![c], dec(L::Run, w)));
        } else {
            let h = seq![c] + w;
            assert(enc(st, m) + f =~= h);
            assert(h.skip(1) =~= w);
            assert(h[0] == c);
        }
    }
}
pub open spec fn closed(m: Seq<u8>) -> bool { m.len() == 0 || (m.len() >= 2 && m[m.len() - 2] == 13 && m[m.len() - 1] == 10) }
pub open spec fn with_crlf(m: Seq<u8>) -> Seq<u8> { if closed(m) { m } else { m + seq![13u8, 10u8] } }
// THEOREM round_trip (D04): what the sink puts on the wire decodes to the message and leaves what follows
pub proof fn round_trip(m: Seq<u8>, f: Seq<u8>)
    ensures dec(L::CrLf, enc(L::CrLf, m) + term(m) + f) == Some((with_crlf(m), f))
{
    reveal_with_fuel(dec, 4);
    let x = term(m) + f;
    dec_enc(L::CrLf, m, x);
    assert(enc(L::CrLf, m) + term(m) + f =~= enc(L::CrLf, m) + x);
    assert(m.take(m.len() as int) =~= m);
    lrun_is_line_start(m, m.len() as int);
    let e = Seq::<u8>::empty();
    if closed(m) {
        assert(x[0] == 46 && x[1] == 13 && x[2] == 10);
        assert(x.skip(3) =~= f);
        assert(m + e =~= m);
    } else {
        let st = lrun(L::CrLf, m);
        assert(st != L::CrLf);
        let cr = seq![13u8];
        let lf = seq![10u8];
        let x1 = x.skip(1); let x2 = x.skip(2);
        assert(x1.skip(1) =~= x2);
        assert(x[0] == 13 && x1[0] == 10 && x2[0] == 46 && x2[1] == 13 && x2[2] == 10);
        assert(x2.skip(3) =~= f);
        assert(dec(L::CrLf, x2) == Some((e, f)));
        assert(dec(L::Cr, x1) == prep(lf, dec(L::CrLf, x2)));
        assert(dec(st, x) == prep(cr, dec(L::Cr, x1)));
        prep_prep(cr, lf, dec(L::CrLf, x2));
        assert(m + (cr + (lf + e)) =~= m + seq![13u8, 10u8]);
    }
}
// THEOREM no_early_terminator (D03): before the end is requested the wire holds no terminating line
pub proof fn no_early_terminator(st: L, m: Seq<u8>)
    ensures dec(st, enc(st, m)) is None
    decreases m.len()
{
    if m.len() > 0 {
        let c = m[0]; let u = m.skip(1); let n = lstep(st, c);
        assert(seq![c] + u =~= m);
        enc_cat(st, seq![c], u); enc_one(st, c);
        no_early_terminator(n, u);
        let w = enc(n, u);
        if st == L::CrLf && c == 46 {
            let g = seq![46u8, c] + w;
            assert(enc(st, m) =~= g);
            dec_dot2(g);
            let h = g.skip(1);
            assert(h[0] == c); assert(h.skip(1) =~= w);
        } else {
            let h = seq![c] + w;
            assert(enc(st, m) =~= h);
            assert(h.skip(1) =~= w);
        }
    }
}
