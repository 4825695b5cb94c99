// ---- specification: unstuffing -------------------------------------------------------------
pub enum D { Out(L), Done }
pub type Res = Option<(Seq<u8>, Seq<u8>)>;
pub open spec fn prep(o: Seq<u8>, r: Res) -> Res {
    match r { None => None, Some((a, b)) => Some((o + a, b)) }
}
pub open spec fn term3() -> Seq<u8> { seq![46u8, 13u8, 10u8] }
// decoded text and the bytes after the terminator, or None as long as no terminator was received
pub open spec fn dec(st: L, s: Seq<u8>) -> Res
    decreases s.len()
{
    if s.len() == 0 { None }
    else if st == L::CrLf && s[0] == 46 {
        if s.len() >= 3 && s[1] == 13 && s[2] == 10 { Some((Seq::empty(), s.skip(3))) }
        else { dec(L::Run, s.skip(1)) }
    } else {
        prep(seq![s[0]], dec(lstep(st, s[0]), s.skip(1)))
    }
}
pub open spec fn decd(d: D, s: Seq<u8>) -> Res {
    match d { D::Done => Some((Seq::empty(), s)), D::Out(st) => dec(st, s) }
}
pub proof fn prep_prep(a: Seq<u8>, b: Seq<u8>, r: Res)
    ensures prep(a, prep(b, r)) == prep(a + b, r), prep(Seq::empty(), r) == r,
{
    match r { None => {}, Some((x, y)) => {
        assert(a + (b + x) =~= (a + b) + x);
        assert(Seq::<u8>::empty() + x =~= x);
    } }
}
// a stretch without a dot at a line start passes through unchanged
pub proof fn dec_clean(st: L, a: Seq<u8>, f: Seq<u8>)
    requires clean(st, a),
    ensures dec(st, a + f) == prep(a, dec(lrun(st, a), f)),
    decreases a.len()
{ reveal(clean);
    if a.len() == 0 {
        assert(a + f =~= f); prep_prep(a, a, dec(st, f)); assert(a =~= Seq::<u8>::empty());
    } else {
        let b = a.skip(1);
        let c = a[0];
        assert(a.take(0) =~= Seq::<u8>::empty());
        assert(!(c == 46 && lrun(st, a.take(0)) == L::CrLf));
        assert(seq![c] + b =~= a);
        enc_one(st, c); lrun_cat(st, seq![c], b);
        let st1 = lstep(st, c);
        assert forall|i: int| 0 <= i < b.len() implies !(b[i] == 46 && #[trigger] lrun(st1, b.take(i)) == L::CrLf) by {
            assert(seq![c] + b.take(i) =~= a.take(i + 1));
            lrun_cat(st, seq![c], b.take(i));
            assert(a[i + 1] == b[i]);
        }
        dec_clean(st1, b, f);
        assert((a + f).skip(1) =~= b + f);
        assert((a + f)[0] == c);
        prep_prep(seq![c], b, dec(lrun(st1, b), f));
    }
}
pub proof fn dec_dot(f: Seq<u8>)
    requires f.len() >= 3, f[0] == 46,
    ensures dec(L::CrLf, f) == (if f[1] == 13 && f[2] == 10 { Some((Seq::<u8>::empty(), f.skip(3))) } else { dec(L::Run, f.skip(1)) })
{ reveal_with_fuel(dec, 2); }
// an escape dot whose next byte already excludes the terminator
pub proof fn dec_dot2(f: Seq<u8>)
    requires f.len() >= 2, f[0] == 46, f[1] != 13,
    ensures dec(L::CrLf, f) == dec(L::Run, f.skip(1))
{ reveal_with_fuel(dec, 2); }
// declarative reading -------------------------------------------------------------------------
pub open spec fn term_at(s: Seq<u8>, i: int) -> bool {
    0 <= i && i + 3 <= s.len() && line_start(s, i) && s[i] == 46 && s[i + 1] == 13 && s[i + 2] == 10
}
// every byte except the dots that start a line
pub open spec fn unst(st: L, s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if lrun(st, s.drop_last()) == L::CrLf && s.last() == 46 { unst(st, s.drop_last()) }
    else { unst(st, s.drop_last()).push(s.last()) }
}

// ---- decoding in steps: for every continuation, o is given out and the rest is still owed ------
#[verifier::opaque]
pub open spec fn eqv(d0: D, h0: Seq<u8>, d1: D, h1: Seq<u8>, o: Seq<u8>) -> bool {
    forall|f: Seq<u8>| #[trigger] decd(d0, h0 + f) == prep(o, decd(d1, h1 + f))
}
pub proof fn eqv_refl(d: D, h: Seq<u8>) ensures eqv(d, h, d, h, Seq::empty())
{ reveal(eqv);
    assert forall|f: Seq<u8>| #[trigger] decd(d, h + f) == prep(Seq::empty(), decd(d, h + f)) by {
        prep_prep(Seq::empty(), Seq::empty(), decd(d, h + f));
    }
}
pub proof fn eqv_trans(d0: D, h0: Seq<u8>, d1: D, h1: Seq<u8>, o1: Seq<u8>, d2: D, h2: Seq<u8>, o2: Seq<u8>)
    requires eqv(d0, h0, d1, h1, o1), eqv(d1, h1, d2, h2, o2),
    ensures eqv(d0, h0, d2, h2, o1 + o2)
{ reveal(eqv);
    assert forall|f: Seq<u8>| #[trigger] decd(d0, h0 + f) == prep(o1 + o2, decd(d2, h2 + f)) by {
        assert(decd(d1, h1 + f) == prep(o2, decd(d2, h2 + f)));
        prep_prep(o1, o2, decd(d2, h2 + f));
    }
}
pub proof fn eqv_more(d0: D, h0: Seq<u8>, d1: D, h1: Seq<u8>, o: Seq<u8>, b: Seq<u8>)
    requires eqv(d0, h0, d1, h1, o),
    ensures eqv(d0, h0 + b, d1, h1 + b, o)
{ reveal(eqv);
    assert forall|f: Seq<u8>| #[trigger] decd(d0, h0 + b + f) == prep(o, decd(d1, h1 + b + f)) by {
        assert(h0 + b + f =~= h0 + (b + f));
        assert(h1 + b + f =~= h1 + (b + f));
    }
}
pub proof fn eqv_out(st: L, b: Seq<u8>, x: int, q: Seq<u8>)
    requires 0 <= x <= b.len(), clean(st, b.take(x)),
    ensures eqv(D::Out(st), b + q, D::Out(lrun(st, b.take(x))), b.skip(x) + q, b.take(x))
{ reveal(eqv);
    assert forall|f: Seq<u8>| #[trigger] decd(D::Out(st), b + q + f) == prep(b.take(x), decd(D::Out(lrun(st, b.take(x))), b.skip(x) + q + f)) by {
        dec_clean(st, b.take(x), b.skip(x) + q + f);
        assert(b.take(x) + (b.skip(x) + q + f) =~= b + q + f);
    }
}
// terminator at x
pub proof fn eqv_term(st: L, b: Seq<u8>, x: int, q: Seq<u8>)
    requires 0 <= x, x + 3 <= b.len(), clean(st, b.take(x)), lrun(st, b.take(x)) == L::CrLf, b[x] == 46, b[x + 1] == 13, b[x + 2] == 10,
    ensures eqv(D::Out(st), b + q, D::Done, b.skip(x).skip(3) + q, b.take(x))
{ reveal(eqv);
    let c = b.skip(x);
    eqv_out(st, b, x, q);
    assert forall|f: Seq<u8>| #[trigger] decd(D::Out(L::CrLf), c + q + f) == prep(Seq::empty(), decd(D::Done, c.skip(3) + q + f)) by {
        dec_dot(c + q + f);
        assert((c + q + f).skip(3) =~= c.skip(3) + q + f);
    }
    eqv_trans(D::Out(st), b + q, D::Out(L::CrLf), c + q, b.take(x), D::Done, c.skip(3) + q, Seq::empty());
    assert(b.take(x) + Seq::<u8>::empty() =~= b.take(x));
}
// escape dot at x
pub open spec fn is_escape(b: Seq<u8>, x: int) -> bool {
    0 <= x && b[x] == 46 && (x + 3 <= b.len() && !(b[x + 1] == 13 && b[x + 2] == 10) || x + 2 <= b.len() && b[x + 1] != 13)
}
pub proof fn eqv_escape(st: L, b: Seq<u8>, x: int, q: Seq<u8>)
    requires is_escape(b, x), clean(st, b.take(x)), lrun(st, b.take(x)) == L::CrLf,
    ensures eqv(D::Out(st), b + q, D::Out(L::Run), b.skip(x).skip(1) + q, b.take(x))
{ reveal(eqv);
    let c = b.skip(x);
    eqv_out(st, b, x, q);
    assert forall|f: Seq<u8>| #[trigger] decd(D::Out(L::CrLf), c + q + f) == prep(Seq::empty(), decd(D::Out(L::Run), c.skip(1) + q + f)) by {
        let g = c + q + f;
        assert(g[0] == c[0] && g[1] == c[1]);
        if c.len() >= 3 { assert(g[2] == c[2]); dec_dot(g); } else { dec_dot2(g); }
        assert(g.skip(1) =~= c.skip(1) + q + f);
        prep_prep(Seq::empty(), Seq::empty(), dec(L::Run, g.skip(1)));
    }
    eqv_trans(D::Out(st), b + q, D::Out(L::CrLf), c + q, b.take(x), D::Out(L::Run), c.skip(1) + q, Seq::empty());
    assert(b.take(x) + Seq::<u8>::empty() =~= b.take(x));
}
// nothing is decided while only a beginning of the terminator line is there
pub proof fn dec_wait(st: L, b: Seq<u8>)
    requires b.len() == 0 || st == L::CrLf && (b =~= seq![46u8] || b =~= seq![46u8, 13u8]),
    ensures dec(st, b) is None
{ reveal_with_fuel(dec, 4); }
// what one look at the buffer b found: where to cut
pub open spec fn cut_none(st: L, b: Seq<u8>, now: L) -> bool { now == lrun(st, b) && clean(st, b) }
pub open spec fn cut_at(st: L, b: Seq<u8>, x: int) -> bool {
    0 <= x < b.len() && clean(st, b.take(x)) && lrun(st, b.take(x)) == L::CrLf && b[x] == 46
}
