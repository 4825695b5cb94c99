// ---- specification: lines, stuffing, unstuffing --------------------------------------------
pub enum L { Run, Cr, CrLf }
// the line automaton: CrLf means "the next byte starts a line"
pub open spec fn lstep(st: L, c: u8) -> L {
    if c == 13 { L::Cr } else if st == L::Cr && c == 10 { L::CrLf } else { L::Run }
}
pub open spec fn lrun(st: L, s: Seq<u8>) -> L
    decreases s.len()
{
    if s.len() == 0 { st } else { lstep(lrun(st, s.drop_last()), s.last()) }
}
// declarative reading: position i of s starts a line
pub open spec fn line_start(s: Seq<u8>, i: int) -> bool {
    i == 0 || (i >= 2 && s[i - 2] == 13 && s[i - 1] == 10)
}
pub proof fn lrun_is_line_start(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures (lrun(L::CrLf, s.take(i)) == L::CrLf) <==> line_start(s, i),
            i > 0 ==> ((lrun(L::CrLf, s.take(i)) == L::Cr) <==> s[i - 1] == 13),
    decreases i
{
    if i > 0 {
        let t = s.take(i);
        assert(t.drop_last() =~= s.take(i - 1));
        assert(t.last() == s[i - 1]);
        lrun_is_line_start(s, i - 1);
        if i == 1 { assert(s.take(0).len() == 0); }
    }
}
pub proof fn lrun_push(st: L, s: Seq<u8>, c: u8)
    ensures lrun(st, s.push(c)) == lstep(lrun(st, s), c)
{
    assert(s.push(c).drop_last() =~= s);
}
pub proof fn lrun_cat(st: L, a: Seq<u8>, b: Seq<u8>)
    ensures lrun(st, a + b) == lrun(lrun(st, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lrun_cat(st, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
// dot stuffing, one byte at a time
pub open spec fn enc1(st: L, c: u8) -> Seq<u8> {
    if st == L::CrLf && c == 46 { seq![46u8, c] } else { seq![c] }
}
pub open spec fn enc(st: L, s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { enc(st, s.drop_last()) + enc1(lrun(st, s.drop_last()), s.last()) }
}
pub proof fn enc_push(st: L, s: Seq<u8>, c: u8)
    ensures enc(st, s.push(c)) == enc(st, s) + enc1(lrun(st, s), c)
{
    assert(s.push(c).drop_last() =~= s);
}
pub proof fn enc_one(st: L, c: u8)
    ensures enc(st, seq![c]) == enc1(st, c), lrun(st, seq![c]) == lstep(st, c)
{
    let e = Seq::<u8>::empty();
    assert(seq![c] =~= e.push(c));
    enc_push(st, e, c); lrun_push(st, e, c);
    assert(enc(st, e) =~= e);
    assert(e + enc1(st, c) =~= enc1(st, c));
}
pub proof fn enc_cat(st: L, a: Seq<u8>, b: Seq<u8>)
    ensures enc(st, a + b) == enc(st, a) + enc(lrun(st, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(enc(st, a) + Seq::<u8>::empty() =~= enc(st, a)); }
    else {
        enc_cat(st, a, b.drop_last());
        lrun_cat(st, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        let x = enc1(lrun(st, a + b.drop_last()), b.last());
        assert((enc(st, a) + enc(lrun(st, a), b.drop_last())) + x =~= enc(st, a) + (enc(lrun(st, a), b.drop_last()) + x));
    }
}
// the terminator that ends a message
pub open spec fn term(m: Seq<u8>) -> Seq<u8> {
    if m.len() == 0 || (m.len() >= 2 && m[m.len() - 2] == 13 && m[m.len() - 1] == 10) {
        seq![46u8, 13u8, 10u8]
    } else {
        seq![13u8, 10u8, 46u8, 13u8, 10u8]
    }
}
// no byte of s is a dot that starts a line
#[verifier::opaque]
pub open spec fn clean(st: L, s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> !(s[i] == 46 && #[trigger] lrun(st, s.take(i)) == L::CrLf)
}
pub proof fn clean_enc(st: L, s: Seq<u8>)
    requires clean(st, s),
    ensures enc(st, s) == s
    decreases s.len()
{ reveal(clean);
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies !(t[i] == 46 && #[trigger] lrun(st, t.take(i)) == L::CrLf) by {
            assert(t.take(i) =~= s.take(i));
        }
        clean_enc(st, t);
        assert(s.take(s.len() - 1) =~= t);
        assert(t + seq![s.last()] =~= s);
    } else { assert(enc(st, s) =~= s); }
}
pub proof fn clean_step(st: L, s: Seq<u8>, i: int)
    ensures
        0 <= i < s.len() ==> lrun(st, s.take(i + 1)) == lstep(lrun(st, s.take(i)), s[i]),
        0 <= i < s.len() && clean(st, s.take(i)) && !(s[i] == 46 && lrun(st, s.take(i)) == L::CrLf) ==> clean(st, s.take(i + 1)),
{ reveal(clean);
    if 0 <= i < s.len() {
        assert(s.take(i + 1) =~= s.take(i).push(s[i]));
        lrun_push(st, s.take(i), s[i]);
        if clean(st, s.take(i)) && !(s[i] == 46 && lrun(st, s.take(i)) == L::CrLf) {
            assert forall|j: int| 0 <= j < s.take(i + 1).len() implies !(s.take(i + 1)[j] == 46 && #[trigger] lrun(st, s.take(i + 1).take(j)) == L::CrLf) by {
                assert(s.take(i + 1).take(j) =~= s.take(j));
                if j < i { assert(s.take(i).take(j) =~= s.take(j)); }
            }
        }
    }
}
pub proof fn clean_empty(st: L, s: Seq<u8>)
    requires s.len() == 0,
    ensures clean(st, s), lrun(st, s) == st
{ reveal(clean); }
