// ---- command lines ---------------------------------------------------------------------------
pub open spec fn line_end_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < s.len() && s[i] == 13 && s[i + 1] == 10 }
#[verifier::opaque]
pub open spec fn no_crlf(s: Seq<u8>) -> bool { forall|i: int| !(#[trigger] line_end_at(s, i)) }
// ends with its only line break
pub open spec fn is_line(l: Seq<u8>) -> bool {
    l.len() >= 2 && line_end_at(l, l.len() - 2) && forall|i: int| 0 <= i < l.len() - 2 ==> !(#[trigger] line_end_at(l, i))
}
// b is a followed by packets, each asked for while no complete line was there
#[verifier::opaque]
pub open spec fn reads(h0: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a
    && forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]) is Pull && !has_end(b.take(k)) && no_crlf(h0 + pulled(b.subrange(a.len() as int, k)))
}
#[verifier::opaque]
pub open spec fn got(a: Seq<Ev>, b: Seq<Ev>) -> Seq<u8> { pulled(b.subrange(a.len() as int, b.len() as int)) }
pub proof fn reads_none(h0: Seq<u8>, a: Seq<Ev>)
    ensures reads(h0, a, a), got(a, a) == Seq::<u8>::empty(), h0 + got(a, a) == h0
{
    reveal(reads); reveal(got);
    assert(a.take(a.len() as int) =~= a);
    assert(a.subrange(a.len() as int, a.len() as int) =~= Seq::<Ev>::empty());
    assert(h0 + got(a, a) =~= h0);
}
pub proof fn reads_more(h0: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>, x: Seq<u8>)
    requires reads(h0, a, b), no_crlf(h0 + got(a, b)), !has_end(b),
    ensures reads(h0, a, b.push(Ev::Pull(x))), got(a, b.push(Ev::Pull(x))) == got(a, b) + x,
        h0 + got(a, b.push(Ev::Pull(x))) == h0 + got(a, b) + x,
        has_end(b.push(Ev::Pull(x))) == has_end(b),
{
    reveal(reads); reveal(got);
    has_end_push(b, Ev::Pull(x));
    let n = a.len() as int;
    let c = b.push(Ev::Pull(x));
    assert(c.take(n) =~= b.take(n));
    assert(c.subrange(n, c.len() as int) =~= b.subrange(n, b.len() as int).push(Ev::Pull(x)));
    pulled_push(b.subrange(n, b.len() as int), Ev::Pull(x));
    assert forall|k: int| n <= k < c.len() implies (#[trigger] c[k]) is Pull && !has_end(c.take(k)) && no_crlf(h0 + pulled(c.subrange(n, k))) by {
        assert(c.subrange(n, k) =~= b.subrange(n, k));
        assert(c.take(k) =~= b.take(k));
        if k == b.len() { assert(b.take(k) =~= b); }
    }
    assert(h0 + got(a, c) =~= h0 + got(a, b) + x);
}
// a connection that ended before another line came
pub open spec fn ran_out(h0: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>, rest: Seq<u8>) -> bool {
    exists|m: Seq<Ev>| {
        &&& #[trigger] reads(h0, a, m)
        &&& b == (if has_end(m) { m } else { m.push(Ev::End) })
        &&& no_crlf(h0 + got(a, m))
        &&& rest == h0 + got(a, m)
    }
}
//@fn smtp-server/src/crlflines.rs next_crlf_line params=s loops=2
#[verifier::exec_allows_no_decreases_clause]
pub fn next_crlf_line<S: Stream<Item = BytesMut>>(s: &mut Prependable<S>, Tracked(tr): Tracked<&mut Trace>) -> (r: Option<BytesMut>)
    requires ready(old(s).stream, old(tr)@),
    ensures
        S::fused() || r is Some ==> ready(final(s).stream, final(tr)@),
        match r {
            // the first complete line; what follows it is kept
            Some(l) => is_line(l@) && reads(pb(*old(s)), old(tr)@, final(tr)@)
                && pb(*old(s)) + got(old(tr)@, final(tr)@) == l@ + pb(*final(s)),
            // the connection ended first
            None => has_end(final(tr)@) && ran_out(pb(*old(s)), old(tr)@, final(tr)@, pb(*final(s))),
        },
//@ghost start
    let ghost h0 = pb(*s); let ghost t0 = tr@;
    let ghost mut m: Seq<Ev> = tr@;
    proof { reads_none(h0, t0); reveal(no_crlf); }
//@loop 0
    invariant
        reads(h0, t0, tr@), m == tr@, ready(s.stream, tr@),
        buf@ + pb(*s) == h0 + got(t0, tr@),
        buf@.len() > 0 ==> s.prepended is None,
        no_crlf(buf@),
    ensures
        has_end(tr@), reads(h0, t0, m), tr@ == (if has_end(m) { m } else { m.push(Ev::End) }), s.prepended is None,
        no_crlf(h0 + got(t0, m)), buf@ == h0 + got(t0, m), S::fused() ==> ready(s.stream, tr@),
//@ghost loopstart 0
    let ghost b0 = buf@;
    let ghost p0 = s.prepended;
    proof {
        assert(b0 + Seq::<u8>::empty() =~= b0);
        if p0 is Some { assert(b0 =~= Seq::<u8>::empty()); assert(b0 + p0->0@ =~= p0->0@); }
    }
//@ghost before break *
    proof {
        has_end_push(m, Ev::End);
        assert(b0 + Seq::<u8>::empty() =~= b0);
    }
//@ghost before is_empty 0
    let ghost x = pkt@;
    let ghost w = b0 + x;
    proof {
        if p0 is None {
            reads_more(h0, t0, m, x);
            m = m.push(Ev::Pull(x));
        }
        assert(m == tr@);
        assert(w =~= h0 + got(t0, m));
        assert(Seq::<u8>::empty() + x =~= x);
        // what is in front of the first CRLF, with it, is a line
        assert forall|k: int| 2 <= k <= w.len() && line_end_at(w, k - 2) && (forall|i: int| 0 <= i < k - 2 ==> !(#[trigger] line_end_at(w, i)))
            implies is_line(#[trigger] w.subrange(0, k)) && w.subrange(0, k) + w.subrange(k, w.len() as int) == w by
        {
            let l = w.subrange(0, k);
            assert(l + w.subrange(k, w.len() as int) =~= w);
            assert forall|i: int| 0 <= i < l.len() - 2 implies !(#[trigger] line_end_at(l, i)) by { assert(!line_end_at(w, i)); }
            assert(line_end_at(l, k - 2));
        }
    }
//@ghost before windows 0
    proof { assert(buf@ =~= w); }
//@loop 1
    invariant
        vx_i1 <= buf@.len(), vx_pos1 is None,
        forall|i: int| 0 <= i < vx_i1 ==> !(#[trigger] line_end_at(buf@, i)),
    ensures
        match vx_pos1 {
            Some(p) => line_end_at(buf@, p as int) && forall|i: int| 0 <= i < p ==> !(#[trigger] line_end_at(buf@, i)),
            None => no_crlf(buf@),
        },
    decreases buf@.len() - vx_i1
//@end
