#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include line_spec.rs
//@include trace.rs
//@include dep_stream.rs
//@include dec_spec.rs
//@include dec_theorems.rs
//@helpers smtp-message/src/data/stream.rs smtp-message/src/streamext/prependable.rs
//@thread poll_next : Tracked(&mut *tr)
//@hoist

//@type smtp-message/src/streamext/prependable.rs Prependable generics=S:~Stream
//@type smtp-message/src/data/stream.rs DataStreamState derive=Copy,Clone,PartialEq,Eq,Structural
//@type smtp-message/src/data/stream.rs DataStream generics='a,S:~Stream<Item=BytesMut>

impl<S: Stream> Prependable<S> {
    //@fn smtp-message/src/streamext/prependable.rs Prependable::new params=s loops=0
    pub fn new(s: S) -> (r: Prependable<S>)
        ensures r.stream == s, r.prepended is None,
    //@end
    //@fn smtp-message/src/streamext/prependable.rs Prependable::prepend params=self,item loops=0
    pub fn prepend(&mut self, item: S::Item) -> (r: Result<(), ()>)
        ensures
            final(self).stream == old(self).stream,
            old(self).prepended is None ==> r is Ok && final(self).prepended == Some(item),
            old(self).prepended is Some ==> r is Err && final(self).prepended == old(self).prepended,
    //@end
    //@fn smtp-message/src/streamext/prependable.rs <Stream for Prependable>::poll_next params=self,cx loops=0
    pub fn poll_next(&mut self, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (r: Poll<Option<S::Item>>)
        ensures
            final(self).prepended is None,
            final(self).stream.id() == old(self).stream.id(),
            old(self).prepended matches Some(x) ==> r == Poll::Ready(Some(x)) && final(self).stream == old(self).stream
                && final(tr)@ == old(tr)@,
            old(self).prepended is None ==> final(tr)@ == old(tr)@.push(evp(r)),
    //@end
}

pub open spec fn pb<S: Stream<Item = BytesMut>>(p: Prependable<S>) -> Seq<u8> {
    match p.prepended { Some(b) => b@, None => Seq::empty() }
}
pub open spec fn dst(s: DataStreamState) -> D {
    match s {
        DataStreamState::Running => D::Out(L::Run),
        DataStreamState::CrPassed => D::Out(L::Cr),
        DataStreamState::CrLfPassed => D::Out(L::CrLf),
        _ => D::Done,
    }
}
pub open spec fn live(s: DataStreamState) -> bool {
    s == DataStreamState::Running || s == DataStreamState::CrPassed || s == DataStreamState::CrLfPassed || s == DataStreamState::Finished
}
// bytes received and not yet given out
pub open spec fn have<S: Stream<Item = BytesMut>>(d: DataStream<S>) -> Seq<u8> { d.buf@ + pb(*d.source) }
pub open spec fn inv<S: Stream<Item = BytesMut>>(d: DataStream<S>) -> bool {
    d.buf@.len() > 0 ==> d.source.prepended is None
}
// bytes delivered between history a and history b
#[verifier::opaque]
pub open spec fn newly(a: Seq<Ev>, b: Seq<Ev>) -> Seq<u8> { pulled(since(a, b)) }
// every read of the connection happened while no terminator had been received
#[verifier::opaque]
pub open spec fn needed(d: D, h: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>) -> bool {
    forall|k: int| 0 <= k < since(a, b).len() ==> decd(d, h + #[trigger] pulled(since(a, b).take(k))) is None
}
#[verifier::opaque]
pub open spec fn only_pulls(a: Seq<Ev>, b: Seq<Ev>) -> bool {
    extends(a, b) && forall|k: int| a.len() <= k < b.len() ==> #[trigger] b[k] is Pull
}
pub open spec fn pulls_then(a: Seq<Ev>, b: Seq<Ev>, e: Ev) -> bool {
    b.len() > 0 && b.last() == e && only_pulls(a, b.drop_last())
}
pub proof fn start_facts(d0: D, h0: Seq<u8>, t0: Seq<Ev>)
    ensures
        eqv(d0, h0, d0, h0, Seq::empty()), only_pulls(t0, t0), needed(d0, h0, t0, t0),
        newly(t0, t0) == Seq::<u8>::empty(), h0 + newly(t0, t0) == h0,
{
    reveal(newly); reveal(needed); reveal(only_pulls);
    eqv_refl(d0, h0);
    assert(since(t0, t0) =~= Seq::<Ev>::empty());
    assert(t0.take(t0.len() as int) =~= t0);
    assert(h0 + Seq::<u8>::empty() =~= h0);
}
// one more event, while nothing is decided yet
pub proof fn poll_facts(d0: D, h0: Seq<u8>, t0: Seq<Ev>, t1: Seq<Ev>, d1: D, h1: Seq<u8>)
    requires
        only_pulls(t0, t1), needed(d0, h0, t0, t1), eqv(d0, h0 + newly(t0, t1), d1, h1, Seq::empty()),
        decd(d1, h1) is None,
    ensures
        decd(d0, h0 + newly(t0, t1)) is None,
        forall|e: Ev| #![trigger t1.push(e)] needed(d0, h0, t0, t1.push(e))
            && eqv(d0, h0 + newly(t0, t1.push(e)), d1, (match e { Ev::Pull(b) => h1 + b, _ => h1 }), Seq::empty())
            && (e is Pull ==> only_pulls(t0, t1.push(e)))
            && (!(e is Pull) ==> newly(t0, t1.push(e)) == newly(t0, t1) && pulls_then(t0, t1.push(e), e)),
{
    reveal(newly); reveal(needed); reveal(only_pulls); reveal(eqv);
    let em = Seq::<u8>::empty();
    let p = h0 + newly(t0, t1);
    assert(p + em =~= p && h1 + em =~= h1);
    assert(decd(d0, p + em) == prep(em, decd(d1, h1 + em)));
    assert forall|e: Ev| #![trigger t1.push(e)] needed(d0, h0, t0, t1.push(e))
            && eqv(d0, h0 + newly(t0, t1.push(e)), d1, (match e { Ev::Pull(b) => h1 + b, _ => h1 }), Seq::empty())
            && (e is Pull ==> only_pulls(t0, t1.push(e)))
            && (!(e is Pull) ==> newly(t0, t1.push(e)) == newly(t0, t1) && pulls_then(t0, t1.push(e), e)) by {
        since_push(t0, t1, e);
        let n = since(t0, t1);
        assert(t1.push(e).drop_last() =~= t1);
        assert forall|k: int| 0 <= k < n.push(e).len() implies decd(d0, h0 + #[trigger] pulled(n.push(e).take(k))) is None by {
            if k < n.len() { assert(n.push(e).take(k) =~= n.take(k)); } else { assert(n.push(e).take(k) =~= n); }
        }
        match e {
            Ev::Pull(b) => { eqv_more(d0, p, d1, h1, em, b); assert(p + b =~= h0 + (pulled(n) + b)); }
            _ => {}
        }
    }
}

pub open spec fn given(r: Poll<Option<BytesMut>>) -> Seq<u8> {
    match r { Poll::Ready(Some(b)) => b@, _ => Seq::empty() }
}
pub open spec fn vx_all(a: Seq<Ev>, b: Seq<Ev>) -> Seq<u8> { newly(a, b) }
pub proof fn pulled_cat(a: Seq<Ev>, b: Seq<Ev>)
    ensures pulled(a + b) == pulled(a) + pulled(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(pulled(a) + Seq::<u8>::empty() =~= pulled(a)); }
    else {
        pulled_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        match b.last() {
            Ev::Pull(x) => { assert((pulled(a) + pulled(b.drop_last())) + x =~= pulled(a) + (pulled(b.drop_last()) + x)); }
            _ => {}
        }
    }
}
// histories compose
pub proof fn vx_trans(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>)
    requires extends(a, b), only_pulls(b, c) || exists|e: Ev| pulls_then(b, c, e),
    ensures extends(a, c), extends(b, c), newly(a, c) == newly(a, b) + newly(b, c)
{
    reveal(newly); reveal(only_pulls);
    if !only_pulls(b, c) {
        assert(c.take(b.len() as int) =~= c.drop_last().take(b.len() as int));
    }
    assert(c.take(b.len() as int) == b);
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert(since(a, c) =~= since(a, b) + since(b, c));
    pulled_cat(since(a, b), since(b, c));
}
pub proof fn eqv_none(d0: D, h0: Seq<u8>, d1: D, h1: Seq<u8>, o: Seq<u8>)
    requires eqv(d0, h0, d1, h1, o), decd(d1, h1) is None,
    ensures decd(d0, h0) is None
{
    reveal(eqv);
    let e = Seq::<u8>::empty();
    assert(decd(d0, h0 + e) == prep(o, decd(d1, h1 + e)));
    assert(h0 + e =~= h0 && h1 + e =~= h1);
}
pub proof fn eqv_done(d0: D, h0: Seq<u8>, h1: Seq<u8>, o: Seq<u8>)
    requires eqv(d0, h0, D::Done, h1, o),
    ensures decd(d0, h0) == Some((o, h1))
{
    reveal(eqv);
    let e = Seq::<u8>::empty();
    assert(decd(d0, h0 + e) == prep(o, decd(D::Done, h1 + e)));
    assert(h0 + e =~= h0 && h1 + e =~= h1 && o + e =~= o);
}
pub proof fn needed_trans(d0: D, h0: Seq<u8>, a: Seq<Ev>, b: Seq<Ev>, d1: D, h1: Seq<u8>, o: Seq<u8>, c: Seq<Ev>)
    requires
        extends(a, b), extends(b, c), needed(d0, h0, a, b), needed(d1, h1, b, c), eqv(d0, h0 + newly(a, b), d1, h1, o),
    ensures needed(d0, h0, a, c)
{
    reveal(needed); reveal(newly);
    let x = since(a, b); let y = since(b, c); let z = since(a, c);
    assert(c.take(b.len() as int) == b);
    assert(z =~= x + y);
    assert forall|k: int| 0 <= k < z.len() implies decd(d0, h0 + #[trigger] pulled(z.take(k))) is None by {
        if k < x.len() { assert(z.take(k) =~= x.take(k)); }
        else {
            let j = k - x.len();
            let p = pulled(y.take(j));
            assert(z.take(k) =~= x + y.take(j));
            pulled_cat(x, y.take(j));
            eqv_more(d0, h0 + pulled(x), d1, h1, o, p);
            assert(h0 + pulled(x) + p =~= h0 + pulled(z.take(k)));
            eqv_none(d0, h0 + pulled(x) + p, d1, h1 + p, o);
        }
    }
}
impl<'a, S: Stream<Item = BytesMut>> DataStream<'a, S> {
    //@fn smtp-message/src/data/stream.rs DataStream::new params=source loops=0
    pub fn new(source: &mut Prependable<S>) -> (r: DataStream<'_, S>)
        ensures
            *r.source == *old(source), *final(source) == *final(r.source),
            inv(r), dst(r.state) == D::Out(L::CrLf), have(r) == pb(*old(source)),
    //@end
    //@fn smtp-message/src/data/stream.rs DataStream::was_completed params=self loops=0
    pub fn was_completed(&self) -> (r: bool)
        ensures r == (self.state == DataStreamState::Completed),
    //@end
    //@fn smtp-message/src/data/stream.rs DataStream::complete params=self loops=0
    pub fn complete(&mut self) -> (r: Result<(), ()>)
        requires
            inv(*old(self)),
            old(self).state == DataStreamState::EarlyFin || old(self).state == DataStreamState::Finished,
        ensures
            final(self).state == DataStreamState::Completed,
            r is Ok <==> old(self).state == DataStreamState::Finished,
            final(self).source.stream == old(self).source.stream,
            r is Ok ==> pb(*final(self).source) == have(*old(self)),
            r is Err ==> pb(*final(self).source) == pb(*old(self).source),
            *final(final(self).source) == *final(old(self).source),
    //@end
    //@fn smtp-message/src/data/stream.rs <Stream for DataStream>::poll_next params=self,cx
    #[verifier::exec_allows_no_decreases_clause]
    pub fn poll_next(&mut self, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (r: Poll<Option<BytesMut>>)
        requires
            inv(*old(self)), live(old(self).state),
        ensures
            inv(*final(self)),
            // received bytes are given out decoded, or still owed: for every continuation
            final(self).state != DataStreamState::EarlyFin ==> live(final(self).state)
                && eqv(dst(old(self).state), have(*old(self)) + newly(old(tr)@, final(tr)@),
                    dst(final(self).state), have(*final(self)), given(r)),
            // an empty result means the terminator was received, or the connection ended before one was
            r matches Poll::Ready(None) ==> final(self).state == DataStreamState::Finished
                || final(self).state == DataStreamState::EarlyFin,
            final(self).state == DataStreamState::EarlyFin ==> r == Poll::<Option<BytesMut>>::Ready(None)
                && decd(dst(old(self).state), have(*old(self)) + newly(old(tr)@, final(tr)@)) is None,
            r matches Poll::Ready(Some(b)) ==> b@.len() > 0,
            // the history: packets, then at most one end or one pending poll
            r is Pending ==> pulls_then(old(tr)@, final(tr)@, Ev::Pend),
            final(self).state == DataStreamState::EarlyFin ==> pulls_then(old(tr)@, final(tr)@, Ev::End) && final(self).source.prepended is None,
            !(r is Pending) && final(self).state != DataStreamState::EarlyFin ==> only_pulls(old(tr)@, final(tr)@),
            needed(dst(old(self).state), have(*old(self)), old(tr)@, final(tr)@),
            *final(final(self).source) == *final(old(self).source),
    //@ghost start
        hide(lrun); hide(dec); hide(prep); hide(line_start); hide(enc);
        let ghost d0 = dst(self.state);
        let ghost h0 = have(*self);
        let ghost t0 = tr@;
        proof { start_facts(d0, h0, t0); }
    //@loop 0
        invariant
            live(self.state), self.state != DataStreamState::Finished,
            inv(*self), only_pulls(t0, tr@),
            eqv(d0, h0 + newly(t0, tr@), dst(self.state), have(*self), Seq::empty()),
            needed(d0, h0, t0, tr@),
            *final(self.source) == *final(old(self).source),
    //@ghost loopstart 0
        let ghost b0 = self.buf@;
        let ghost q0 = pb(*self.source);
        let ghost s0 = match dst(self.state) { D::Out(s) => s, D::Done => L::Run };
        let ghost n0 = b0.len() as int;
        let ghost p0 = h0 + newly(t0, tr@);
        proof {
            clean_empty(s0, b0.take(0));
            assert(b0.take(n0) =~= b0);
            clean_step(s0, b0, n0 - 2);
            clean_step(s0, b0, n0 - 1);
        }
    //@loop 1
        invariant_except_break
            split == BufSplit::Nowhere,
            dst(state) == D::Out(lrun(s0, b0.take(vx_i1 as int))),
            clean(s0, b0.take(vx_i1 as int)),
        invariant
            vx_i1 <= n0, n0 >= 2 ==> vx_i1 <= n0 - 2, n0 < 2 ==> vx_i1 == 0,
            self.buf@ == b0,
        ensures
            match split {
                BufSplit::Nowhere => dst(state) == D::Out(lrun(s0, b0.take(if n0 >= 2 { n0 - 2 } else { 0 })))
                    && clean(s0, b0.take(if n0 >= 2 { n0 - 2 } else { 0 })),
                BufSplit::Eof(x) => cut_at(s0, b0, x as int) && x + 3 <= n0 && b0[x + 1] == 13 && b0[x + 2] == 10,
                BufSplit::Escape(x) => cut_at(s0, b0, x as int) && is_escape(b0, x as int),
                BufSplit::Unknown(x) => false,
            },
        decreases n0 - vx_i1
    //@ghost loopstart 1
        proof { clean_step(s0, b0, vx_i1 as int); }
    //@ghost before take *
        proof {
            assert(cut_none(s0, b0, lrun(s0, b0)));
            eqv_out(s0, b0, n0, q0);
            eqv_trans(d0, p0, D::Out(s0), b0 + q0, Seq::empty(), D::Out(lrun(s0, b0)), b0.skip(n0) + q0, b0);
        }
    //@ghost before split_to *
        proof {
            match split {
                BufSplit::Eof(x) => {
                    eqv_term(s0, b0, x as int, q0);
                    eqv_trans(d0, p0, D::Out(s0), b0 + q0, Seq::empty(), D::Done, b0.skip(x as int).skip(3) + q0, b0.take(x as int));
                }
                BufSplit::Escape(x) => {
                    eqv_escape(s0, b0, x as int, q0);
                    eqv_trans(d0, p0, D::Out(s0), b0 + q0, Seq::empty(), D::Out(L::Run), b0.skip(x as int).skip(1) + q0, b0.take(x as int));
                }
                BufSplit::Unknown(x) => {
                    eqv_out(s0, b0, x as int, q0);
                    eqv_trans(d0, p0, D::Out(s0), b0 + q0, Seq::empty(), D::Out(L::CrLf), b0.skip(x as int) + q0, b0.take(x as int));
                }
                BufSplit::Nowhere => {}
            }
        }
    //@ghost before poll_next 0
        let ghost st1 = match dst(self.state) { D::Out(s) => s, D::Done => L::Run };
        let ghost h1 = have(*self);
        let ghost b1 = self.buf@;
        let ghost t1 = tr@;
        proof {
            assert(b0.skip(0) =~= b0);
            assert(eqv(d0, p0, D::Out(st1), h1, Seq::empty()));
            assert(b1 + Seq::<u8>::empty() =~= b1);
            if self.source.prepended is None {
                dec_wait(st1, b1);
                poll_facts(d0, h0, t0, t1, D::Out(st1), h1);
            }
        }
    //@end
}

// ---- D01/D02 as one theorem about the extracted code: a client that reads to the end ----------
// The result depends on the bytes received only through their concatenation, so not on packet
// boundaries; pending polls change nothing.
#[verifier::exec_allows_no_decreases_clause]
fn vx_client_read_all<S: Stream<Item = BytesMut>>(source: &mut Prependable<S>, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>)
    -> (r: (Ghost<Seq<u8>>, Result<(), ()>))
    ensures
        // success: the connection delivered a terminated message; its decoding was given out, and the
        // connection goes on with exactly the bytes after the terminator
        r.1 is Ok ==> dec(L::CrLf, pb(*old(source)) + vx_all(old(tr)@, final(tr)@)) == Some((r.0@, pb(*final(source)))),
        // failure: the connection ended and no terminator was received
        r.1 is Err ==> dec(L::CrLf, pb(*old(source)) + vx_all(old(tr)@, final(tr)@)) is None && final(tr)@.len() > 0 && final(tr)@.last() == Ev::End
            && pb(*final(source)) == Seq::<u8>::empty(),
        // the connection was only read while the terminator had not been received
        needed(D::Out(L::CrLf), pb(*old(source)), old(tr)@, final(tr)@),
{
    let ghost mut out = Seq::<u8>::empty();
    let ghost t0 = tr@;
    let ghost h0 = pb(*source);
    let ghost d0 = D::Out(L::CrLf);
    let ghost fs = *final(source);
    let mut ds = DataStream::new(source);
    proof {
        eqv_refl(d0, h0);
        start_facts(d0, h0, t0);
        reveal(newly);
        assert(since(t0, t0) =~= Seq::<Ev>::empty());
        assert(t0.take(t0.len() as int) =~= t0);
        assert(h0 + Seq::<u8>::empty() =~= h0);
    }
    loop
        invariant
            inv(ds), live(ds.state), extends(t0, tr@), needed(d0, h0, t0, tr@),
            eqv(d0, h0 + newly(t0, tr@), dst(ds.state), have(ds), out),
            *final(ds.source) == fs,
    {
        let ghost t1 = tr@;
        let ghost d1 = dst(ds.state);
        let ghost g1 = have(ds);
        let r = ds.poll_next(cx, Tracked(&mut *tr));
        let ghost n = newly(t1, tr@);
        proof {
            vx_trans(t0, t1, tr@);
            needed_trans(d0, h0, t0, t1, d1, g1, out, tr@);
            eqv_more(d0, h0 + newly(t0, t1), d1, g1, out, n);
            assert(h0 + newly(t0, t1) + n =~= h0 + newly(t0, tr@));
            if ds.state == DataStreamState::EarlyFin {
                eqv_none(d0, h0 + newly(t0, tr@), d1, g1 + n, out);
            } else {
                let o = given(r);
                eqv_trans(d0, h0 + newly(t0, tr@), d1, g1 + n, out, dst(ds.state), have(ds), o);
                out = out + o;
            }
        }
        match r {
            Poll::Ready(None) => {
                proof {
                    if ds.state != DataStreamState::EarlyFin { eqv_done(d0, h0 + newly(t0, tr@), have(ds), out); }
                }
                let c = ds.complete();
                return (Ghost(out), c);
            }
            _ => {}
        }
    }
}

// ---- what the session presumes of a handler (`Config::handle_mail`), for every handler ------------
// The session's history has no pending polls.
//@include data_spec.rs
pub open spec fn quiet(t: Seq<Ev>) -> Seq<Ev>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else {
        match t.last() { Ev::Pend => quiet(t.drop_last()), e => quiet(t.drop_last()).push(e) }
    }
}
// the k-th event of the quiet history is an event of the history, with the same before it
pub open spec fn comes_from(n: Seq<Ev>, k: int, i: int) -> bool {
    0 <= i < n.len() && quiet(n).take(k) == quiet(n.take(i)) && n[i] == quiet(n)[k] && !(n[i] is Pend)
}
pub open spec fn sourced(n: Seq<Ev>, k: int) -> bool { exists|i: int| #[trigger] comes_from(n, k, i) }
pub proof fn quiet_facts(n: Seq<Ev>)
    ensures
        pulled(quiet(n)) == pulled(n),
        forall|k: int| 0 <= k < quiet(n).len() ==> #[trigger] sourced(n, k),
    decreases n.len()
{
    if n.len() > 0 {
        let m = n.drop_last();
        let q = quiet(m);
        quiet_facts(m);
        pulled_push(m, n.last());
        pulled_push(q, n.last());
        assert(m.push(n.last()) =~= n);
        assert forall|k: int| 0 <= k < quiet(n).len() implies #[trigger] sourced(n, k) by {
            if k < q.len() {
                assert(sourced(m, k));
                let i = choose|i: int| #[trigger] comes_from(m, k, i);
                assert(n.take(i) =~= m.take(i));
                assert(quiet(n).take(k) =~= q.take(k));
                assert(comes_from(n, k, i));
            } else {
                let i = n.len() - 1;
                assert(n.take(i) =~= m);
                assert(quiet(n).take(k) =~= q);
                assert(comes_from(n, k, i));
            }
        }
    } else {
        assert(quiet(n) == Seq::<Ev>::empty());
        assert(quiet(n).len() == 0);
    }
}
// packets and pending polls, then at most one end
#[verifier::opaque]
pub open spec fn end_last(n: Seq<Ev>) -> bool { forall|i: int| 0 <= i < n.len() - 1 ==> !(#[trigger] n[i] is End) }
#[verifier::opaque]
pub open spec fn no_end(n: Seq<Ev>) -> bool { forall|i: int| 0 <= i < n.len() ==> !(#[trigger] n[i] is End) }
// an end in the quiet history is its last event
proof fn quiet_end(n: Seq<Ev>, k: int)
    requires end_last(n), 0 <= k < quiet(n).len(), quiet(n)[k] is End,
    ensures k + 1 == quiet(n).len(),
{
    reveal(end_last);
    quiet_facts(n);
    let m = quiet(n);
    assert(sourced(n, k));
    let i = choose|i: int| #[trigger] comes_from(n, k, i);
    assert(n[i] is End);
    assert(i == n.len() - 1);
    assert(n.take(i) =~= n.drop_last());
    assert(m == quiet(n.take(i)).push(Ev::End));
    assert(m.take(k).len() == k);
}
// and nothing before an event of it is an end
proof fn quiet_open(n: Seq<Ev>, k: int, j: int)
    requires end_last(n), 0 <= j < k < quiet(n).len(),
    ensures quiet(n)[j] != Ev::End,
{
    if quiet(n)[j] == Ev::End { quiet_end(n, j); }
}
pub proof fn handler_facts(h0: Seq<u8>, g: Seq<Ev>, t: Seq<Ev>)
    requires extends(g, t), needed(D::Out(L::CrLf), h0, g, t), end_last(since(g, t)), !has_end(g),
    ensures data_reads(h0, g, quiet(since(g, t))), pulled(quiet(since(g, t))) == newly(g, t),
{
    let n = since(g, t);
    let m = quiet(n);
    quiet_facts(n);
    assert(pulled(m) == newly(g, t)) by { reveal(newly); }
    assert forall|k: int| 0 <= k < m.len() implies ((#[trigger] m[k]) is Pull || (m[k] is End && k + 1 == m.len()))
        && !has_end(g + m.take(k)) && dec(L::CrLf, h0 + pulled(m.take(k))) is None by
    {
        assert(sourced(n, k));
        let i = choose|i: int| #[trigger] comes_from(n, k, i);
        quiet_facts(n.take(i));
        assert(decd(D::Out(L::CrLf), h0 + pulled(n.take(i))) is None) by { reveal(needed); reveal(newly); }
        if m[k] is End { quiet_end(n, k); }
        if has_end(g + m.take(k)) {
            reveal(has_end);
            let s = g + m.take(k);
            let j = choose|j: int| 0 <= j < s.len() && s[j] == Ev::End;
            if j < g.len() { assert(g[j] == Ev::End); } else { quiet_open(n, k, j - g.len()); }
        }
    }
}
pub proof fn live_step(g: Seq<Ev>, a: Seq<Ev>, b: Seq<Ev>, ended: bool)
    requires
        extends(g, a), extends(a, b), no_end(since(g, a)),
        if ended { pulls_then(a, b, Ev::End) } else { only_pulls(a, b) || pulls_then(a, b, Ev::Pend) },
    ensures extends(g, b), end_last(since(g, b)), !ended ==> no_end(since(g, b)),
{
    reveal(end_last); reveal(no_end); reveal(only_pulls);
    assert(b.take(a.len() as int) == a);
    assert(b.take(g.len() as int) =~= a.take(g.len() as int));
    let (x, y) = (since(g, a), since(g, b));
    assert forall|i: int| 0 <= i < y.len() - 1 implies !(#[trigger] y[i] is End) by {
        let k = i + g.len();
        if k < a.len() { assert(y[i] == b.take(a.len() as int)[k]); assert(y[i] == x[i]); }
        else if only_pulls(a, b) { assert(b[k] is Pull); }
        else { assert(b.drop_last()[k] is Pull); }
    }
    if !ended && y.len() > 0 {
        let i = y.len() - 1;
        let k = i + g.len();
        if k < a.len() { assert(y[i] == b.take(a.len() as int)[k]); assert(y[i] == x[i]); }
        else if only_pulls(a, b) { assert(b[k] is Pull); }
        else { assert(y[i] == b.last()); }
    }
}
// a handler's choices
#[verifier::external_body] fn vx_any() -> (r: bool) { unimplemented!() }
// polls as often as it likes, until the stream has ended; then completes, or not
#[verifier::exec_allows_no_decreases_clause]
fn vx_any_handler<'a, S: Stream<Item = BytesMut>>(ds: &mut DataStream<'a, S>, cx: &mut Context, Tracked(tr): Tracked<&mut Trace>) -> (out: Ghost<Seq<u8>>)
    requires
        old(ds).state == DataStreamState::CrLfPassed, old(ds).buf@.len() == 0, !has_end(old(tr)@),
    ensures
        *final(final(ds).source) == *final(old(ds).source),
        extends(old(tr)@, final(tr)@),
        final(ds).state == DataStreamState::Completed
            ==> data_got(pb(*old(ds).source), old(tr)@, quiet(since(old(tr)@, final(tr)@)), out@, pb(*final(ds).source)),
{
    let ghost mut out = Seq::<u8>::empty();
    let ghost t0 = tr@;
    let ghost h0 = pb(*ds.source);
    let ghost d0 = D::Out(L::CrLf);
    proof {
        assert(have(*ds) =~= h0);
        eqv_refl(d0, h0);
        start_facts(d0, h0, t0);
        reveal(newly); reveal(no_end); reveal(end_last);
        assert(since(t0, t0) =~= Seq::<Ev>::empty());
        assert(t0.take(t0.len() as int) =~= t0);
        assert(h0 + Seq::<u8>::empty() =~= h0);
    }
    loop
        invariant
            inv(*ds), live(ds.state), extends(t0, tr@), needed(d0, h0, t0, tr@), no_end(since(t0, tr@)),
            eqv(d0, h0 + newly(t0, tr@), dst(ds.state), have(*ds), out),
            *final(ds.source) == *final(old(ds).source),
    {
        if !vx_any() { return Ghost(out); }
        let ghost t1 = tr@;
        let ghost d1 = dst(ds.state);
        let ghost g1 = have(*ds);
        let r = ds.poll_next(cx, Tracked(&mut *tr));
        let ghost n = newly(t1, tr@);
        proof {
            vx_trans(t0, t1, tr@);
            needed_trans(d0, h0, t0, t1, d1, g1, out, tr@);
            live_step(t0, t1, tr@, ds.state == DataStreamState::EarlyFin);
            eqv_more(d0, h0 + newly(t0, t1), d1, g1, out, n);
            assert(h0 + newly(t0, t1) + n =~= h0 + newly(t0, tr@));
            if ds.state == DataStreamState::EarlyFin {
                eqv_none(d0, h0 + newly(t0, tr@), d1, g1 + n, out);
            } else {
                let o = given(r);
                eqv_trans(d0, h0 + newly(t0, tr@), d1, g1 + n, out, dst(ds.state), have(*ds), o);
                out = out + o;
            }
            handler_facts(h0, t0, tr@);
        }
        match r {
            Poll::Ready(None) => {
                proof {
                    if ds.state != DataStreamState::EarlyFin { eqv_done(d0, h0 + newly(t0, tr@), have(*ds), out); }
                }
                if vx_any() { let c = ds.complete(); }
                return Ghost(out);
            }
            _ => {}
        }
    }
}
}
fn main() {}
