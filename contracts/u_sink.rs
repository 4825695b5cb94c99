#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@proved line_spec.rs in stream
//@proved dec_spec.rs in stream
//@proved dec_theorems.rs in stream
//@helpers smtp-message/src/data/sink.rs

// ---- dependency contract (trusted): futures Sink, SinkExt::send awaited ----
pub trait Sink<T: View<V = Seq<u8>>> {
    type Error;
    // all bytes accepted so far
    spec fn sent(&self) -> Seq<u8>;
    fn send(&mut self, t: T) -> (r: Result<(), Self::Error>)
        ensures r is Ok ==> final(self).sent() == old(self).sent() + t@;
}

//@type smtp-message/src/data/sink.rs DataSinkState derive=Copy,Clone,PartialEq,Eq,Structural
//@type smtp-message/src/data/sink.rs DataSink
pub open spec fn ls(s: DataSinkState) -> L {
    match s {
        DataSinkState::Running => L::Run,
        DataSinkState::CrPassed => L::Cr,
        DataSinkState::CrLfPassed => L::CrLf,
    }
}
// outcome of scanning a whole piece: no line starts with a dot, or the first that does is at p
pub open spec fn scanned(b: Option<usize>, st: L, s: Seq<u8>, now: L) -> bool {
    match b {
        None => now == lrun(st, s.take(s.len() as int)) && clean(st, s.take(s.len() as int)),
        Some(p) => p < s.len() && clean(st, s.take(p as int)) && lrun(st, s.take(p as int)) == L::CrLf
            && s[p as int] == 46 && now == L::Run,
    }
}
// what is left to send after the stuffing dot went out: the dot itself, no longer at a line start
pub proof fn split_enc(st: L, s: Seq<u8>, p: int)
    requires 0 <= p < s.len(), clean(st, s.take(p)), lrun(st, s.take(p)) == L::CrLf, s[p] == 46,
    ensures
        enc(st, s) == s.take(p + 1) + enc(L::Run, s.skip(p)),
        lrun(st, s) == lrun(L::Run, s.skip(p)),
{
    let a = s.take(p); let b = s.skip(p);
    assert(a + b =~= s);
    enc_cat(st, a, b); lrun_cat(st, a, b);
    clean_enc(st, a);
    let d = seq![46u8]; let c = s.skip(p + 1);
    assert(d + c =~= b);
    enc_cat(L::CrLf, d, c); enc_cat(L::Run, d, c);
    lrun_cat(L::CrLf, d, c); lrun_cat(L::Run, d, c);
    enc_one(L::CrLf, 46u8); enc_one(L::Run, 46u8);
    assert(s.take(p + 1) =~= a + d);
    assert(enc(st, s) =~= s.take(p + 1) + enc(L::Run, s.skip(p)));
}

impl<S: Sink<Bytes>> DataSink<S> {
    //@fn smtp-message/src/data/sink.rs DataSink::new params=sink loops=0
    pub fn new(sink: S) -> (r: DataSink<S>)
        ensures r.sink == sink, ls(r.state) == L::CrLf,
    //@end
    //@fn smtp-message/src/data/sink.rs DataSink::send params=self,item loops=2
    pub fn send(&mut self, item: Bytes) -> (r: Result<(), S::Error>)
        ensures
            r is Ok ==> final(self).sink.sent() == old(self).sink.sent() + enc(ls(old(self).state), item@),
            r is Ok ==> ls(final(self).state) == lrun(ls(old(self).state), item@),
    //@ghost start
        let ghost item0 = item@;
        let ghost goal = self.sink.sent() + enc(ls(self.state), item@);
        let ghost goal_st = lrun(ls(self.state), item@);
    //@loop 0
        invariant
            self.sink.sent() + enc(ls(self.state), item@) == goal,
            lrun(ls(self.state), item@) == goal_st,
            goal == old(self).sink.sent() + enc(ls(old(self).state), item0),
            goal_st == lrun(ls(old(self).state), item0),
        decreases item@.len(), (if self.state == DataSinkState::CrLfPassed { 1int } else { 0 })
    //@ghost loopstart 0
        let ghost st1 = ls(self.state);
        let ghost wire1 = self.sink.sent();
        let ghost it1 = item@;
        proof { clean_empty(st1, item@.take(0)); }
    //@loop 1
        invariant_except_break
            breakat == None::<usize>,
            ls(self.state) == lrun(st1, item@.take(vx_i1 as int)),
            clean(st1, item@.take(vx_i1 as int)),
        invariant
            vx_i1 <= item@.len(),
            item@ == it1,
            self.sink.sent() == wire1,
        ensures
            item@ == it1,
            self.sink.sent() == wire1,
            scanned(breakat, st1, it1, ls(self.state)),
        decreases item@.len() - vx_i1
    //@ghost loopstart 1
        proof {
            clean_step(st1, item@, vx_i1 as int);
        }
    //@ghost before send *
        proof {
            match breakat {
                None => { assert(it1.take(it1.len() as int) =~= it1); clean_enc(st1, it1); }
                Some(p) => { split_enc(st1, it1, p as int); }
            }
        }
    //@end
    //@fn smtp-message/src/data/sink.rs DataSink::end params=self loops=0
    pub fn end(self) -> (r: Result<S, S::Error>)
        ensures r matches Ok(s) ==> s.sent() == self.sink.sent()
            + (if ls(self.state) == L::CrLf { seq![46u8, 13u8, 10u8] } else { seq![13u8, 10u8, 46u8, 13u8, 10u8] }),
    //@end
}

// ---- D03 as one theorem about the extracted code: a client that sends a message in pieces -------
pub open spec fn cat(v: Seq<Bytes>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last()@ } }
fn vx_client_send_all<S: Sink<Bytes>>(sink: S, pieces: Vec<Bytes>) -> (r: Result<S, S::Error>)
    ensures r matches Ok(s) ==> s.sent() == sink.sent() + (enc(L::CrLf, cat(pieces@)) + term(cat(pieces@))),
{
    let ghost base = sink.sent();
    let mut d = DataSink::new(sink);
    let mut k: usize = 0;
    let n = pieces.len();
    proof { assert(base + Seq::<u8>::empty() =~= base); }
    while k < n
        invariant
            k <= n, n == pieces@.len(),
            d.sink.sent() == base + enc(L::CrLf, cat(pieces@.take(k as int))),
            ls(d.state) == lrun(L::CrLf, cat(pieces@.take(k as int))),
            dec(L::CrLf, enc(L::CrLf, cat(pieces@.take(k as int)))) is None,
        decreases n - k
    {
        let ghost m = cat(pieces@.take(k as int));
        let p = pieces[k].clone();
        proof {
            assert(pieces@.take(k + 1).drop_last() =~= pieces@.take(k as int));
            enc_cat(L::CrLf, m, p@); lrun_cat(L::CrLf, m, p@);
            no_early_terminator(L::CrLf, m + p@);
            assert((base + enc(L::CrLf, m)) + enc(lrun(L::CrLf, m), p@) =~= base + (enc(L::CrLf, m) + enc(lrun(L::CrLf, m), p@)));
        }
        d.send(p)?;
        k = k + 1;
    }
    proof {
        let m = cat(pieces@);
        assert(pieces@.take(n as int) =~= pieces@);
        assert(m.take(m.len() as int) =~= m);
        lrun_is_line_start(m, m.len() as int);
        assert((base + enc(L::CrLf, m)) + term(m) =~= base + (enc(L::CrLf, m) + term(m)));
    }
    d.end()
}
}
fn main() {}
