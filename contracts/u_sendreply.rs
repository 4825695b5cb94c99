#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_write.rs
//@include dep_iter.rs
//@helpers smtp-server/src/sendreply.rs
//@include string_fns.rs
//@include reply_fns.rs
pub struct MailV { _p: u8 }  // what addresses are plays no part here
//@include ev_session.rs
//@include dep_sink.rs
//@include sendreply_fns.rs
//@include chunk_theorems.rs
// ---- theorem: a reply is at least one line; only the final line is marked final; the lines before it
// are full; all carry the code; and their texts join to the reply text
pub open spec fn texts(e: Seq<Ev>) -> Seq<Seq<u8>> { Seq::new(e.len(), |i: int| match e[i] { Ev::Line(_, _, t) => t, _ => Seq::empty() }) }
proof fn vx_reply_shape(code: int, text: Seq<u8>)
    ensures
        reply_evs(code, text).len() >= 1,
        forall|i: int| 0 <= i < reply_evs(code, text).len() ==> (#[trigger] reply_evs(code, text)[i] matches Ev::Line(c, last, t)
            && c == code && last == (i + 1 == reply_evs(code, text).len()) && (!last ==> t.len() == 506)),
        join(texts(reply_evs(code, text))) == text,
{
    let e = reply_evs(code, text);
    vx_chunks_join(text, 506);
    if text.len() == 0 {
        assert(texts(e) =~= seq![text]);
        assert(seq![text].drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(join(Seq::<Seq<u8>>::empty()) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + text =~= text);
    } else {
        assert(texts(e) =~= chunk_seq(text, 506));
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i] matches Ev::Line(c, last, t)
            && c == code && last == (i + 1 == e.len()) && (!last ==> t.len() == 506)) by {
            assert(chunk_seq(text, 506)[i] == chunk(text, 506, i));
        }
    }
}
} // verus!
fn main() {}
