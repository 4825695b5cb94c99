//@thread send send_all : Tracked(&mut *tr)
pub proof fn reply_legal(text: Seq<u8>, i: int)
    requires legal_reply(0, text), 0 <= i < chunks(text.len() as int, 506),
    ensures legal_text(chunk(text, 506, i)),
{ chunk_at(text.len() as int, 506, i); }
//@fn smtp-server/src/sendreply.rs send_reply params=writer,reply loops=1 out0=Result<ReplyLine,W::Error>
pub fn send_reply<W: Sink<ReplyLine>>(writer: &mut W, reply: (ReplyCode, SmtpString), Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), W::Error>)
    requires legal_reply(reply.0.code as int, reply.1@),
    ensures replied(old(tr)@, final(tr)@, reply_evs(reply.0.code as int, reply.1@), r),
//@ghost start
    let ghost t0 = reply.1@; let ghost c0 = reply.0.code as int; let ghost n0 = chunks(t0.len() as int, 506);
    assert forall|v: Seq<Result<ReplyLine, W::Error>>|
        v.len() == reply_evs(c0, t0).len() && (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> line_ev(v[i]->Ok_0) == reply_evs(c0, t0)[i])
        implies #[trigger] sent_all(v) == reply_evs(c0, t0) by { assert(sent_all(v) =~= reply_evs(c0, t0)); }
//@loop 0
    invariant
        t0 == text@, t0.len() > 0, c0 == code.code, legal_reply(c0, t0), n0 == chunks(t0.len() as int, 506),
        views(vx_src0@) =~= chunk_seq(t0, 506), vx_src0@.len() == n0, vx_i0 <= n0, vx_out0@.len() == vx_i0,
        forall|i: int| #![trigger vx_out0@[i]] 0 <= i < vx_i0 ==> vx_out0@[i] is Ok && line_ev(vx_out0@[i]->Ok_0) == reply_evs(c0, t0)[i],
    decreases vx_src0@.len() - vx_i0,
//@ghost loopstart 0
    proof {
        reply_legal(t0, vx_i0 as int);
        assert(vx_src0@[vx_i0 as int]@ == views(vx_src0@)[vx_i0 as int]);
    }
//@end
