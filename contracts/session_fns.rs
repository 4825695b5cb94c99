pub open spec fn st<R: Stream<Item = BytesMut>, U>(reader: Prependable<R>, mail_meta: Option<MailMetadata>, conn_meta: ConnectionMetadata<U>) -> St {
    St { env: match mail_meta { Some(m) => Some(env(m)), None => None }, rest: pb(reader), c: tag(conn_meta) }
}
//@fn smtp-server/src/interact.rs handle_line params=reader,writer,line,cfg,conn_meta,mail_meta loops=0 panics=guarded
pub fn handle_line<U, W: Sink<ReplyLine>, R: Stream<Item = BytesMut>, Cfg: Config<U>>(reader: &mut Prependable<R>, writer: &mut W, line: BytesMut, cfg: &mut Cfg, conn_meta: &mut ConnectionMetadata<U>, mail_meta: &mut Option<MailMetadata>, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), W::Error>)
    requires R::fused(), ready(old(reader).stream, old(tr)@),
    ensures
        r is Ok ==> ready(final(reader).stream, final(tr)@)
            && react(cmd_of(line@), st(*old(reader), *old(mail_meta), *old(conn_meta)), st(*final(reader), *final(mail_meta), *final(conn_meta)), old(tr)@, final(tr)@),
        r is Err ==> react_cut(cmd_of(line@), st(*old(reader), *old(mail_meta), *old(conn_meta)), old(tr)@, final(tr)@),
//@ghost start
    hide(is_cmd); hide(cmd_of);
    broadcast use {end_push, end_reply, cut_reply, parsed, mvs_push};
    proof { unparsed(line@); assert(mvs(Seq::empty()) =~= Seq::<MailV>::empty()); }
//@end
// ---- the writer: futures SinkExt::with sends on what the closure makes of each line -------------------
pub trait OutSink: Sized {
    type Error;
    fn with(&mut self) -> (r: With<'_, Self>);
}
#[verifier::external_body] #[verifier::reject_recursive_types(W)]
pub struct With<'a, W: OutSink> { _p: &'a mut W }
impl<'a, W: OutSink> Sink<ReplyLine> for With<'a, W> {
    type Error = W::Error;
    #[verifier::external_body] fn send(&mut self, item: ReplyLine, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), W::Error>) { unimplemented!() }
    #[verifier::external_body] fn send_all(&mut self, items: &mut VxIter<Result<ReplyLine, W::Error>>, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), W::Error>) { unimplemented!() }
}
//@fn smtp-server/src/interact.rs interact params=incoming,outgoing,metadata,cfg loops=1 replace_closure_arg=with
#[verifier::exec_allows_no_decreases_clause]
pub fn interact<Reader: Stream<Item = BytesMut>, Writer: OutSink, UserProvidedMetadata, Cfg: Config<UserProvidedMetadata>>(incoming: Reader, outgoing: &mut Writer, metadata: UserProvidedMetadata, cfg: &mut Cfg, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), Writer::Error>)
    requires old(tr)@ == Seq::<Ev>::empty(),
    ensures
        r is Ok ==> session_over(tag(ConnectionMetadata { user: metadata }), final(tr)@),
        r is Err ==> session_cut(tag(ConnectionMetadata { user: metadata }), final(tr)@),
//@ghost start
    hide(react); hide(react_cut); hide(reached); hide(begun); hide(session_over); hide(session_cut);
    broadcast use {end_push, end_reply, cut_reply, banner_cut};
    let ghost c0 = tag(ConnectionMetadata { user: metadata });
    let ghost mut ts: Seq<Turn> = Seq::empty();
    proof { assert forall|c: int, t: Seq<u8>| legal_reply(c, t) implies reached(c0, Seq::empty(), St { env: None, rest: Seq::empty(), c: c0 }, #[trigger] (tr@.push(Ev::Ask(Q::Banner, c, t)) + reply_evs(c, t))) by { begin(c0, tr@, c, t); } }
    proof { assert(!has_end(tr@)) by { reveal(has_end); } }
//@loop 0
    invariant
        ready(reader.stream, tr@), reached(c0, ts, st(reader, mail_meta, conn_meta), tr@),
    ensures
        session_over(c0, tr@),
//@ghost loopstart 0
    let ghost s0 = st(reader, mail_meta, conn_meta); let ghost a0 = tr@;
    assert(s0.rest == pb(reader));
    proof { assert forall|b: Seq<Ev>, rest: Seq<u8>| #[trigger] ran_out(pb(reader), a0, b, rest) implies session_over(c0, b) by { lines_over(c0, ts, s0, a0, b, rest); } }
//@ghost before handle_line *
    let ghost t = Turn { s0, a0, m: tr@, line: line@, rest: pb(reader) };
    proof {
        turn_begun(c0, ts, t);
        assert(mid(t) == st(reader, mail_meta, conn_meta));
        assert forall|b: Seq<Ev>| #[trigger] react_cut(cmd_of(line@), st(reader, mail_meta, conn_meta), tr@, b) implies session_cut(c0, b) by { turn_cut(c0, ts, t, b); }
    }
//@ghost after handle_line *
    proof {
        // (its result may be looked at later)
        if react(cmd_of(t.line), mid(t), st(reader, mail_meta, conn_meta), t.m, tr@) {
            turn_over(c0, ts, t, st(reader, mail_meta, conn_meta), tr@);
            ts = ts.push(t);
        }
    }
//@end
//@fn smtp-server/src/interact.rs interact params=c loops=0 closure=with
pub fn send_one<Writer: OutSink>(c: ReplyLine) -> (r: Result<Bytes, Writer::Error>)
    requires legal_text(c.line@), reply_ok(c),
    ensures r matches Ok(b) && b@ == reply_bytes(c),
//@end
