impl Sendable for Option<Email> {
    open spec fn wire(&self) -> Seq<u8> { sender_wire(mv_opt(*self)) }
    //@fn smtp-message/src/email.rs <Sendable for Option<Email>>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@ghost start
        proof { assert(w.out() + Seq::<u8>::empty() =~= w.out()); }
    //@end
}
// the first k parameters are a beginning of them all
pub proof fn kvs_begin(l: Seq<Kv>, k: int)
    requires 0 <= k <= l.len(),
    ensures kvs_wire(l.take(k)).len() <= kvs_wire(l).len(), kvs_wire(l.take(k)) == kvs_wire(l).take(kvs_wire(l.take(k)).len() as int),
        k < l.len() ==> kvs_wire(l.take(k + 1)) == kvs_wire(l.take(k)) + kv_wire(l[k]),
    decreases l.len() - k,
{
    if k < l.len() {
        kvs_begin(l, k + 1);
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        let a = kvs_wire(l.take(k)); let b = kvs_wire(l.take(k + 1)); let w = kvs_wire(l);
        assert(b == a + kv_wire(l[k]));
        assert(b.take(a.len() as int) =~= a);
        assert(w.take(b.len() as int).take(a.len() as int) =~= w.take(a.len() as int));
    } else { assert(l.take(k) =~= l); assert(kvs_wire(l).take(kvs_wire(l).len() as int) =~= kvs_wire(l)); }
}
impl Sendable for Parameters {
    open spec fn wire(&self) -> Seq<u8> { kvs_wire(kvs(self.0.pairs())) }
    //@fn smtp-message/src/parameters.rs <Sendable for Parameters>::send_to params=self,w loops=1
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
        let ghost l = kvs(self.0.pairs());
        proof { assert(l.take(0) =~= Seq::<Kv>::empty()); assert(l.take(l.len() as int) =~= l); }
    //@loop 0
        invariant
            l == kvs(self.0.pairs()), wire == kvs_wire(l), vx_i0 <= l.len(), w.err() is None, w0 == old(w).out(),
            w.out() == w0 + kvs_wire(l.take(vx_i0 as int)), w.limit() == old(w).limit(),
        decreases l.len() - vx_i0,
    //@ghost loopstart 0
        let ghost w1 = w.out(); let ghost a = kvs_wire(l.take(vx_i0 as int)); let ghost kw = kv_wire(l[vx_i0 as int]);
        proof { kvs_begin(l, vx_i0 as int); kvs_begin(l, vx_i0 as int + 1); assert(l[vx_i0 as int] == kv(self.0.pairs()[vx_i0 as int]));
            assert(w1 == w0 + a); assert(a.len() + kw.len() <= wire.len()); assert(kw.take(0) =~= Seq::<u8>::empty()); assert(kw.take(kw.len() as int) =~= kw); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w1 + kw.take(w.out().len() - w1.len())); } }
    //@ghost after send_to *
        proof { if w.err() is None { assert(w.out() =~= w1 + kw.take(w.out().len() - w1.len())); } }
    //@ghost loopend 0
        proof { assert(w.out() =~= w1 + kw); assert(w1 + kw =~= w0 + (a + kw)); }
    //@end
}
// ---- the serialisers of the commands -------------------------------------------------------
impl DataCommand {
    pub open spec fn wire(&self) -> Seq<u8> { W_DATA() + CRLF() }
    //@fn smtp-message/src/data/mod.rs DataCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl QuitCommand {
    pub open spec fn wire(&self) -> Seq<u8> { W_QUIT() + CRLF() }
    //@fn smtp-message/src/quit/mod.rs QuitCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl RsetCommand {
    pub open spec fn wire(&self) -> Seq<u8> { W_RSET() + CRLF() }
    //@fn smtp-message/src/rset/mod.rs RsetCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl EhloCommand {
    pub open spec fn wire(&self) -> Seq<u8> { arg_wire(W_EHLO(), dom_wire(self.domain.dv())) }
    //@fn smtp-message/src/ehlo/mod.rs EhloCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@ghost after send_to *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl HeloCommand {
    pub open spec fn wire(&self) -> Seq<u8> { arg_wire(W_HELO(), dom_wire(self.domain.dv())) }
    //@fn smtp-message/src/helo/mod.rs HeloCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@ghost after send_to *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl ExpnCommand {
    pub open spec fn wire(&self) -> Seq<u8> { arg_wire(W_EXPN(), self.name@) }
    //@fn smtp-message/src/expn/mod.rs ExpnCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl VrfyCommand {
    pub open spec fn wire(&self) -> Seq<u8> { arg_wire(W_VRFY(), self.name@) }
    //@fn smtp-message/src/vrfy/mod.rs VrfyCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl HelpCommand {
    pub open spec fn wire(&self) -> Seq<u8> { arg_wire(W_HELP(), self.subject@) }
    //@fn smtp-message/src/help/mod.rs HelpCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl NoopCommand {
    pub open spec fn wire(&self) -> Seq<u8> { arg_wire(W_NOOP(), self.string@) }
    //@fn smtp-message/src/noop/mod.rs NoopCommand::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire()),
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl Sendable for MailCommand {
    open spec fn wire(&self) -> Seq<u8> { env_wire(W_MAIL(), sender_wire(mv_opt(self.from)), kvs(self.params.0.pairs())) }
    //@fn smtp-message/src/mail/mod.rs <Sendable for MailCommand>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@ghost after send_to *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl Sendable for RcptCommand {
    open spec fn wire(&self) -> Seq<u8> { env_wire(W_RCPT(), mail_wire(self.to.mv()), kvs(self.params.0.pairs())) }
    //@fn smtp-message/src/rcpt/mod.rs <Sendable for RcptCommand>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@ghost after send_to *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
impl Command {
    // the order in which the parameters are visited
    pub open spec fn order(&self) -> Seq<Kv> { match *self { Command::Mail(c) => kvs(c.params.0.pairs()), Command::Rcpt(c) => kvs(c.params.0.pairs()), _ => Seq::empty() } }
    //@fn smtp-message/src/command.rs Command::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, cmd_wire(self.cv(), self.order())),
    //@end
}
pub proof fn C05_order(c: Command)
    ensures cmd_order(c.cv(), c.order()),
{
    match c { Command::Mail(m) => pairs_are_the_map(m.params.0), Command::Rcpt(m) => pairs_are_the_map(m.params.0), _ => {} }
}
