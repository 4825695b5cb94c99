// ---- the serialisers: the real functions, under contract -----------------------------------
impl Sendable for SmtpString {
    open spec fn wire(&self) -> Seq<u8> { self@ }
    //@fn smtp-message/src/smtpstring.rs <Sendable for SmtpString>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@end
}
impl Sendable for Domain {
    open spec fn wire(&self) -> Seq<u8> { dom_wire(self.dv()) }
    //@fn smtp-message/src/domain.rs <Sendable for Domain>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after vx_write_fmt *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
