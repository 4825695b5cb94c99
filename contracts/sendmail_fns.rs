impl Sendable for Email {
    open spec fn wire(&self) -> Seq<u8> { mail_wire(self.mv()) }
    //@fn smtp-message/src/email.rs <Sendable for Email>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@ghost start
        let ghost w0 = w.out(); let ghost wire = self.wire();
        proof { assert(wire.take(0) =~= Seq::<u8>::empty()); assert(wire.take(wire.len() as int) =~= wire); }
    //@ghost after write_all *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@ghost after send_to *
        proof { if w.err() is None { assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len())); } }
    //@end
}
