proof fn digits(c: u16)
    requires c < 1000,
    ensures
        (c % 1000) / 100 == (c as int / 100) % 10, (c % 100) / 10 == (c as int / 10) % 10,
        0 <= (c as int / 100) % 10 < 10, 0 <= (c as int / 10) % 10 < 10, 0 <= c as int % 10 < 10,
{}
impl ReplyLine {
    //@fn smtp-message/src/reply.rs ReplyLine::byte_len params=self loops=0
    pub fn byte_len(&self) -> (r: usize)
        requires self.line@.len() < usize::MAX - 6,
        ensures r == reply_bytes(*self).len(),
    //@end
    //@fn smtp-message/src/reply.rs ReplyLine::send_to params=self,w loops=0
    pub fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None, self.code.code < 1000,
        ensures io::wrote(old(w), final(w), r, reply_bytes(*self)),
    //@ghost start
        let ghost w0 = w.out();
        let ghost wire = reply_bytes(*self);
        proof {
            digits(self.code.code);
            assert(wire.take(0) =~= Seq::<u8>::empty());
            assert(wire.take(wire.len() as int) =~= wire);
        }
    //@ghost after write_all *
        proof {
            if w.err() is None {
                assert(w.out() =~= w0 + wire.take(w.out().len() - w0.len()));
            }
        }
    //@end
}
