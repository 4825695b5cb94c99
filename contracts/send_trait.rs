pub trait Sendable {
    spec fn wire(&self) -> Seq<u8>;
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.wire());
}
