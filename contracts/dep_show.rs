// ---- dependency contracts (trusted): Display of addresses, iteration over a HashMap ----------
pub trait VxShow {
    spec fn shown(&self) -> Seq<u8>;
    fn vx_show<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
        requires old(w).err() is None,
        ensures io::wrote(old(w), final(w), r, self.shown());
}
impl VxShow for Ipv4Addr {
    open spec fn shown(&self) -> Seq<u8> { ip4_text(*self) }
    #[verifier::external_body] fn vx_show<W: Write>(&self, w: &mut W) -> (r: io::Result<()>) { unimplemented!() }
}
impl VxShow for Ipv6Addr {
    open spec fn shown(&self) -> Seq<u8> { ip6_text(*self) }
    #[verifier::external_body] fn vx_show<W: Write>(&self, w: &mut W) -> (r: io::Result<()>) { unimplemented!() }
}
impl<'a, A: VxShow> VxShow for &'a A {
    open spec fn shown(&self) -> Seq<u8> { (**self).shown() }
    fn vx_show<W: Write>(&self, w: &mut W) -> (r: io::Result<()>) { (**self).vx_show(w) }
}
// write!(w, "a{}b", v): the texts one after the other
pub fn vx_write_fmt<W: Write, A: VxShow>(w: &mut W, a: &[u8], v: &A, b: &[u8]) -> (r: io::Result<()>)
    requires old(w).err() is None,
    ensures io::wrote(old(w), final(w), r, a@ + v.shown() + b@),
{
    let ghost w0 = w.out();
    match w.write_all(a) {
        Err(e) => Err(e),
        Ok(()) => match v.vx_show(w) {
            Err(e) => Err(e),
            Ok(()) => {
                let r = w.write_all(b);
                proof { assert(w0 + a@ + v.shown() + b@ =~= w0 + (a@ + v.shown() + b@)); }
                r
            }
        }
    }
}
