impl Sendable for SmtpString {
    open spec fn wire(&self) -> Seq<u8> { self@ }
    //@fn smtp-message/src/smtpstring.rs <Sendable for SmtpString>::send_to params=self,w loops=0
    fn send_to<W: Write>(&self, w: &mut W) -> (r: io::Result<()>)
    //@end
}
