impl Domain {
    //@fn smtp-message/src/domain.rs Domain::parse params=domain loops=0
    pub fn parse<'a>(domain: ByteSlice<'a>) -> (r: Result<Domain, ParseError>)
        requires domain.wf(),
        ensures whole(domain.v(), r, p_host(domain.v()), |o: Domain| o.dv()),
    //@end
    //@fn smtp-message/src/domain.rs Domain::parse_slice params=b loops=0
    pub fn parse_slice(b: &[u8]) -> (r: Result<Domain, ParseError>)
        ensures whole(b@, r, p_host(b@), |o: Domain| o.dv()),
    //@end
}
impl Email {
    //@fn smtp-message/src/email.rs Email::parse params=b loops=0
    pub fn parse<'a>(b: ByteSlice<'a>) -> (r: Result<Email, ParseError>)
        requires b.wf(),
        ensures whole(b.v(), r, p_email(b.v()), |o: Email| o.mv()),
    //@end
    //@fn smtp-message/src/email.rs Email::parse_slice params=b loops=0
    pub fn parse_slice(b: &[u8]) -> (r: Result<Email, ParseError>)
        ensures whole(b@, r, p_email(b@), |o: Email| o.mv()),
    //@end
    //@fn smtp-message/src/email.rs Email::raw_localpart params=self loops=0
    pub fn raw_localpart(&self) -> (r: &SmtpString)
        ensures r@ == self.mv().local,
    //@end
    //@fn smtp-message/src/email.rs Email::hostname params=self loops=0
    pub fn hostname(&self) -> (r: &Option<Domain>)
        ensures hv(*r) == self.mv().host,
    //@end
}
