// ---- dependency contracts (trusted): std::net addresses ------------------------------------
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv4Addr { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv6Addr { _p: u8 }
#[verifier::external_body] pub struct AddrParseError { _p: u8 }
#[derive(Clone, Copy)]
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IpAddr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &IpAddr) -> bool { *self == *o } }
impl PartialEq for IpAddr { #[verifier::external_body] fn eq(&self, o: &IpAddr) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ipv4Addr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Ipv4Addr) -> bool { *self == *o } }
impl PartialEq for Ipv4Addr { #[verifier::external_body] fn eq(&self, o: &Ipv4Addr) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ipv6Addr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Ipv6Addr) -> bool { *self == *o } }
impl PartialEq for Ipv6Addr { #[verifier::external_body] fn eq(&self, o: &Ipv6Addr) -> (r: bool) { unimplemented!() } }
// the address a text denotes, and the text an address is shown as
pub uninterp spec fn ip4(s: Seq<u8>) -> Option<Ipv4Addr>;
pub uninterp spec fn ip6(s: Seq<u8>) -> Option<Ipv6Addr>;
pub uninterp spec fn ip4_text(a: Ipv4Addr) -> Seq<u8>;
pub uninterp spec fn ip6_text(a: Ipv6Addr) -> Seq<u8>;
impl Ipv4Addr {
    #[verifier::external_body] pub fn from_str(s: &Str) -> (r: Result<Ipv4Addr, AddrParseError>)
        ensures match r { Ok(a) => ip4(s.utf8()) == Some(a), Err(_) => ip4(s.utf8()) is None } { unimplemented!() }
}
impl Ipv6Addr {
    #[verifier::external_body] pub fn from_str(s: &Str) -> (r: Result<Ipv6Addr, AddrParseError>)
        ensures match r { Ok(a) => ip6(s.utf8()) == Some(a), Err(_) => ip6(s.utf8()) is None } { unimplemented!() }
}
impl VxFrom<Ipv4Addr> for IpAddr {
    open spec fn vx_from_ok(x: Ipv4Addr, r: IpAddr) -> bool { r == IpAddr::V4(x) }
    #[verifier::external_body] fn vx_new_from(x: Ipv4Addr) -> (r: IpAddr) { unimplemented!() }
}
impl VxFrom<Ipv6Addr> for IpAddr {
    open spec fn vx_from_ok(x: Ipv6Addr, r: IpAddr) -> bool { r == IpAddr::V6(x) }
    #[verifier::external_body] fn vx_new_from(x: Ipv6Addr) -> (r: IpAddr) { unimplemented!() }
}
// what the standard library tells about an address (nothing is assumed of the answers, except that
// an address always gets the same ones)
pub uninterp spec fn ip4_octets(a: Ipv4Addr) -> [u8; 4];
pub uninterp spec fn ip6_octets(a: Ipv6Addr) -> [u8; 16];
pub uninterp spec fn ip6_segments(a: Ipv6Addr) -> [u16; 8];
pub uninterp spec fn ip6_mapped(a: Ipv6Addr) -> Option<Ipv4Addr>;
pub uninterp spec fn ip6_as_ip4(a: Ipv6Addr) -> Option<Ipv4Addr>;
pub uninterp spec fn ip4_is(a: Ipv4Addr, k: int) -> bool;
pub uninterp spec fn ip6_is(a: Ipv6Addr, k: int) -> bool;
impl Ipv4Addr {
    #[verifier::external_body] pub fn octets(&self) -> (r: [u8; 4]) ensures r == ip4_octets(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_unspecified(&self) -> (r: bool) ensures r == ip4_is(*self, 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_loopback(&self) -> (r: bool) ensures r == ip4_is(*self, 1) { unimplemented!() }
    #[verifier::external_body] pub fn is_multicast(&self) -> (r: bool) ensures r == ip4_is(*self, 2) { unimplemented!() }
    #[verifier::external_body] pub fn is_private(&self) -> (r: bool) ensures r == ip4_is(*self, 3) { unimplemented!() }
    #[verifier::external_body] pub fn is_broadcast(&self) -> (r: bool) ensures r == ip4_is(*self, 4) { unimplemented!() }
    #[verifier::external_body] pub fn is_link_local(&self) -> (r: bool) ensures r == ip4_is(*self, 5) { unimplemented!() }
}
impl Ipv6Addr {
    #[verifier::external_body] pub fn octets(&self) -> (r: [u8; 16]) ensures r == ip6_octets(*self) { unimplemented!() }
    #[verifier::external_body] pub fn segments(&self) -> (r: [u16; 8]) ensures r == ip6_segments(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_ipv4_mapped(&self) -> (r: Option<Ipv4Addr>) ensures r == ip6_mapped(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_ipv4(&self) -> (r: Option<Ipv4Addr>) ensures r == ip6_as_ip4(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_unspecified(&self) -> (r: bool) ensures r == ip6_is(*self, 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_loopback(&self) -> (r: bool) ensures r == ip6_is(*self, 1) { unimplemented!() }
    #[verifier::external_body] pub fn is_multicast(&self) -> (r: bool) ensures r == ip6_is(*self, 2) { unimplemented!() }
}
