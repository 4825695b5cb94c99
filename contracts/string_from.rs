// `impl From<..> for SmtpString`: conversions hold exactly the bytes given
impl VxFrom<Bytes> for SmtpString {
    open spec fn vx_from_ok(x: Bytes, r: SmtpString) -> bool { r@ == x@ }
    //@fn smtp-message/src/smtpstring.rs <From<Bytes> for SmtpString>::from params=x loops=0
    fn vx_new_from(x: Bytes) -> (r: SmtpString)
    //@end
}
impl VxFrom<Vec<u8>> for SmtpString {
    open spec fn vx_from_ok(x: Vec<u8>, r: SmtpString) -> bool { r@ == x@ }
    //@fn smtp-message/src/smtpstring.rs <From<Vec<u8>> for SmtpString>::from params=x loops=0
    fn vx_new_from(x: Vec<u8>) -> (r: SmtpString)
    //@end
}
impl<'a> VxFrom<&'a [u8]> for SmtpString {
    open spec fn vx_from_ok(x: &'a [u8], r: SmtpString) -> bool { r@ == x@ }
    //@fn smtp-message/src/smtpstring.rs <From<&'a[u8]> for SmtpString>::from params=x loops=0
    fn vx_new_from(x: &'a [u8]) -> (r: SmtpString)
    //@end
}
impl<'a> VxFrom<&'a Str> for SmtpString {
    open spec fn vx_from_ok(x: &'a Str, r: SmtpString) -> bool { r@ == x.utf8() }
    //@fn smtp-message/src/smtpstring.rs <From<&'astr> for SmtpString>::from params=x loops=0
    fn vx_new_from(x: &'a Str) -> (r: SmtpString)
    //@end
}
// core: From<T> for T
impl VxFrom<SmtpString> for SmtpString {
    open spec fn vx_from_ok(x: SmtpString, r: SmtpString) -> bool { r == x }
    fn vx_new_from(x: SmtpString) -> (r: SmtpString) { x }
}
