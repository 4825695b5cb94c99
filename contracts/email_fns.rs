//@type smtp-message/src/email.rs Email derived=PartialEq
pub open spec fn hv(h: Option<Domain>) -> Option<DomV> { match h { Some(d) => Some(d.dv()), None => None } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Email { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Email) -> bool { self.mv() == o.mv() } }
impl PartialEq for Email {
    // derived
    fn eq(&self, o: &Email) -> (r: bool) { self.localpart == o.localpart && self.hostname == o.hostname }
}
impl Email {
    pub open spec fn mv(&self) -> MailV { MailV { local: self.localpart@, host: hv(self.hostname) } }
    //@fn smtp-message/src/email.rs Email::new params=localpart,hostname loops=0
    pub fn new(localpart: SmtpString, hostname: Option<Domain>) -> (r: Email)
        ensures r.localpart == localpart, r.hostname == hostname,
    //@end
}
//@fn @msg dot_string params=i loops=1
pub fn dot_string<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires i.wf(),
    ensures took(i, r, p_dot(i.v())),
//@ghost start
    proof { rests(i); skips(); let s = i.v(); atom_are(s); atoms_fit(s.skip(atom(s))); }
//@loop 0
        invariant
            $input.wf(), $input.buf == i.buf, $input.end == i.end, i.start < $input.start,
            atom(i.v()) > 0, atom(i.v()) + atoms(i.v().skip(atom(i.v()))) == $input.start - i.start + atoms(i.v().skip($input.start - i.start)),
        decreases $input.end - $input.start,
//@outline 2 4
fn dot_string_atom_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures took(vx_in, r, if vx_in.v().len() > 0 && atom(vx_in.v()) == 0 { P::Err } else { P::Done(atom(vx_in.v()), ()) }),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); atom_is(vx_in.v()); }
//@end
//@fn @msg quoted_string params=i loops=1
pub fn quoted_string<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires i.wf(),
    ensures took(i, r, p_quoted(i.v())),
//@ghost start
    proof { rests(i); skips(); local_fits(i.v()); }
//@loop 0
        invariant
            $input.wf(), $input.buf == vx_in.buf, $input.end == vx_in.end, vx_in.start <= $input.start,
            p_qtext(s) == (match p_qtext(s.skip($input.start - vx_in.start)) { P::Done(k, _) => P::Done($input.start - vx_in.start + k, ()), x => x }),
        decreases $input.end - $input.start,
//@outline 4
fn quoted_char<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_qchar(vx_in.v()), |o: ByteSlice<'a>| ()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips();  }
//@outline 3
fn quoted_text<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Vec<ByteSlice<'a>>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_qtext(vx_in.v()), |o: Vec<ByteSlice<'a>>| ()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); qtext_fits(s); assert(s.skip(0) =~= s); }
//@outline 1
fn quoted_all<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, (), u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_quoted(vx_in.v()), |o: ()| ()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); if s.len() > 0 { qtext_fits(s.skip(1)); } }
//@end
//@fn @msg localpart params=i
pub fn localpart<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires i.wf(),
    ensures took(i, r, p_local(i.v())),
//@ghost start
    proof { rests(i); skips();  }
//@end
//@fn @msg email params=i
pub fn email<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Email, u32>)
    requires i.wf(),
    ensures gave(i, r, p_email(i.v()), |o: Email| o.mv()),
//@ghost start
    proof { rests(i); skips(); local_fits(i.v()); if let P::Done(n, _) = p_local(i.v()) { hop_fits(i.v().skip(n)); } }
//@outline 3
fn email_host<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Domain, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, (match p_hop(vx_in.v()) { P::Done(n, d) => P::Done(n, d), _ => P::Err }), |o: Domain| o.dv()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); hop_fits(s); }
//@outline 2
fn email_at<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Option<Domain>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, P::Done(at_host(vx_in.v()).0, at_host(vx_in.v()).1), |o: Option<Domain>| hv(o)),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); hop_fits(s); }
//@end
//@fn @msg address_in_path params=i loops=1
pub fn address_in_path<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Email, u32>)
    requires i.wf(),
    ensures gave(i, r, p_path(i.v()), |o: Email| o.mv()),
//@ghost start
    proof { rests(i); skips(); let s = i.v(); route_fits(s); if let P::Done(n, _) = p_route(s) { email_fits(s.skip(n)); } assert(s.skip(0) =~= s); }
//@loop 0
        invariant
            $input.wf(), $input.buf == vx_in.buf, $input.end == vx_in.end, vx_in.start < $input.start,
            p_hoplist(s) == (match p_hops(s.skip($input.start - vx_in.start)) { P::Done(k, _) => P::Done($input.start - vx_in.start + k, ()), x => x }),
        decreases $input.end - $input.start,
//@ghost loopstart 0
        proof { let t = s.skip($input.start - vx_in.start); if t.len() > 0 { hop_fits(t.skip(1)); if let P::Done(k, _) = p_hop(t.skip(1)) { hops_fit(t.skip(1 + k)); } } }
//@outline 4 6
fn path_hop_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, (), u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, (match p_hop(vx_in.v()) { P::Done(n, _) => P::Done(n, ()), P::More => P::More, P::Err => P::Err }), |o: ()| ()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); hop_fits(s); }
//@outline 3
fn path_hops<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Vec<()>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_hoplist(vx_in.v()), |o: Vec<()>| ()),
//@ghost start
    hide(p_hop);
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); hop_fits(s); }
//@outline 2
fn path_route<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, (), u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_route(vx_in.v()), |o: ()| ()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); route_fits(s); }
//@outline 1
fn path_maybe_route<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Option<()>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, (match p_route(vx_in.v()) { P::Done(n, _) => P::Done(n, ()), P::More => P::More, P::Err => P::Done(0, ()) }), |o: Option<()>| ()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); route_fits(s); }
//@end
//@fn @msg address_in_maybe_bracketed_path params=i
pub fn address_in_maybe_bracketed_path<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Email, u32>)
    requires i.wf(),
    ensures gave(i, r, p_maybe(i.v()), |o: Email| o.mv()),
//@ghost start
    proof { rests(i); skips(); maybe_fits(i.v()); }
//@outline 1
fn maybe_angle<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Email, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_angle(vx_in.v()), |o: Email| o.mv()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); if s.len() > 0 { path_fits(s.skip(1)); } }
//@end
