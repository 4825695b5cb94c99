//@type smtp-message/src/domain.rs Domain derived=Clone,PartialEq
impl Domain {
    pub open spec fn dv(&self) -> DomV {
        match self { Domain::Host(s) => DomV::Host(s@), Domain::Addr(IpAddr::V4(a)) => DomV::V4(*a), Domain::Addr(IpAddr::V6(a)) => DomV::V6(*a) }
    }
}
impl Clone for Domain {
    // derived
    fn clone(&self) -> (r: Domain) ensures r.dv() == self.dv() { match self { Domain::Host(s) => Domain::Host(s.clone()), Domain::Addr(a) => Domain::Addr(*a) } }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Domain { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Domain) -> bool { self.dv() == o.dv() } }
impl PartialEq for Domain {
    // derived
    fn eq(&self, o: &Domain) -> (r: bool) { match (self, o) { (Domain::Host(a), Domain::Host(b)) => *a == *b, (Domain::Addr(a), Domain::Addr(b)) => *a == *b, _ => false } }
}
// core: From<T> for T
impl VxFrom<Domain> for Domain {
    open spec fn vx_from_ok(x: Domain, r: Domain) -> bool { r == x }
    fn vx_new_from(x: Domain) -> (r: Domain) { x }
}
//@fn @msg hostname params=i loops=1
pub fn hostname<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Domain, u32>)
    requires i.wf(),
    ensures gave(i, r, p_host(i.v()), |o: Domain| o.dv()),
//@ghost start
    proof { rests(i); }
//@loop 0
        invariant
            $input.wf(), $input.buf == vx_in.buf, $input.end == vx_in.end, vx_in.start < $input.start,
            label(s) > 0, label(s) + labels(s.skip(label(s))) == $input.start - vx_in.start + labels(s.skip($input.start - vx_in.start)),
        decreases $input.end - $input.start,
//@outline 5 9
fn hostname_ldh_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Option<ByteSlice<'a>>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, P::Done(ldhs(vx_in.v()), ()), |o: Option<ByteSlice<'a>>| ()),
//@ghost start
    proof { rests(vx_in); ldhs_is(vx_in.v()); }
//@outline 3 7
fn hostname_label_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Option<ByteSlice<'a>>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_label(vx_in.v()), |o: Option<ByteSlice<'a>>| ()),
//@ghost start
    proof { rests(vx_in); if vx_in.v().len() > 0 { ldhs_are(vx_in.v().skip(1)); } }
//@outline 1
fn hostname_labels_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures took(vx_in, r, p_labels(vx_in.v())),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); label_fits(s); labels_fit(s.skip(label(s))); skips(); }
//@outline 12
fn hostname_text_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, &'a Str, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_text(p_between(vx_in.v(), T_IP6())), |o: &'a Str| o.utf8()),
//@ghost start
    proof { rests(vx_in); close_facts(); }
//@outline 16
fn hostname_text_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, &'a Str, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_text(p_between(vx_in.v(), T_IP4())), |o: &'a Str| o.utf8()),
//@ghost start
    proof { rests(vx_in); close_facts(); }
//@outline 10
fn hostname_literal_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Domain, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_lit(vx_in.v()), |o: Domain| o.dv()),
//@ghost start
    proof { rests(vx_in); }
//@outline 14
fn hostname_literal_$<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Domain, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_lit4(vx_in.v()), |o: Domain| o.dv()),
//@ghost start
    proof { rests(vx_in); }
//@end
