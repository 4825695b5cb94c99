//@type smtp-message/src/parameters.rs Parameters
pub open spec fn ov(o: Option<SmtpString>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn kv(x: (SmtpString, Option<SmtpString>)) -> Kv { (x.0@, ov(x.1)) }
pub open spec fn kvs(l: Seq<(SmtpString, Option<SmtpString>)>) -> Seq<Kv> { Seq::new(l.len(), |i: int| kv(l[i])) }
impl HashMap<SmtpString, Option<SmtpString>> {
    pub uninterp spec fn map(&self) -> Map<Seq<u8>, Option<Seq<u8>>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<u8>, Option<Seq<u8>>>::empty() { unimplemented!() }
}
impl Parameters {
    pub open spec fn pv(&self) -> Map<Seq<u8>, Option<Seq<u8>>> { self.0.map() }
    //@fn smtp-message/src/parameters.rs Parameters::none params= loops=0
    pub fn none() -> (r: Parameters)
        ensures r.pv() == Map::<Seq<u8>, Option<Seq<u8>>>::empty(),
    //@end
}
impl VxCollect<HashMap<SmtpString, Option<SmtpString>>> for Vec<(SmtpString, Option<SmtpString>)> {
    open spec fn collected(self, r: HashMap<SmtpString, Option<SmtpString>>) -> bool { r.map() == params_map(kvs(self@)) }
    #[verifier::external_body] fn vx_collect(self) -> (r: HashMap<SmtpString, Option<SmtpString>>) { unimplemented!() }
}
//@fn @msg parse_parameters params=i loops=1
pub fn parse_parameters<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Parameters, u32>)
    requires i.wf(),
    ensures gave(i, r, p_parmap(i.v()), |o: Parameters| o.pv()),
//@ghost start
    proof { rests(i); skips(); params_fit(i.v()); }
//@loop 0
        invariant
            $input.wf(), $input.buf == vx_in.buf, $input.end == vx_in.end, vx_in.start <= $input.start,
            p_params(s) == (match p_params(s.skip($input.start - vx_in.start)) { P::Done(k, l) => P::Done($input.start - vx_in.start + k, kvs($res@) + l), P::More => P::More, P::Err => P::Err }),
        decreases $input.end - $input.start,
//@ghost loopstart 0
        let ghost res0 = $res@; let ghost t0 = s.skip($input.start - vx_in.start);
        proof {
            if t0.len() > 0 { if let P::Done(k, x) = p_param(t0) { if let P::Done(_, l) = p_params(t0.skip(k)) { assert(kvs(res0) + (seq![x] + l) =~= kvs(res0).push(x) + l); } } }
            assert(kvs(res0) + Seq::<Kv>::empty() =~= kvs(res0));
 let t = s.skip($input.start - vx_in.start); param_fits(t); if let P::Done(k, _) = p_param(t) { params_fit(t.skip(k)); } }
//@ghost loopend 0
        proof {
            let pos0 = s.len() - t0.len();
            let pos1 = $input.start - vx_in.start;
            assert($res@ =~= res0.push($res@.last()));
            assert(kvs($res@) =~= kvs(res0).push(kv($res@.last())));
            assert(p_param(t0) == P::Done(pos1 - pos0, kv($res@.last())));
            assert(t0.skip(pos1 - pos0) =~= s.skip(pos1));
            assert(p_params(t0) == (match p_params(s.skip(pos1)) { P::Done(k, l) => P::Done(pos1 - pos0 + k, seq![kv($res@.last())] + l), P::More => P::More, P::Err => P::Err }));
            if let P::Done(k, l) = p_params(s.skip(pos1)) {
                assert(kvs(res0) + (seq![kv($res@.last())] + l) =~= kvs($res@) + l);
                assert(p_params(s) == P::Done(pos0 + (pos1 - pos0 + k), kvs(res0) + (seq![kv($res@.last())] + l)));
                assert(p_params(s) == P::Done(pos1 + k, kvs($res@) + l));
            }
            if p_params(s.skip(pos1)) is More { assert(p_params(s) is More); assert(p_params(s) == p_params(s.skip(pos1))); }
            assert(!(p_params(s.skip(pos1)) is Err));
            assert($input.start - vx_in.start == pos1);
            let q = p_params(s.skip(pos1));
            assert(p_params(s) == (match q { P::Done(k, l) => P::Done(pos1 + k, kvs($res@) + l), x => x }));
        }
//@outline 11
fn param_value<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, (if value(vx_in.v()).1 is Some { P::Done(value(vx_in.v()).0, value(vx_in.v()).1->Some_0) } else { P::Err }), |o: ByteSlice<'a>| o.v()),
        r matches IResult::Done(_, o) ==> o.wf(),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); if s.len() > 0 { graphs_is(s.skip(1)); } }
//@outline 10
fn param_opt_value<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Option<ByteSlice<'a>>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, P::Done(value(vx_in.v()).0, value(vx_in.v()).1), |o: Option<ByteSlice<'a>>| vo(o)),
        r matches IResult::Done(_, o) ==> (o matches Some(x) ==> x.wf()),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); value_fits(s); }
//@outline 6
fn param_key<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_key(vx_in.v()), |o: ByteSlice<'a>| o.v()),
        r matches IResult::Done(_, o) ==> o.wf(),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); key_fits(s); if s.len() > 0 { ldhs_is(s.skip(1)); } }
//@outline 2
fn param<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, (SmtpString, Option<SmtpString>), u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_param(vx_in.v()), |o: (SmtpString, Option<SmtpString>)| kv(o)),
//@ghost start
    hide(p_key); hide(value); hide(blanks);
    let ghost s = vx_in.v();
    proof {
        rests(vx_in); skips();
        if s.len() > 0 {
            blanks_are(s.skip(1));
            let b = 1 + blanks(s.skip(1));
            key_fits(s.skip(b));
            if let P::Done(k, _) = p_key(s.skip(b)) { value_fits(s.skip(b + k)); }
        }
    }
//@outline 1
fn param_list<'a>(vx_in: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Vec<(SmtpString, Option<SmtpString>)>, u32>)
    requires vx_in.wf(),
    ensures gave(vx_in, r, p_params(vx_in.v()), |o: Vec<(SmtpString, Option<SmtpString>)>| kvs(o@)),
//@ghost start
    let ghost s = vx_in.v();
    proof { rests(vx_in); skips(); params_fit(s); assert(s.skip(0) =~= s); let e = Seq::<(SmtpString, Option<SmtpString>)>::empty(); if let P::Done(_, l) = p_params(s) { assert(kvs(e) + l =~= l); } }
//@end
pub open spec fn vo<'a>(o: Option<ByteSlice<'a>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v.v()), None => None } }
