// a result against a specification that has to use up the whole input
pub open spec fn whole<T, O>(s: Seq<u8>, r: Result<O, ParseError>, p: P<T>, v: spec_fn(O) -> T) -> bool {
    match r {
        Ok(o) => p is Done && p->Done_0 == s.len() && v(o) == p->Done_1,
        Err(_) => !(p is Done && p->Done_0 == s.len()),
    }
}
//@type smtp-message/src/parseresult.rs ParseError
//@fn smtp-message/src/parseresult.rs nom_to_result params=d loops=0
pub fn nom_to_result<'a, T>(d: IResult<ByteSlice<'a>, T, u32>) -> (r: Result<T, ParseError>)
    requires d matches IResult::Done(rem, _) ==> rem.wf(),
    ensures
        match r {
            Ok(v) => d matches IResult::Done(rem, o) && rem.v().len() == 0 && v == o,
            Err(_) => !(d matches IResult::Done(rem, o) && rem.v().len() == 0),
        },
//@end
