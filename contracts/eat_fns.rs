//@fn @msg eat_spaces params=i loops=0
pub fn eat_spaces<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ByteSlice<'a>, u32>)
    requires i.wf(),
    ensures took(i, r, P::Done(blanks(i.v()), ())),
//@ghost start
    proof {
        blanks_are(i.v());
        assert forall|k: int| 0 <= k <= i.v().len() && (forall|j: int| 0 <= j < k ==> blank(#[trigger] i.v()[j])) && (k < i.v().len() ==> !blank(#[trigger] i.v()[k]))
            implies blanks(i.v()) == k by { blanks_unique(i.v(), k); }
    }
//@end
