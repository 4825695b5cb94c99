// bytes delivered by a piece of history
pub open spec fn pulled(t: Seq<Ev>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else {
        match t.last() { Ev::Pull(b) => pulled(t.drop_last()) + b, _ => pulled(t.drop_last()) }
    }
}
pub proof fn pulled_push(t: Seq<Ev>, e: Ev)
    ensures pulled(t.push(e)) == (match e { Ev::Pull(b) => pulled(t) + b, _ => pulled(t) })
{ assert(t.push(e).drop_last() =~= t); }
#[verifier::opaque]
pub open spec fn has_end(t: Seq<Ev>) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == Ev::End }
pub proof fn has_end_push(t: Seq<Ev>, e: Ev)
    ensures has_end(t.push(e)) == (has_end(t) || e == Ev::End)
{
    reveal(has_end);
    let u = t.push(e);
    assert(u[t.len() as int] == e);
    if has_end(t) { let i = choose|i: int| 0 <= i < t.len() && t[i] == Ev::End; assert(u[i] == Ev::End); }
}
