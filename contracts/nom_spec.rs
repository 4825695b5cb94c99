// ---- what nom's comparisons and searches of byte slices mean ----
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum CompareResult { Ok, Incomplete, Error }
// first position where the needle occurs; a needle longer than the text is outside the contract
// (nom 3.2.1 subtracts the lengths without a check)
pub open spec fn occurs(c: Seq<u8>, t: Seq<u8>, i: int) -> bool { 0 <= i && i + t.len() <= c.len() && c.subrange(i, i + t.len()) =~= t }
pub open spec fn found(c: Seq<u8>, t: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(i) => occurs(c, t, i as int) && forall|j: int| 0 <= j < i ==> !occurs(c, t, j),
        None => forall|j: int| !occurs(c, t, j),
    }
}
pub open spec fn cmp_bytes(c: Seq<u8>, t: Seq<u8>) -> CompareResult {
    if exists|i: int| 0 <= i < c.len() && i < t.len() && c[i] != t[i] { CompareResult::Error }
    else if c.len() < t.len() { CompareResult::Incomplete } else { CompareResult::Ok }
}
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn lowered(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
