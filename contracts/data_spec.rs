// packets, each asked for while no terminator had been received, then possibly the end; g: the history before
pub open spec fn data_reads(h0: Seq<u8>, g: Seq<Ev>, m: Seq<Ev>) -> bool {
    forall|k: int| 0 <= k < m.len() ==> ((#[trigger] m[k]) is Pull || (m[k] is End && k + 1 == m.len()))
        && !has_end(g + m.take(k)) && dec(L::CrLf, h0 + pulled(m.take(k))) is None
}
// what was given out as message data
pub open spec fn data_gave(h0: Seq<u8>, g: Seq<Ev>, m: Seq<Ev>, out: Seq<u8>) -> bool {
    data_reads(h0, g, m) && match dec(L::CrLf, h0 + pulled(m)) { Some((o, r)) => out == o, None => true }
}
// and what is left for the session
pub open spec fn data_got(h0: Seq<u8>, g: Seq<Ev>, m: Seq<Ev>, out: Seq<u8>, rest: Seq<u8>) -> bool {
    data_gave(h0, g, m, out) && match dec(L::CrLf, h0 + pulled(m)) {
        Some((o, r)) => rest == r,
        None => rest == Seq::<u8>::empty(),
    }
}
