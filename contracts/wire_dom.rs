// ---- specification: the bytes each value is sent as ----------------------------------------
pub open spec fn dom_wire(d: DomV) -> Seq<u8> {
    match d { DomV::Host(s) => s, DomV::V4(a) => T_IP4() + ip4_text(a) + seq![93u8], DomV::V6(a) => T_IP6() + ip6_text(a) + seq![93u8] }
}
