//@include wire_dom.rs
pub open spec fn mail_wire(m: MailV) -> Seq<u8> { m.local + (match m.host { Some(d) => T_AT() + dom_wire(d), None => Seq::empty() }) }
