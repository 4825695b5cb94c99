// C05, for the real functions: read, send, read again
fn vx_round(arg: Bytes)
{
    if let Ok(c) = Command::parse(arg) {
        let mut v: Vec<u8> = Vec::new();
        let sent = c.send_to(&mut v);
        proof { C05_order(c); C05_round_trip(arg@, arg@.len() as int, c.cv(), c.order()); assert(Seq::<u8>::empty() + cmd_wire(c.cv(), c.order()) =~= cmd_wire(c.cv(), c.order())); }
        if sent.is_ok() {
            let ghost b = v@;
            let again = Command::parse(Bytes::vx_new_from(v));
            proof { decided(b); }
            match again { Ok(d) => { assert(d.cv() == c.cv()); } Err(_) => { assert(false); } }
        }
    }
}
