//@include wire_mail.rs
pub open spec fn kv_wire(x: Kv) -> Seq<u8> { seq![32u8] + x.0 + (match x.1 { Some(v) => seq![61u8] + v, None => Seq::empty() }) }
// the parameters in some order, each after a space
pub open spec fn kvs_wire(l: Seq<Kv>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { kvs_wire(l.drop_last()) + kv_wire(l.last()) } }
pub open spec fn arg_wire(w: Seq<u8>, t: Seq<u8>) -> Seq<u8> { w + seq![32u8] + t + CRLF() }
pub open spec fn env_wire(w: Seq<u8>, a: Seq<u8>, l: Seq<Kv>) -> Seq<u8> { w + T_LT() + a + T_GT() + kvs_wire(l) + CRLF() }
pub open spec fn sender_wire(m: Option<MailV>) -> Seq<u8> { match m { Some(v) => mail_wire(v), None => Seq::empty() } }
// no key twice, and together they are the given parameters
pub open spec fn order_of(l: Seq<Kv>, m: ParV) -> bool { params_map(l) == m && forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
// how the command is sent, with the parameters in the order l
pub open spec fn cmd_wire(c: CmdV, l: Seq<Kv>) -> Seq<u8> {
    match c {
        CmdV::Data => W_DATA() + CRLF(), CmdV::Quit => W_QUIT() + CRLF(), CmdV::Rset => W_RSET() + CRLF(),
        CmdV::Ehlo(d) => arg_wire(W_EHLO(), dom_wire(d)), CmdV::Helo(d) => arg_wire(W_HELO(), dom_wire(d)),
        CmdV::Expn(t) => arg_wire(W_EXPN(), t), CmdV::Vrfy(t) => arg_wire(W_VRFY(), t),
        CmdV::Help(t) => arg_wire(W_HELP(), t), CmdV::Noop(t) => arg_wire(W_NOOP(), t),
        CmdV::Mail(f, _) => env_wire(W_MAIL(), sender_wire(f), l), CmdV::Rcpt(t, _) => env_wire(W_RCPT(), mail_wire(t), l),
    }
}
pub open spec fn cmd_order(c: CmdV, l: Seq<Kv>) -> bool { match c { CmdV::Mail(_, p) => order_of(l, p), CmdV::Rcpt(_, p) => order_of(l, p), _ => true } }
