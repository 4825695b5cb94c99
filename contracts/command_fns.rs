//@type smtp-message/src/command.rs Command
impl Command {
    pub open spec fn cv(&self) -> CmdV {
        match *self {
            Command::Data(_) => CmdV::Data,
            Command::Ehlo(c) => CmdV::Ehlo(c.domain.dv()),
            Command::Expn(c) => CmdV::Expn(c.name@),
            Command::Helo(c) => CmdV::Helo(c.domain.dv()),
            Command::Help(c) => CmdV::Help(c.subject@),
            Command::Mail(c) => CmdV::Mail(mv_opt(c.from), c.params.pv()),
            Command::Noop(c) => CmdV::Noop(c.string@),
            Command::Quit(_) => CmdV::Quit,
            Command::Rcpt(c) => CmdV::Rcpt(c.to.mv(), c.params.pv()),
            Command::Rset(_) => CmdV::Rset,
            Command::Vrfy(c) => CmdV::Vrfy(c.name@),
        }
    }
}
//@fn @msg command params=i
pub fn command<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, Command, u32>)
    requires i.wf(),
    ensures
        match r {
            IResult::Done(rest, o) => rest.wf() && rest.buf == i.buf && rest.end == i.end && i.start <= rest.start && is_cmd(i.v(), rest.start - i.start, o.cv()),
            IResult::Error(_) => no_cmd(i.v()),
            IResult::Incomplete(n) => part_cmd(i.v()) && few(n, i.v().len() as int),
        },
//@ghost start
    hide(p_simple); hide(p_hello); hide(p_free); hide(p_free_or_none); hide(p_mail); hide(p_rcpt); hide(blanks);
    proof {
        rests(i);
        let s = i.v();
        assert(p_kind(s, 0) == as_data(p_simple(s, W_DATA()))); assert(p_kind(s, 1) == as_ehlo(p_hello(s, W_EHLO()))); assert(p_kind(s, 2) == as_expn(p_free(s, W_EXPN())));
        assert(p_kind(s, 3) == as_helo(p_hello(s, W_HELO()))); assert(p_kind(s, 4) == as_help(p_free_or_none(s, W_HELP()))); assert(p_kind(s, 5) == as_mail(p_mail(s)));
        assert(p_kind(s, 6) == as_noop(p_free_or_none(s, W_NOOP()))); assert(p_kind(s, 7) == as_quit(p_simple(s, W_QUIT()))); assert(p_kind(s, 8) == as_rcpt(p_rcpt(s)));
        assert(p_kind(s, 9) == as_rset(p_simple(s, W_RSET()))); assert(p_kind(s, 10) == as_vrfy(p_free(s, W_VRFY())));
    }
//@end
impl Command {
    //@fn smtp-message/src/command.rs Command::parse params=arg
    pub fn parse(arg: Bytes) -> (r: Result<Command, ParseError>)
        ensures
            match r {
                Ok(c) => is_cmd(arg@, arg@.len() as int, c.cv()),
                Err(_) => forall|c: CmdV| !is_cmd(arg@, arg@.len() as int, c),
            },
    //@ghost start
        proof { decided(arg@); assert(arg@.subrange(0, arg@.len() as int) =~= arg@); }
    //@end
}
