//@type smtp-message/src/data/mod.rs DataCommand
impl DataCommand {
    //@fn smtp-message/src/data/mod.rs DataCommand::new params= loops=0
    pub fn new() -> (r: DataCommand)
    //@end
    //@fn smtp-message/src/data/mod.rs DataCommand::take_ownership params=self loops=0
    pub fn take_ownership(self) -> (r: DataCommand)
        ensures r == self,
    //@end
}
//@fn @msg command_data_args params=i loops=0
pub fn command_data_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, DataCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_simple(i.v(), W_DATA()), |o: DataCommand| ()),
//@end
//@type smtp-message/src/quit/mod.rs QuitCommand
impl QuitCommand {
    //@fn smtp-message/src/quit/mod.rs QuitCommand::new params= loops=0
    pub fn new() -> (r: QuitCommand)
    //@end
    //@fn smtp-message/src/quit/mod.rs QuitCommand::take_ownership params=self loops=0
    pub fn take_ownership(self) -> (r: QuitCommand)
        ensures r == self,
    //@end
}
//@fn @msg command_quit_args params=i loops=0
pub fn command_quit_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, QuitCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_simple(i.v(), W_QUIT()), |o: QuitCommand| ()),
//@end
//@type smtp-message/src/rset/mod.rs RsetCommand
impl RsetCommand {
    //@fn smtp-message/src/rset/mod.rs RsetCommand::new params= loops=0
    pub fn new() -> (r: RsetCommand)
    //@end
    //@fn smtp-message/src/rset/mod.rs RsetCommand::take_ownership params=self loops=0
    pub fn take_ownership(self) -> (r: RsetCommand)
        ensures r == self,
    //@end
}
//@fn @msg command_rset_args params=i loops=0
pub fn command_rset_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, RsetCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_simple(i.v(), W_RSET()), |o: RsetCommand| ()),
//@end
//@type smtp-message/src/expn/mod.rs ExpnCommand
impl ExpnCommand {
    //@fn smtp-message/src/expn/mod.rs ExpnCommand::new params=name loops=0
    pub fn new(name: SmtpString) -> (r: ExpnCommand)
        ensures r.name == name,
    //@end
    //@fn smtp-message/src/expn/mod.rs ExpnCommand::name params=self loops=0
    pub fn name(&self) -> (r: &SmtpString)
        ensures *r == self.name,
    //@end
}
//@fn @msg command_expn_args params=i loops=0
pub fn command_expn_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, ExpnCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_free(i.v(), W_EXPN()), |o: ExpnCommand| o.name@),
//@ghost start
    proof { assert forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, CRLF(), f) implies f == (if crlf_at(s) < 0 { None::<usize> } else { Some(crlf_at(s) as usize) }) && crlf_at(s) <= usize::MAX by { found_crlf(s, f); }
        assert forall|s: Seq<u8>| #![trigger crlf_at(s)] crlf_at(s) <= s.len() && (s.len() >= 2 ==> crlf_at(s) <= s.len() - 2) by { crlf_at_is(s); } }
//@end
//@type smtp-message/src/vrfy/mod.rs VrfyCommand
impl VrfyCommand {
    //@fn smtp-message/src/vrfy/mod.rs VrfyCommand::new params=name loops=0
    pub fn new(name: SmtpString) -> (r: VrfyCommand)
        ensures r.name == name,
    //@end
    //@fn smtp-message/src/vrfy/mod.rs VrfyCommand::name params=self loops=0
    pub fn name(&self) -> (r: &SmtpString)
        ensures *r == self.name,
    //@end
}
//@fn @msg command_vrfy_args params=i loops=0
pub fn command_vrfy_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, VrfyCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_free(i.v(), W_VRFY()), |o: VrfyCommand| o.name@),
//@ghost start
    proof { assert forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, CRLF(), f) implies f == (if crlf_at(s) < 0 { None::<usize> } else { Some(crlf_at(s) as usize) }) && crlf_at(s) <= usize::MAX by { found_crlf(s, f); }
        assert forall|s: Seq<u8>| #![trigger crlf_at(s)] crlf_at(s) <= s.len() && (s.len() >= 2 ==> crlf_at(s) <= s.len() - 2) by { crlf_at_is(s); } }
//@end
//@type smtp-message/src/help/mod.rs HelpCommand
impl HelpCommand {
    //@fn smtp-message/src/help/mod.rs HelpCommand::new params=subject loops=0
    pub fn new(subject: SmtpString) -> (r: HelpCommand)
        ensures r.subject == subject,
    //@end
    //@fn smtp-message/src/help/mod.rs HelpCommand::subject params=self loops=0
    pub fn subject(&self) -> (r: &SmtpString)
        ensures *r == self.subject,
    //@end
}
//@fn @msg command_help_args params=i loops=0
pub fn command_help_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, HelpCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_free_or_none(i.v(), W_HELP()), |o: HelpCommand| o.subject@),
//@ghost start
    proof { assert forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, CRLF(), f) implies f == (if crlf_at(s) < 0 { None::<usize> } else { Some(crlf_at(s) as usize) }) && crlf_at(s) <= usize::MAX by { found_crlf(s, f); }
        assert forall|s: Seq<u8>| #![trigger crlf_at(s)] crlf_at(s) <= s.len() && (s.len() >= 2 ==> crlf_at(s) <= s.len() - 2) by { crlf_at_is(s); } }
//@end
//@type smtp-message/src/noop/mod.rs NoopCommand
impl NoopCommand {
    //@fn smtp-message/src/noop/mod.rs NoopCommand::new params=string loops=0
    pub fn new(string: SmtpString) -> (r: NoopCommand)
        ensures r.string == string,
    //@end
    //@fn smtp-message/src/noop/mod.rs NoopCommand::string params=self loops=0
    pub fn string(&self) -> (r: &SmtpString)
        ensures *r == self.string,
    //@end
}
//@fn @msg command_noop_args params=i loops=0
pub fn command_noop_args<'a>(i: ByteSlice<'a>) -> (r: IResult<ByteSlice<'a>, NoopCommand, u32>)
    requires i.wf(),
    ensures gave(i, r, p_free_or_none(i.v(), W_NOOP()), |o: NoopCommand| o.string@),
//@ghost start
    proof { assert forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, CRLF(), f) implies f == (if crlf_at(s) < 0 { None::<usize> } else { Some(crlf_at(s) as usize) }) && crlf_at(s) <= usize::MAX by { found_crlf(s, f); }
        assert forall|s: Seq<u8>| #![trigger crlf_at(s)] crlf_at(s) <= s.len() && (s.len() >= 2 ==> crlf_at(s) <= s.len() - 2) by { crlf_at_is(s); } }
//@end
