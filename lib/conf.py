"""Which units (contract files) and which search decide each property."""
# unit -> options
UNITS = {
    'sink':   dict(rlimit=60),
    'stream': dict(rlimit=150),
    'string': dict(rlimit=60),
    'reply':  dict(rlimit=60),
    'view':   dict(rlimit=60),
    'viewp':  dict(rlimit=60),
    'sendreply': dict(rlimit=60),
    'crlf':   dict(rlimit=60),
    'session': dict(rlimit=80),
    'defaults': dict(rlimit=30),
    'words':  dict(rlimit=60, expanded=True),
    'domain': dict(rlimit=60, expanded=True),
    'helo':   dict(rlimit=100, expanded=True),
    'email':  dict(rlimit=60, expanded=True),
    'addr':   dict(rlimit=60, expanded=True),
    'local':  dict(rlimit=60, expanded=True),
    'params': dict(rlimit=60, expanded=True),
    'env':    dict(rlimit=150, expanded=True),
    'command': dict(rlimit=60, expanded=True),
    'rparse': dict(rlimit=60, expanded=True),
    'senddom': dict(rlimit=60, expanded=True),
    'sendmail': dict(rlimit=60, expanded=True),
    'cmdsend': dict(rlimit=80, expanded=True),
    'round':  dict(rlimit=60, expanded=True),
    'nom':    dict(rlimit=30, dep=('nom-3.2.1', ['traits.rs', 'nom.rs'])),
    'nomcrlf': dict(rlimit=30, dep=('nom-3.2.1', ['traits.rs', 'nom.rs'])),
    'qsend':  dict(rlimit=30),
    'qrun':   dict(rlimit=30),
}
QA = [
    'futures 0.1 combinators are read as sequential code on the results of the futures; a spawned task is verified where it is spawned, '
    'its interleaving with other tasks is not modelled (tasks share only the storage and the transport)',
    'an operation takes place where its method is called; the type parameters are opaque values',
    'Instant + Duration does not overflow; Delay completes no earlier than its instant',
]
# what the address parser is made of; paths with source routes are C04's
ADDRESS = r'^(?!.*(path_|hop|route|maybe|address_in))'
# property -> units; fns = regex of the functions whose obligations belong to it (None: the whole unit)
PROPS = {
    'D01': dict(units={'stream': None}),
    'D02': dict(units={'stream': None}),
    'D03': dict(units={'sink': None}),
    'D04': dict(units={'sink': None, 'stream': None}),
    'H01': dict(units={'stream': r'Prependable::'}),
    'R01': dict(units={'reply': r'ReplyLine::build|ReplyCode|VxTotal|vx_line|vx_no_break'}),
    'R02': dict(units={'reply': r'ReplyLine::(byte_len|send_to)|digits'}),
    'R04': dict(units={'sendreply': None}),
    'S01': dict(units={'session': None, 'sendreply': None, 'crlf': None}),
    'S02': dict(units={'session': None}),
    'S03': dict(units={'session': None}),
    'S04': dict(units={'session': None}),
    'S05': dict(units={'crlf': None, 'session': None}),
    'S06': dict(units={'session': None, 'crlf': None, 'stream': None}),
    'S07': dict(units={'session': None, 'defaults': None}),
    'C01': dict(units={u: None for u in ('nom', 'nomcrlf', 'words', 'domain', 'helo', 'email', 'addr', 'params', 'env', 'command', 'rparse')}),
    'C02': dict(units={'words': r'data_args|quit_args|rset_args|eat_spaces|(Data|Quit|Rset)Command::', 'command': None}),
    'C03': dict(units={'words': r'expn_args|vrfy_args|help_args|noop_args|(Expn|Vrfy|Help|Noop)Command::', 'command': None}),
    'C04': dict(units={'params': None, 'email': None, 'env': None, 'command': None}),
    'C06': dict(units={'domain': None, 'helo': None, 'command': None}),
    'C05': dict(units={u: None for u in ('words', 'domain', 'helo', 'email', 'params', 'env', 'command', 'senddom', 'sendmail', 'cmdsend', 'round')}),
    'E02': dict(units={'domain': None, 'email': ADDRESS, 'addr': None, 'senddom': None, 'sendmail': None, 'round': r'E02|email_|local_|host_|name_|label|atom|qtext|closed_done|tag_'}),
    'E03': dict(units={'domain': None, 'addr': r'Domain|nom_to_result', 'senddom': None, 'round': r'E03|host_|name_|label|closed_done|tag_'}),
    'E01': dict(units={'local': None, 'email': ADDRESS, 'addr': None}),
    'R03': dict(units={'nom': None, 'nomcrlf': None, 'rparse': None, 'reply': r'ReplyLine::send_to|ReplyCode|digits'}),
    'B01': dict(units={'view': None, 'viewp': None, 'nom': None}),
    'T01': dict(units={'string': None}),
    'Q01': dict(units={'qsend': None}, search='replayq', assume=QA),
    'Q02': dict(units={'qsend': None, 'qrun': None}, search='replayq', assume=QA),
}
