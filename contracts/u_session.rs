#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_write.rs
//@include dep_iter.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@include dep_map.rs
//@include dep_net.rs
//@proved line_spec.rs in stream
//@proved dec_spec.rs in stream
//@thread poll_next next next_crlf_line new_mail filter_from filter_to filter_data handle_mail welcome_banner mail_okay rcpt_okay data_okay mail_accepted already_in_mail rcpt_before_mail data_before_rcpt data_before_mail command_unimplemented command_unrecognized send_reply handle_line : Tracked(&mut *tr)
//@helpers smtp-server/src/interact.rs smtp-server/src/crlflines.rs smtp-server/src/sendreply.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
//@contracts eat_fns.rs from words
//@contracts words_fns.rs from words
//@proved domain_spec.rs in domain
//@contracts domain_fns.rs from domain
//@contracts helo_fns.rs from helo
//@proved email_spec.rs in email
//@contracts email_fns.rs from email
//@proved params_spec.rs in params
//@contracts params_fns.rs from params
//@proved env_spec.rs in env
//@contracts env_fns.rs from env
//@contracts result_fns.rs from command
//@contracts addr_fns.rs from addr
//@contracts local_fns.rs from local
//@proved command_spec.rs in command
//@contracts command_fns.rs from command
//@contracts reply_fns.rs from reply
//@contracts reply_send.rs from reply
//@include ev_session.rs
//@include dep_sink.rs
//@contracts sendreply_fns.rs from sendreply
//@include dep_next.rs
//@contracts crlf_fns.rs from crlf
//@include dep_config.rs
//@include session_spec.rs
//@include session_fns.rs
//@proved dec_theorems.rs in stream
//@include session_theorems.rs
} // verus!
fn main() {}
