#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@include dep_core.rs
//@include dep_iter.rs
//@include dep_write.rs
//@include dep_nom.rs
//@contracts view_fns.rs from view
//@include dep_parse.rs
//@include dep_map.rs
//@include dep_net.rs
//@contracts string_fns.rs from string
//@contracts string_from.rs from string
//@proved parse_spec.rs in words
//@helpers @msg
//@contracts eat_fns.rs from words
//@contracts words_fns.rs from words
//@proved domain_spec.rs in domain
//@contracts domain_fns.rs from domain
//@contracts helo_fns.rs from helo
//@proved email_spec.rs in email
//@contracts email_fns.rs from email
//@proved params_spec.rs in params
//@contracts params_fns.rs from params
//@proved env_spec.rs in env
//@contracts env_fns.rs from env
//@include result_fns.rs
//@proved command_spec.rs in command
//@contracts command_fns.rs from command
//@include wire_spec.rs
//@include send_trait.rs
//@include dep_show.rs
//@include dep_pairs.rs
//@contracts senddom_fns.rs from senddom
//@contracts sendmail_fns.rs from sendmail
//@include cmdsend_fns.rs
} // verus!
fn main() {}
