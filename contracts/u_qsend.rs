use vstd::prelude::*;
verus! {
//@helpers smtp-queue/src/send_queued_mail.rs smtp-queue/src/run.rs smtp-queue/src/lib.rs
//@futures01
//@thread list_queue find_inflight cancel_found_inflight send_start send_done send_cancel get_mail send vx_next Delay::new send_queued_mail : Tracked(&mut *tr)
//@include dep_queue.rs
//@include qsend_fns.rs
}
fn main() {}
