#![verifier::allow_complex_invariants]
use vstd::prelude::*;
verus! {
//@helpers smtp-queue/src/send_queued_mail.rs smtp-queue/src/run.rs smtp-queue/src/lib.rs
//@futures01
//@thread list_queue find_inflight cancel_found_inflight send_start send_done send_cancel get_mail send vx_next Delay::new send_queued_mail : Tracked(&mut *tr)
//@include dep_queue.rs
//@contracts qsend_fns.rs from qsend
//@fn smtp-queue/src/run.rs run params=storage,transport loops=2
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
pub fn run(storage: Stor, transport: Transp, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), ()>)
    requires old(tr)@ is Begin,
    ensures
        // every listed mail handed to delivery once, then every mail found in flight waited for,
        // returned and handed to delivery: to the end of both lists, unless the storage failed
        final(tr)@ is End || final(tr)@ is Broken || final(tr)@ is FindBroken,
        r is Ok ==> final(tr)@ is End,
//@loop 0
    invariant_except_break tr@ == St::Top(Phase::Listing), vx_r0 is Ok,
    ensures vx_r0 is Ok ==> tr@ is Between, vx_r0 is Err ==> tr@ is Broken,
//@loop 1
    invariant_except_break tr@ == St::Top(Phase::Finding), vx_r1 is Ok,
    ensures vx_r1 is Ok ==> tr@ is End, vx_r1 is Err ==> tr@ is FindBroken,
//@end
}
fn main() {}
