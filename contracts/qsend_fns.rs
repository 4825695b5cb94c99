//@fn smtp-queue/src/send_queued_mail.rs send_queued_mail params=storage,transport,mail loops=0
#[verifier::exec_allows_no_decreases_clause]
pub fn send_queued_mail(storage: Stor, transport: Transp, mail: QM, Tracked(tr): Tracked<&mut Trace>) -> (r: Result<(), ()>)
    requires
        // only a mail that is in the queue and was not handed to delivery before
        old(tr)@ matches St::Sending(p, N::Queued(q)) && q == mail,
    ensures
        // when it ends, the mail was started, read and accepted and marked done; or refused, put back
        // and what came back sent again, to the same end; or the storage failed on it
        old(tr)@ matches St::Sending(p, _) && final(tr)@ == St::Top(p),
//@end
