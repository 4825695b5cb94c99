// an iteration visits every key exactly once
pub axiom fn pairs_are_the_map(h: HashMap<SmtpString, Option<SmtpString>>)
    ensures order_of(kvs(h.pairs()), h.map());
