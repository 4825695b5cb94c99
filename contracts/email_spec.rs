// ---- specification: mail addresses ---------------------------------------------------------
pub open spec fn atext(c: u8) -> bool {
    alnum(c) || c == 33 || 35 <= c <= 39 || c == 42 || c == 43 || c == 45 || c == 47 || c == 61 || c == 63 || 94 <= c <= 96 || 123 <= c <= 126
}
// the longest atom at the beginning; 0: none
pub open spec fn atom(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && atext(s[0]) { 1 + atom(s.skip(1)) } else { 0 } }
// further atoms, each after a dot
pub open spec fn atoms(s: Seq<u8>) -> int decreases s.len() via atoms_end {
    if s.len() > 0 && s[0] == 46 && atom(s.skip(1)) > 0 { 1 + atom(s.skip(1)) + atoms(s.skip(1 + atom(s.skip(1)))) } else { 0 }
}
#[via_fn]
proof fn atoms_end(s: Seq<u8>) { if s.len() > 0 { atom_are(s.skip(1)); } }
pub open spec fn p_dot(s: Seq<u8>) -> P<()> { if atom(s) > 0 { P::Done(atom(s) + atoms(s.skip(atom(s))), ()) } else { P::Err } }
pub open spec fn T_QUOTE() -> Seq<u8> { seq![34u8] }
pub open spec fn T_AT() -> Seq<u8> { seq![64u8] }
pub open spec fn T_COMMA() -> Seq<u8> { seq![44u8] }
pub open spec fn T_COLON() -> Seq<u8> { seq![58u8] }
pub open spec fn T_LT() -> Seq<u8> { seq![60u8] }
pub open spec fn T_GT() -> Seq<u8> { seq![62u8] }
// one character inside quotes, or one backslash pair
pub open spec fn qtext(c: u8) -> bool { 32 <= c <= 126 && c != 34 && c != 92 }
pub open spec fn p_qchar(s: Seq<u8>) -> P<()> {
    if s.len() == 0 { P::More }
    else if s[0] == 92 { if s.len() < 2 { P::More } else if 32 <= s[1] <= 126 { P::Done(2, ()) } else { P::Err } }
    else if qtext(s[0]) { P::Done(1, ()) } else { P::Err }
}
pub open spec fn p_qtext(s: Seq<u8>) -> P<()> decreases s.len() {
    if s.len() == 0 { P::Done(0, ()) } else {
        match p_qchar(s) {
            P::Done(n, _) => if 0 < n <= s.len() { match p_qtext(s.skip(n)) { P::Done(k, _) => P::Done(n + k, ()), P::More => P::More, P::Err => P::Err } } else { P::Err },
            P::More => P::More,
            P::Err => P::Done(0, ()),
        }
    }
}
pub open spec fn p_quoted(s: Seq<u8>) -> P<()> {
    match p_tag(s, T_QUOTE()) {
        P::Done(n, _) => match p_qtext(s.skip(n)) {
            P::Done(k, _) => match p_tag(s.skip(n + k), T_QUOTE()) { P::Done(m, _) => P::Done(n + k + m, ()), P::More => P::More, P::Err => P::Err },
            P::More => P::More, P::Err => P::Err,
        },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_local(s: Seq<u8>) -> P<()> { match p_quoted(s) { P::Err => p_dot(s), x => x } }
// '@' and a host
pub open spec fn p_hop(s: Seq<u8>) -> P<DomV> {
    match p_tag(s, T_AT()) {
        P::Done(n, _) => match p_host(s.skip(n)) { P::Done(k, d) => P::Done(n + k, d), P::More => P::More, P::Err => P::Err },
        P::More => P::More, P::Err => P::Err,
    }
}
// ... if there
pub open spec fn at_host(s: Seq<u8>) -> (int, Option<DomV>) { match p_hop(s) { P::Done(n, d) => (n, Some(d)), _ => (0, None) } }
pub ghost struct MailV { pub local: Seq<u8>, pub host: Option<DomV> }
pub open spec fn p_email(s: Seq<u8>) -> P<MailV> {
    match p_local(s) {
        P::Done(n, _) => P::Done(n + at_host(s.skip(n)).0, MailV { local: s.take(n), host: at_host(s.skip(n)).1 }),
        P::More => P::More, P::Err => P::Err,
    }
}
// further hosts of a route, each after a comma
pub open spec fn p_hops(s: Seq<u8>) -> P<()> decreases s.len() {
    match p_tag(s, T_COMMA()) {
        P::Done(n, _) => match p_hop(s.skip(n)) {
            P::Done(k, _) => if n == 1 && 0 < k && n + k <= s.len() { match p_hops(s.skip(n + k)) { P::Done(m, _) => P::Done(n + k + m, ()), P::More => P::More, P::Err => P::Err } } else { P::Err },
            P::More => P::More,
            P::Err => P::Done(0, ()),
        },
        P::More => P::More,
        P::Err => P::Done(0, ()),
    }
}
pub open spec fn p_hoplist(s: Seq<u8>) -> P<()> {
    match p_hop(s) {
        P::Done(n, _) => match p_hops(s.skip(n)) { P::Done(k, _) => P::Done(n + k, ()), P::More => P::More, P::Err => P::Err },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_route(s: Seq<u8>) -> P<()> {
    match p_hoplist(s) {
        P::Done(n, _) => match p_tag(s.skip(n), T_COLON()) { P::Done(k, _) => P::Done(n + k, ()), P::More => P::More, P::Err => P::Err },
        P::More => P::More, P::Err => P::Err,
    }
}
// an address after a route, which is dropped, or alone
pub open spec fn p_path(s: Seq<u8>) -> P<MailV> {
    match p_route(s) {
        P::Done(n, _) => match p_email(s.skip(n)) { P::Done(k, v) => P::Done(n + k, v), P::More => P::More, P::Err => P::Err },
        P::More => P::More,
        P::Err => p_email(s),
    }
}
pub open spec fn p_angle(s: Seq<u8>) -> P<MailV> {
    match p_tag(s, T_LT()) {
        P::Done(n, _) => match p_path(s.skip(n)) {
            P::Done(k, v) => match p_tag(s.skip(n + k), T_GT()) { P::Done(m, _) => P::Done(n + k + m, v), P::More => P::More, P::Err => P::Err },
            P::More => P::More, P::Err => P::Err,
        },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_maybe(s: Seq<u8>) -> P<MailV> { match p_angle(s) { P::Err => p_path(s), x => x } }
// ---- lemmas
pub proof fn atom_are(s: Seq<u8>)
    ensures 0 <= atom(s) <= s.len(), forall|j: int| 0 <= j < atom(s) ==> atext(#[trigger] s[j]), atom(s) < s.len() ==> !atext(s[atom(s)]),
    decreases s.len(),
{
    if s.len() > 0 && atext(s[0]) {
        let t = s.skip(1);
        atom_are(t);
        assert forall|j: int| 0 <= j < atom(s) implies atext(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } }
        if atom(t) < t.len() { assert(s[atom(t) + 1] == t[atom(t)]); }
    }
}
pub proof fn atom_unique(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> atext(#[trigger] s[j]), k < s.len() ==> !atext(s[k]),
    ensures atom(s) == k,
{
    atom_are(s);
    if atom(s) < k { assert(atext(s[atom(s)])); }
}
pub proof fn atom_is(s: Seq<u8>)
    ensures
        0 <= atom(s) <= s.len(),
        forall|k: int| #![trigger s.subrange(0, k)] 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> atext(#[trigger] s[j])) && !atext(s[k]) ==> atom(s) == k,
        (forall|j: int| 0 <= j < s.len() ==> atext(#[trigger] s[j])) ==> atom(s) == s.len(),
{
    atom_are(s);
    assert forall|k: int| #![trigger s.subrange(0, k)] 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> atext(#[trigger] s[j])) && !atext(s[k]) implies atom(s) == k by { atom_unique(s, k); }
    if forall|j: int| 0 <= j < s.len() ==> atext(#[trigger] s[j]) { atom_unique(s, s.len() as int); }
}
pub proof fn atoms_fit(s: Seq<u8>)
    ensures 0 <= atoms(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { atom_are(s.skip(1)); if s[0] == 46 && atom(s.skip(1)) > 0 { atoms_fit(s.skip(1 + atom(s.skip(1)))); } }
}
pub proof fn qtext_fits(s: Seq<u8>)
    ensures p_qtext(s) matches P::Done(n, _) ==> 0 <= n <= s.len(), !(p_qtext(s) is Err),
    decreases s.len(),
{
    if s.len() > 0 { if let P::Done(n, _) = p_qchar(s) { qtext_fits(s.skip(n)); } }
}
pub proof fn local_fits(s: Seq<u8>)
    ensures p_local(s) matches P::Done(n, _) ==> 1 <= n <= s.len(), p_dot(s) matches P::Done(n, _) ==> 1 <= n <= s.len(), p_quoted(s) matches P::Done(n, _) ==> 2 <= n <= s.len(),
{
    if s.len() > 0 { qtext_fits(s.skip(1)); }
    atom_are(s); atoms_fit(s.skip(atom(s)));
}
pub proof fn hop_fits(s: Seq<u8>)
    ensures p_hop(s) matches P::Done(n, _) ==> 2 <= n <= s.len(),
{ if s.len() > 0 { host_fits(s.skip(1)); } }
pub proof fn hops_fit(s: Seq<u8>)
    ensures p_hops(s) matches P::Done(n, _) ==> 0 <= n <= s.len(), !(p_hops(s) is Err),
    decreases s.len(),
{
    if s.len() > 0 { hop_fits(s.skip(1)); if let P::Done(k, _) = p_hop(s.skip(1)) { hops_fit(s.skip(1 + k)); } }
}
pub proof fn email_fits(s: Seq<u8>)
    ensures p_email(s) matches P::Done(n, _) ==> 1 <= n <= s.len(),
{ local_fits(s); if let P::Done(n, _) = p_local(s) { hop_fits(s.skip(n)); } }
pub proof fn route_fits(s: Seq<u8>)
    ensures p_hoplist(s) matches P::Done(n, _) ==> 2 <= n <= s.len(), p_route(s) matches P::Done(n, _) ==> 3 <= n <= s.len(),
{ hop_fits(s); if let P::Done(n, _) = p_hop(s) { hops_fit(s.skip(n)); } }
pub proof fn path_fits(s: Seq<u8>)
    ensures p_path(s) matches P::Done(n, _) ==> 1 <= n <= s.len(),
{ route_fits(s); email_fits(s); if let P::Done(n, _) = p_route(s) { email_fits(s.skip(n)); } }
pub proof fn maybe_fits(s: Seq<u8>)
    ensures p_maybe(s) matches P::Done(n, _) ==> 1 <= n <= s.len(),
{ path_fits(s); if s.len() > 0 { path_fits(s.skip(1)); } }
