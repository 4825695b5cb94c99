// ---- specification: hosts (RFC 5321 domains and address literals) --------------------------
pub open spec fn alnum(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }
pub open spec fn ldh(c: u8) -> bool { alnum(c) || c == 45 }
pub open spec fn ldhs(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && ldh(s[0]) { 1 + ldhs(s.skip(1)) } else { 0 } }
// the longest label at the beginning; 0: none
pub open spec fn label(s: Seq<u8>) -> int { if s.len() > 0 && alnum(s[0]) { 1 + ldhs(s.skip(1)) } else { 0 } }
// further labels, each after a dot
pub open spec fn labels(s: Seq<u8>) -> int decreases s.len() via labels_end {
    if s.len() > 0 && s[0] == 46 && label(s.skip(1)) > 0 { 1 + label(s.skip(1)) + labels(s.skip(1 + label(s.skip(1)))) } else { 0 }
}
#[via_fn]
proof fn labels_end(s: Seq<u8>) { if s.len() > 0 { ldhs_are(s.skip(1).skip(1)); } }
pub enum DomV { Host(Seq<u8>), V4(Ipv4Addr), V6(Ipv6Addr) }
pub open spec fn T_IP6() -> Seq<u8> { seq![91u8, 73u8, 80u8, 118u8, 54u8, 58u8] }
pub open spec fn T_IP4() -> Seq<u8> { seq![91u8] }
// where the first ']' is; -1: nowhere
pub open spec fn close_at(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s[0] == 93 { 0 } else { let r = close_at(s.skip(1)); if r < 0 { -1 } else { r + 1 } }
}
// the text up to a ']', which is used too
pub open spec fn p_closed(s: Seq<u8>) -> P<Seq<u8>> {
    if s.len() < 1 { P::More } else if close_at(s) < 0 { P::Err } else { P::Done(close_at(s) + 1, s.take(close_at(s))) }
}
pub open spec fn p_lit6(s: Seq<u8>) -> P<DomV> {
    match p_tag(s, T_IP6()) {
        P::Done(n, _) => match p_closed(s.skip(n)) {
            P::Done(k, t) => if is_utf8(t) && ip6(t) is Some { P::Done(n + k, DomV::V6(ip6(t)->Some_0)) } else { P::Err },
            P::More => P::More, P::Err => P::Err },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_lit4(s: Seq<u8>) -> P<DomV> {
    match p_tag(s, T_IP4()) {
        P::Done(n, _) => match p_closed(s.skip(n)) {
            P::Done(k, t) => if is_utf8(t) && ip4(t) is Some { P::Done(n + k, DomV::V4(ip4(t)->Some_0)) } else { P::Err },
            P::More => P::More, P::Err => P::Err },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_lit(s: Seq<u8>) -> P<DomV> { match p_lit6(s) { P::Err => p_lit4(s), x => x } }
pub open spec fn p_host(s: Seq<u8>) -> P<DomV> {
    if label(s) > 0 { let n = label(s) + labels(s.skip(label(s))); P::Done(n, DomV::Host(s.take(n))) }
    else { p_lit(s) }
}
// one label; all labels; the text between '[' and ']'
pub open spec fn p_label(s: Seq<u8>) -> P<()> { if label(s) > 0 { P::Done(label(s), ()) } else { P::Err } }
pub open spec fn p_labels(s: Seq<u8>) -> P<()> { if label(s) > 0 { P::Done(label(s) + labels(s.skip(label(s))), ()) } else { P::Err } }
pub open spec fn p_between(s: Seq<u8>, t: Seq<u8>) -> P<Seq<u8>> {
    match p_tag(s, t) {
        P::Done(n, _) => match p_closed(s.skip(n)) { P::Done(k, x) => P::Done(n + k, x), P::More => P::More, P::Err => P::Err },
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_text(p: P<Seq<u8>>) -> P<Seq<u8>> { match p { P::Done(n, t) => if is_utf8(t) { P::Done(n, t) } else { P::Err }, P::More => P::More, P::Err => P::Err } }
pub proof fn ldhs_are(s: Seq<u8>)
    ensures 0 <= ldhs(s) <= s.len(), forall|j: int| 0 <= j < ldhs(s) ==> ldh(#[trigger] s[j]), ldhs(s) < s.len() ==> !ldh(s[ldhs(s)]),
    decreases s.len(),
{
    if s.len() > 0 && ldh(s[0]) {
        let t = s.skip(1);
        ldhs_are(t);
        assert forall|j: int| 0 <= j < ldhs(s) implies ldh(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } }
        if ldhs(t) < t.len() { assert(s[ldhs(t) + 1] == t[ldhs(t)]); }
    }
}
pub proof fn ldhs_unique(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> ldh(#[trigger] s[j]), k < s.len() ==> !ldh(s[k]),
    ensures ldhs(s) == k,
{
    ldhs_are(s);
    if ldhs(s) < k { assert(ldh(s[ldhs(s)])); }
}
pub proof fn label_fits(s: Seq<u8>)
    ensures 0 <= label(s) <= s.len(),
{ if s.len() > 0 { ldhs_are(s.skip(1)); } }
pub proof fn labels_fit(s: Seq<u8>)
    ensures 0 <= labels(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { label_fits(s.skip(1)); if s[0] == 46 && label(s.skip(1)) > 0 { labels_fit(s.skip(1 + label(s.skip(1)))); } }
}
pub proof fn close_at_is(s: Seq<u8>)
    ensures -1 <= close_at(s) < s.len() || (s.len() == 0 && close_at(s) == -1), close_at(s) >= 0 ==> s[close_at(s)] == 93,
        forall|j: int| 0 <= j < s.len() && (close_at(s) < 0 || j < close_at(s)) ==> #[trigger] s[j] != 93,
    decreases s.len(),
{
    if s.len() > 0 && s[0] != 93 {
        let t = s.skip(1);
        close_at_is(t);
        assert forall|j: int| 0 <= j < s.len() && (close_at(s) < 0 || j < close_at(s)) implies #[trigger] s[j] != 93 by { if j > 0 { assert(s[j] == t[j - 1]); } }
    }
}
pub proof fn found_close(s: Seq<u8>, r: Option<usize>)
    requires found(s, seq![93u8], r),
    ensures r == (if close_at(s) < 0 { None::<usize> } else { Some(close_at(s) as usize) }), close_at(s) >= 0 ==> close_at(s) <= usize::MAX,
{
    close_at_is(s);
    let n = seq![93u8];
    assert forall|j: int| #[trigger] occurs(s, n, j) == (0 <= j < s.len() && s[j] == 93) by {
        if 0 <= j < s.len() && s[j] == 93 { assert(s.subrange(j, j + 1) =~= n); }
        if occurs(s, n, j) { assert(s.subrange(j, j + 1)[0] == s[j]); }
    }
    match r {
        Some(i) => { assert(occurs(s, n, i as int)); if close_at(s) >= 0 { assert(occurs(s, n, close_at(s))); } }
        None => { if close_at(s) >= 0 { assert(occurs(s, n, close_at(s))); } }
    }
}
// what the parsers' code needs: the first position that does not belong is the length found
pub proof fn ldhs_is(s: Seq<u8>)
    ensures
        0 <= ldhs(s) <= s.len(),
        forall|k: int| #![trigger s.subrange(0, k)] 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> ldh(#[trigger] s[j])) && !ldh(s[k]) ==> ldhs(s) == k,
        (forall|j: int| 0 <= j < s.len() ==> ldh(#[trigger] s[j])) ==> ldhs(s) == s.len(),
{
    ldhs_are(s);
    assert forall|k: int| #![trigger s.subrange(0, k)] 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> ldh(#[trigger] s[j])) && !ldh(s[k]) implies ldhs(s) == k by { ldhs_unique(s, k); }
    if forall|j: int| 0 <= j < s.len() ==> ldh(#[trigger] s[j]) { ldhs_unique(s, s.len() as int); }
}
pub proof fn close_facts()
    ensures
        forall|s: Seq<u8>| #![trigger close_at(s)] -1 <= close_at(s) && (s.len() > 0 ==> close_at(s) < s.len()) && (s.len() == 0 ==> close_at(s) == -1),
        forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, seq![93u8], f) ==> f == (if close_at(s) < 0 { None::<usize> } else { Some(close_at(s) as usize) }) && close_at(s) <= usize::MAX,
{
    assert forall|s: Seq<u8>| #![trigger close_at(s)] -1 <= close_at(s) && (s.len() > 0 ==> close_at(s) < s.len()) && (s.len() == 0 ==> close_at(s) == -1) by { close_at_is(s); }
    assert forall|s: Seq<u8>, f: Option<usize>| #[trigger] found(s, seq![93u8], f) implies f == (if close_at(s) < 0 { None::<usize> } else { Some(close_at(s) as usize) }) && close_at(s) <= usize::MAX by { found_close(s, f); }
}
pub proof fn closed_fits(s: Seq<u8>)
    ensures p_closed(s) matches P::Done(k, _) ==> 1 <= k <= s.len(),
{ close_at_is(s); }
pub proof fn host_fits(s: Seq<u8>)
    ensures p_host(s) matches P::Done(k, _) ==> 1 <= k <= s.len(),
{
    label_fits(s); labels_fit(s.skip(label(s)));
    closed_fits(s.skip(T_IP6().len() as int)); closed_fits(s.skip(T_IP4().len() as int));
}
