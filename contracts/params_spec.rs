// ---- specification: the parameters of MAIL and RCPT -----------------------------------------
pub open spec fn graph_ne(c: u8) -> bool { 33 <= c <= 126 && c != 61 }
pub open spec fn graphs(s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && graph_ne(s[0]) { 1 + graphs(s.skip(1)) } else { 0 } }
pub type Kv = (Seq<u8>, Option<Seq<u8>>);
pub open spec fn p_key(s: Seq<u8>) -> P<Seq<u8>> { if s.len() == 0 { P::More } else if label(s) > 0 { P::Done(label(s), s.take(label(s))) } else { P::Err } }
// '=' and the value, if there
pub open spec fn value(s: Seq<u8>) -> (int, Option<Seq<u8>>) {
    if s.len() > 0 && s[0] == 61 && (s.len() == 1 || graphs(s.skip(1)) > 0) { (1 + graphs(s.skip(1)), Some(s.skip(1).take(graphs(s.skip(1))))) } else { (0, None) }
}
pub open spec fn p_param(s: Seq<u8>) -> P<Kv> {
    match p_blank(s) {
        P::Done(n, _) => {
            let b = n + blanks(s.skip(n));
            match p_key(s.skip(b)) {
                P::Done(k, key) => { let v = value(s.skip(b + k)); P::Done(b + k + v.0, (key, v.1)) }
                P::More => P::More, P::Err => P::Err,
            }
        }
        P::More => P::More, P::Err => P::Err,
    }
}
pub open spec fn p_params(s: Seq<u8>) -> P<Seq<Kv>> decreases s.len() {
    if s.len() == 0 { P::Done(0, Seq::empty()) } else {
        match p_param(s) {
            P::Done(n, kv) => if 0 < n <= s.len() { match p_params(s.skip(n)) { P::Done(k, l) => P::Done(n + k, seq![kv] + l), P::More => P::More, P::Err => P::Err } } else { P::Err },
            P::More => P::More,
            P::Err => P::Done(0, Seq::empty()),
        }
    }
}
// the last value given for a key counts
pub open spec fn params_map(l: Seq<Kv>) -> Map<Seq<u8>, Option<Seq<u8>>> decreases l.len() {
    if l.len() == 0 { Map::empty() } else { params_map(l.drop_last()).insert(l.last().0, l.last().1) }
}
pub type ParV = Map<Seq<u8>, Option<Seq<u8>>>;
pub open spec fn p_parmap(s: Seq<u8>) -> P<ParV> { match p_params(s) { P::Done(n, l) => P::Done(n, params_map(l)), P::More => P::More, P::Err => P::Err } }
pub proof fn graphs_are(s: Seq<u8>)
    ensures 0 <= graphs(s) <= s.len(), forall|j: int| 0 <= j < graphs(s) ==> graph_ne(#[trigger] s[j]), graphs(s) < s.len() ==> !graph_ne(s[graphs(s)]),
    decreases s.len(),
{
    if s.len() > 0 && graph_ne(s[0]) {
        let t = s.skip(1);
        graphs_are(t);
        assert forall|j: int| 0 <= j < graphs(s) implies graph_ne(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } }
        if graphs(t) < t.len() { assert(s[graphs(t) + 1] == t[graphs(t)]); }
    }
}
pub proof fn graphs_unique(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> graph_ne(#[trigger] s[j]), k < s.len() ==> !graph_ne(s[k]),
    ensures graphs(s) == k,
{
    graphs_are(s);
    if graphs(s) < k { assert(graph_ne(s[graphs(s)])); }
}
pub proof fn graphs_is(s: Seq<u8>)
    ensures
        0 <= graphs(s) <= s.len(),
        forall|k: int| #![trigger s.subrange(0, k)] 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> graph_ne(#[trigger] s[j])) && !graph_ne(s[k]) ==> graphs(s) == k,
        (forall|j: int| 0 <= j < s.len() ==> graph_ne(#[trigger] s[j])) ==> graphs(s) == s.len(),
{
    graphs_are(s);
    assert forall|k: int| #![trigger s.subrange(0, k)] 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> graph_ne(#[trigger] s[j])) && !graph_ne(s[k]) implies graphs(s) == k by { graphs_unique(s, k); }
    if forall|j: int| 0 <= j < s.len() ==> graph_ne(#[trigger] s[j]) { graphs_unique(s, s.len() as int); }
}
pub proof fn value_fits(s: Seq<u8>)
    ensures 0 <= value(s).0 <= s.len(),
{ if s.len() > 0 { graphs_are(s.skip(1)); } }
pub proof fn key_fits(s: Seq<u8>)
    ensures p_key(s) matches P::Done(n, _) ==> 1 <= n <= s.len(),
{ label_fits(s); }
pub proof fn param_fits(s: Seq<u8>)
    ensures p_param(s) matches P::Done(n, _) ==> 2 <= n <= s.len(),
{
    if s.len() > 0 {
        blanks_are(s.skip(1));
        let b = 1 + blanks(s.skip(1));
        key_fits(s.skip(b));
        if let P::Done(k, _) = p_key(s.skip(b)) { value_fits(s.skip(b + k)); }
    }
}
pub proof fn params_fit(s: Seq<u8>)
    ensures p_params(s) matches P::Done(n, _) ==> 0 <= n <= s.len(), !(p_params(s) is Err),
    decreases s.len(),
{
    if s.len() > 0 { param_fits(s); if let P::Done(n, _) = p_param(s) { params_fit(s.skip(n)); } }
}
