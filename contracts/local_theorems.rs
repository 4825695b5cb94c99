// ---- a local part found at the beginning of a text is one by itself -----------------------
pub proof fn atom_prefix(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures atom(s) <= n ==> atom(s.take(n)) == atom(s), atom(s) >= n ==> atom(s.take(n)) == n,
{
    atom_are(s);
    let k = if atom(s) <= n { atom(s) } else { n };
    let t = s.take(n);
    assert forall|j: int| 0 <= j < k implies atext(#[trigger] t[j]) by { assert(t[j] == s[j]); }
    if k < n { assert(t[k] == s[k]); }
    atom_unique(t, k);
}
pub proof fn atoms_prefix(s: Seq<u8>)
    ensures atoms(s.take(atoms(s))) == atoms(s), 0 <= atoms(s) <= s.len(),
    decreases s.len(),
{
    atoms_fit(s);
    if s.len() > 0 && s[0] == 46 && atom(s.skip(1)) > 0 {
        let a = atom(s.skip(1)); let u = s.skip(1 + a); let n = atoms(s); let t = s.take(n);
        atom_are(s.skip(1));
        atoms_prefix(u);
        assert(t.skip(1) =~= s.skip(1).take(n - 1));
        atom_prefix(s.skip(1), n - 1);
        assert(t.skip(1 + a) =~= u.take(atoms(u)));
    }
}
pub proof fn dot_prefix(s: Seq<u8>)
    ensures p_dot(s) matches P::Done(n, _) ==> p_dot(s.take(n)) == P::<()>::Done(n, ()),
{
    if let P::Done(n, _) = p_dot(s) {
        let a = atom(s); let u = s.skip(a);
        atom_are(s); atoms_prefix(u);
        atom_prefix(s, n);
        assert(s.take(n).skip(a) =~= u.take(atoms(u)));
    }
}
pub proof fn qtext_prefix(t: Seq<u8>, k: int)
    requires p_qtext(t) == P::<()>::Done(k, ()), k < t.len(), t[k] == 34,
    ensures p_qtext(t.take(k + 1)) == P::<()>::Done(k, ()),
    decreases t.len(),
{
    qtext_fits(t);
    let h = t.take(k + 1);
    match p_qchar(t) {
        P::Done(n, _) => {
            let u = t.skip(n);
            qtext_fits(u);
            qtext_prefix(u, k - n);
            assert(h.skip(n) =~= u.take(k - n + 1));
            assert(p_qchar(h) == p_qchar(t)) by { assert(h[0] == t[0]); if n == 2 { assert(h[1] == t[1]); } }
        }
        _ => { assert(k == 0); assert(h[0] == 34); }
    }
}
pub proof fn quoted_prefix(s: Seq<u8>)
    ensures p_quoted(s) matches P::Done(n, _) ==> p_quoted(s.take(n)) == P::<()>::Done(n, ()) && s[0] == 34,
{
    if let P::Done(n, _) = p_quoted(s) {
        local_fits(s);
        let t = s.skip(1);
        if let P::Done(k, _) = p_qtext(t) {
            qtext_fits(t);
            assert(t[k] == s[k + 1] && s.skip(1 + k)[0] == s[k + 1]);
            qtext_prefix(t, k);
            let h = s.take(n);
            assert(h.skip(1) =~= t.take(k + 1));
            assert(h.skip(1 + k) =~= seq![34u8]);
            assert(h[0] == s[0]);
        }
    }
}
pub proof fn local_prefix(s: Seq<u8>)
    ensures p_local(s) matches P::Done(n, _) ==> is_local(s.take(n)),
{
    local_fits(s);
    if let P::Done(n, _) = p_local(s) {
        quoted_prefix(s); dot_prefix(s);
        if !(p_quoted(s) is Done) {
            let h = s.take(n);
            atom_are(s);
            assert(h[0] == s[0] && atext(s[0]));
        }
    }
}
// ---- E01: every parsed address may be asked for its canonical local part -------------------
pub proof fn E01_parsed_addresses(s: Seq<u8>)
    ensures
        p_email(s) matches P::Done(_, v) ==> is_local(v.local),
        p_path(s) matches P::Done(_, v) ==> is_local(v.local),
        p_maybe(s) matches P::Done(_, v) ==> is_local(v.local),
{
    local_prefix(s);
    E01_path(s);
    if s.len() > 0 { E01_path(s.skip(1)); }
}
proof fn E01_path(s: Seq<u8>)
    ensures p_path(s) matches P::Done(_, v) ==> is_local(v.local),
{
    local_prefix(s);
    if let P::Done(n, _) = p_route(s) { local_prefix(s.skip(n)); }
}
// unquoted: as it is; quoted: the text between the quotes, backslash pairs replaced
pub proof fn E01_canonical(s: Seq<u8>)
    requires is_local(s),
    ensures s[0] != 34 ==> canonical(s) == s, s[0] == 34 ==> s.len() >= 2 && s.last() == 34 && canonical(s) == unescaped(s.subrange(1, s.len() - 1)),
{
    local_reads(s);
    if s[0] == 34 {
        assert(atom(s) == 0);
        local_fits(s);
        qtext_fits(s.skip(1));
        if let P::Done(k, _) = p_qtext(s.skip(1)) { assert(s.skip(1 + k)[0] == s[1 + k]); }
    }
}
