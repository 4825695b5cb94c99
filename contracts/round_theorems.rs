// ---- theorems: what is sent parses back to the same value -----------------------------------
// std: an address is shown as a text of hexadecimal digits, dots and colons that denotes it
pub axiom fn ip4_shown(a: Ipv4Addr)
    ensures ip4(ip4_text(a)) == Some(a), is_utf8(ip4_text(a)), ip4_text(a).len() > 0, 48 <= ip4_text(a)[0] <= 57,
        forall|i: int| 0 <= i < ip4_text(a).len() ==> #[trigger] ip4_text(a)[i] != 93;
pub axiom fn ip6_shown(a: Ipv6Addr)
    ensures ip6(ip6_text(a)) == Some(a), is_utf8(ip6_text(a)),
        forall|i: int| 0 <= i < ip6_text(a).len() ==> #[trigger] ip6_text(a)[i] != 93;
// -- names
pub proof fn label_is(t: Seq<u8>, k: int)
    requires 1 <= k <= t.len(), alnum(t[0]), forall|j: int| 1 <= j < k ==> ldh(#[trigger] t[j]), k < t.len() ==> !ldh(t[k]),
    ensures label(t) == k,
{
    let u = t.skip(1);
    assert forall|j: int| 0 <= j < k - 1 implies ldh(#[trigger] u[j]) by { assert(ldh(t[j + 1])); }
    if k < t.len() { assert(u[k - 1] == t[k]); }
    ldhs_unique(u, k - 1);
}
pub proof fn label_has(s: Seq<u8>)
    requires label(s) > 0,
    ensures 1 <= label(s) <= s.len(), alnum(s[0]), forall|j: int| 1 <= j < label(s) ==> ldh(#[trigger] s[j]), label(s) < s.len() ==> !ldh(s[label(s)]),
{
    let u = s.skip(1);
    ldhs_are(u);
    assert forall|j: int| 1 <= j < label(s) implies ldh(#[trigger] s[j]) by { assert(u[j - 1] == s[j]); }
    if label(s) < s.len() { assert(u[label(s) - 1] == s[label(s)]); }
}
// what may follow a name without being part of it
pub open spec fn ends_name(r: Seq<u8>) -> bool { r.len() == 0 || (r[0] != 46 && !ldh(r[0])) }
// two texts that agree on the first label and one byte more
pub proof fn label_same(s: Seq<u8>, t: Seq<u8>)
    requires label(s) > 0, t.len() >= label(s), forall|j: int| 0 <= j < label(s) ==> t[j] == s[j], t.len() > label(s) ==> !ldh(t[label(s)]),
    ensures label(t) == label(s),
{
    label_has(s);
    assert(t[0] == s[0]);
    assert forall|j: int| 1 <= j < label(s) implies ldh(#[trigger] t[j]) by { assert(ldh(s[j])); }
    label_is(t, label(s));
}
pub proof fn labels_ext(s: Seq<u8>, r: Seq<u8>)
    requires ends_name(r),
    ensures 0 <= labels(s) <= s.len(), labels(s.take(labels(s)) + r) == labels(s), labels(s) > 0 ==> s[0] == 46,
    decreases s.len(),
{
    labels_fit(s);
    let m = labels(s);
    let t = s.take(m) + r;
    if s.len() > 0 && s[0] == 46 && label(s.skip(1)) > 0 {
        let k = label(s.skip(1));
        label_has(s.skip(1));
        let u = s.skip(1 + k);
        labels_ext(u, r);
        let m2 = labels(u);
        assert(m == 1 + k + m2);
        let a = s.skip(1); let b = t.skip(1);
        assert forall|j: int| 0 <= j < k implies b[j] == a[j] by { assert(b[j] == t[j + 1]); }
        if b.len() > k { assert(b[k] == t[k + 1]); if m2 > 0 { assert(t[k + 1] == s[k + 1]); assert(u[0] == s[k + 1]); } else { assert(t[k + 1] == r[0]); } }
        label_same(a, b);
        assert(t[0] == s[0]);
        assert(t.skip(1 + k) =~= u.take(m2) + r);
    } else {
        assert(t =~= r);
    }
}
pub proof fn name_ext(s: Seq<u8>, r: Seq<u8>)
    requires label(s) > 0, ends_name(r),
    ensures ({ let n = label(s) + labels(s.skip(label(s))); let t = s.take(n) + r;
        0 < n <= s.len() && label(t) == label(s) && label(t) + labels(t.skip(label(t))) == n && t.take(n) == s.take(n) }),
{
    label_has(s);
    let k = label(s); let u = s.skip(k);
    labels_ext(u, r);
    let m = labels(u); let n = k + m; let t = s.take(n) + r;
    if t.len() > k { if m > 0 { assert(t[k] == s[k]); assert(u[0] == s[k]); } else { assert(t[k] == r[0]); } }
    label_same(s, t);
    assert(t.skip(k) =~= u.take(m) + r);
    assert(t.take(n) =~= s.take(n));
}
// -- hosts
pub open spec fn dom_ok(d: DomV) -> bool { exists|s: Seq<u8>| (#[trigger] p_host(s)) is Done && p_host(s)->Done_1 == d }
pub proof fn tag_done(s: Seq<u8>, t: Seq<u8>)
    requires s.len() >= t.len(), forall|j: int| 0 <= j < t.len() ==> s[j] == t[j],
    ensures p_tag(s, t) == P::Done(t.len() as int, ()),
{}
pub proof fn tag_err(s: Seq<u8>, t: Seq<u8>, j: int)
    requires 0 <= j < s.len(), j < t.len(), s[j] != t[j],
    ensures p_tag(s, t) is Err,
{}
pub proof fn closed_done(x: Seq<u8>, r: Seq<u8>)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != 93,
    ensures p_closed(x + seq![93u8] + r) == P::Done(x.len() as int + 1, x),
{
    let t = x + seq![93u8] + r;
    close_at_is(t);
    let c = close_at(t);
    assert(t[x.len() as int] == 93);
    if c >= 0 && c < x.len() { assert(t[c] == x[c]); }
    assert(c == x.len());
    assert(t.take(c) =~= x);
}
pub proof fn host_ext(d: DomV, r: Seq<u8>)
    requires dom_ok(d), ends_name(r),
    ensures p_host(dom_wire(d) + r) == P::Done(dom_wire(d).len() as int, d), dom_wire(d).len() > 0,
{
    let s = choose|s: Seq<u8>| (#[trigger] p_host(s)) is Done && p_host(s)->Done_1 == d;
    let w = dom_wire(d); let t = w + r;
    match d {
        DomV::Host(h) => {
            assert(label(s) > 0) by { if label(s) <= 0 { assert(p_lit6(s) matches P::Done(_, v) ==> v is V6); assert(p_lit4(s) matches P::Done(_, v) ==> v is V4); } }
            name_ext(s, r);
        }
        DomV::V4(a) => {
            ip4_shown(a);
            let x = ip4_text(a);
            assert(t[0] == 91); assert(t[1] == x[0]);
            assert(label(t) == 0);
            tag_err(t, T_IP6(), 1);
            tag_done(t, T_IP4());
            closed_done(x, r);
            assert(t.skip(1) =~= x + seq![93u8] + r);
            assert(p_lit6(t) is Err);
        }
        DomV::V6(a) => {
            ip6_shown(a);
            let x = ip6_text(a);
            assert(t[0] == 91);
            assert(label(t) == 0);
            assert forall|j: int| 0 <= j < 6 implies t[j] == T_IP6()[j] by {}
            tag_done(t, T_IP6());
            closed_done(x, r);
            assert(t.skip(6) =~= x + seq![93u8] + r);
        }
    }
}
// E03: what a host is sent as parses to the same host
pub proof fn E03_round_trip(s: Seq<u8>, n: int, d: DomV)
    requires p_host(s) == P::Done(n, d),
    ensures p_host(dom_wire(d)) == P::Done(dom_wire(d).len() as int, d), d is Host ==> dom_wire(d) == s.take(n),
{
    host_ext(d, Seq::empty());
    assert(dom_wire(d) + Seq::<u8>::empty() =~= dom_wire(d));
    if d is Host { assert(label(s) > 0) by { if label(s) <= 0 { assert(p_lit6(s) matches P::Done(_, v) ==> v is V6); assert(p_lit4(s) matches P::Done(_, v) ==> v is V4); } } }
}
// -- local parts
pub open spec fn ends_dots(r: Seq<u8>) -> bool { r.len() == 0 || (r[0] != 46 && !atext(r[0])) }
pub proof fn atom_same(s: Seq<u8>, t: Seq<u8>)
    requires t.len() >= atom(s), forall|j: int| 0 <= j < atom(s) ==> t[j] == s[j], t.len() > atom(s) ==> !atext(t[atom(s)]),
    ensures atom(t) == atom(s),
{
    atom_are(s);
    assert forall|j: int| 0 <= j < atom(s) implies atext(#[trigger] t[j]) by { assert(atext(s[j])); }
    atom_unique(t, atom(s));
}
pub proof fn atoms_ext(s: Seq<u8>, r: Seq<u8>)
    requires ends_dots(r),
    ensures 0 <= atoms(s) <= s.len(), atoms(s.take(atoms(s)) + r) == atoms(s), atoms(s) > 0 ==> s[0] == 46,
    decreases s.len(),
{
    atoms_fit(s);
    let m = atoms(s);
    let t = s.take(m) + r;
    if s.len() > 0 && s[0] == 46 && atom(s.skip(1)) > 0 {
        let k = atom(s.skip(1));
        atom_are(s.skip(1));
        let u = s.skip(1 + k);
        atoms_ext(u, r);
        let m2 = atoms(u);
        assert(m == 1 + k + m2);
        let a = s.skip(1); let b = t.skip(1);
        assert forall|j: int| 0 <= j < k implies b[j] == a[j] by { assert(b[j] == t[j + 1]); }
        if b.len() > k { assert(b[k] == t[k + 1]); if m2 > 0 { assert(t[k + 1] == s[k + 1]); assert(u[0] == s[k + 1]); } else { assert(t[k + 1] == r[0]); } }
        atom_same(a, b);
        assert(t[0] == s[0]);
        assert(t.skip(1 + k) =~= u.take(m2) + r);
    } else {
        assert(t =~= r);
    }
}
pub proof fn qtext_ext(s: Seq<u8>, r: Seq<u8>)
    requires p_qtext(s) is Done, 0 <= p_qtext(s)->Done_0 < s.len(), s[p_qtext(s)->Done_0] == 34,
    ensures p_qtext(s.take(p_qtext(s)->Done_0 + 1) + r) == p_qtext(s),
    decreases s.len(),
{
    let k = p_qtext(s)->Done_0;
    let t = s.take(k + 1) + r;
    assert(t[0] == s[0]);
    if let P::Done(n, _) = p_qchar(s) {
        let u = s.skip(n);
        qtext_fits(u);
        let k2 = p_qtext(u)->Done_0;
        assert(k == n + k2);
        assert(u[k2] == s[k]);
        qtext_ext(u, r);
        assert(t[n - 1] == s[n - 1]);
        assert(t.skip(n) =~= u.take(k2 + 1) + r);
        assert(p_qchar(t) == p_qchar(s));
    } else {
        assert(k == 0);
        assert(p_qchar(t) is Err);
    }
}
pub open spec fn local_ok(l: Seq<u8>) -> bool { exists|s: Seq<u8>| (#[trigger] p_local(s)) is Done && l == s.take(p_local(s)->Done_0) }
pub proof fn local_ext(l: Seq<u8>, r: Seq<u8>)
    requires local_ok(l), ends_dots(r),
    ensures p_local(l + r) == P::Done(l.len() as int, ()), l.len() > 0, l[0] == 34 || atext(l[0]),
{
    let s = choose|s: Seq<u8>| (#[trigger] p_local(s)) is Done && l == s.take(p_local(s)->Done_0);
    let n = p_local(s)->Done_0;
    local_fits(s);
    let t = l + r;
    assert(t[0] == s[0]);
    if p_quoted(s) is Done {
        let u = s.skip(1); let k = p_qtext(u)->Done_0;
        assert(p_tag(s, T_QUOTE()) is Done);
        assert(s[0] == 34) by { if s[0] != 34 { tag_err(s, T_QUOTE(), 0); } }
        qtext_fits(u);
        let v = s.skip(1 + k);
        assert(p_tag(v, T_QUOTE()) is Done);
        assert(v.len() > 0);
        assert(v[0] == 34) by { if v[0] != 34 { tag_err(v, T_QUOTE(), 0); } }
        assert(n == k + 2);
        assert(u[k] == v[0]);
        qtext_ext(u, r);
        assert(t.skip(1) =~= u.take(k + 1) + r);
        tag_done(t, T_QUOTE());
        assert(t.skip(1 + k)[0] == t[1 + k]);
        assert(t[1 + k] == s[1 + k]);
        tag_done(t.skip(1 + k), T_QUOTE());
    } else {
        assert(p_quoted(s) is Err);
        let k = atom(s);
        atom_are(s);
        let u = s.skip(k);
        atoms_ext(u, r);
        let m = atoms(u);
        assert(n == k + m);
        if t.len() > k { if m > 0 { assert(t[k] == s[k]); assert(u[0] == s[k]); } else { assert(t[k] == r[0]); } }
        atom_same(s, t);
        assert(t.skip(k) =~= u.take(m) + r);
        tag_err(t, T_QUOTE(), 0);
    }
}
// -- addresses
pub open spec fn mail_ok(m: MailV) -> bool { local_ok(m.local) && (m.host matches Some(d) ==> dom_ok(d)) }
pub proof fn email_ok(s: Seq<u8>)
    ensures p_email(s) matches P::Done(_, m) ==> mail_ok(m),
{
    local_fits(s);
    if let P::Done(n, _) = p_local(s) { assert(p_local(s) == P::Done(n, ())); let t = s.skip(n); if let P::Done(k, d) = p_hop(t) { assert(p_host(t.skip(1)) == P::Done(k - 1, d)); } }
}
pub proof fn maybe_ok(s: Seq<u8>)
    ensures p_maybe(s) matches P::Done(_, m) ==> mail_ok(m),
{
    path_ok(s);
    path_ok(s.skip(1));
}
pub proof fn path_ok(s: Seq<u8>)
    ensures p_path(s) matches P::Done(_, m) ==> mail_ok(m),
{
    email_ok(s);
    if let P::Done(n, _) = p_route(s) { email_ok(s.skip(n)); }
}
// nothing, or what closes a path
pub open spec fn ends_mail(r: Seq<u8>) -> bool { r.len() == 0 || r[0] == 62 }
pub proof fn email_ext(m: MailV, r: Seq<u8>)
    requires mail_ok(m), ends_mail(r),
    ensures p_email(mail_wire(m) + r) == P::Done(mail_wire(m).len() as int, m), mail_wire(m).len() > 0, mail_wire(m)[0] == 34 || atext(mail_wire(m)[0]),
{
    let l = m.local;
    let t = mail_wire(m) + r;
    match m.host {
        None => {
            assert(mail_wire(m) =~= l);
            local_ext(l, r);
            assert(t.take(l.len() as int) =~= l);
            let u = t.skip(l.len() as int);
            assert(u =~= r);
            if r.len() > 0 { tag_err(u, T_AT(), 0); }
            assert(!(p_hop(u) is Done));
        }
        Some(d) => {
            let r2 = T_AT() + dom_wire(d) + r;
            assert(t =~= l + r2);
            assert(r2[0] == 64);
            local_ext(l, r2);
            assert(t.take(l.len() as int) =~= l);
            let u = t.skip(l.len() as int);
            assert(u =~= r2);
            tag_done(u, T_AT());
            host_ext(d, r);
            assert(u.skip(1) =~= dom_wire(d) + r);
        }
    }
    assert(mail_wire(m)[0] == l[0]);
}
// E02: what an address is sent as parses to the same address
pub proof fn E02_round_trip(s: Seq<u8>, n: int, m: MailV)
    requires p_email(s) == P::Done(n, m),
    ensures p_email(mail_wire(m)) == P::Done(mail_wire(m).len() as int, m),
{
    email_ok(s);
    email_ext(m, Seq::empty());
    assert(mail_wire(m) + Seq::<u8>::empty() =~= mail_wire(m));
}
// the address between < and >
pub proof fn angle_ext(m: MailV, r: Seq<u8>)
    requires mail_ok(m),
    ensures p_maybe(T_LT() + mail_wire(m) + T_GT() + r) == P::Done(mail_wire(m).len() as int + 2, m),
        p_sender(T_LT() + mail_wire(m) + T_GT() + r) == P::Done(mail_wire(m).len() as int + 2, Some(m)),
{
    hide(p_email); hide(mail_wire); hide(mail_ok);
    let w = mail_wire(m);
    let t = T_LT() + w + T_GT() + r;
    let r2 = T_GT() + r;
    let u = t.skip(1);
    assert(u =~= w + r2);
    assert(r2[0] == 62);
    email_ext(m, r2);
    tag_done(t, T_LT());
    assert(u[0] == w[0]);
    tag_err(u, T_AT(), 0);
    assert(p_hop(u) is Err);
    assert(p_route(u) is Err);
    assert(p_path(u) == P::Done(w.len() as int, m));
    let v = t.skip(1 + w.len() as int);
    assert(v =~= r2);
    tag_done(v, T_GT());
    assert(t[1] == w[0]);
    tag_err(t, T_NULL(), 1);
}
pub proof fn null_ext(r: Seq<u8>)
    ensures p_sender(T_LT() + Seq::<u8>::empty() + T_GT() + r) == P::Done(2, None::<MailV>),
{
    let t = T_LT() + Seq::<u8>::empty() + T_GT() + r;
    assert forall|j: int| 0 <= j < 2 implies t[j] == T_NULL()[j] by { if j == 0 {} else {} }
    tag_done(t, T_NULL());
}
