// -- parameters
pub open spec fn kv_ok(x: Kv) -> bool {
    label(x.0) == x.0.len() && x.0.len() > 0 && (x.1 matches Some(v) ==> v.len() > 0 && graphs(v) == v.len())
}
pub open spec fn kvs_ok(l: Seq<Kv>) -> bool { forall|i: int| 0 <= i < l.len() ==> kv_ok(#[trigger] l[i]) }
pub proof fn param_ok(s: Seq<u8>)
    ensures p_param(s) matches P::Done(n, x) ==> 0 < n <= s.len() && (n < s.len() ==> kv_ok(x)),
{
    param_fits(s);
    if let P::Done(n, x) = p_param(s) {
        blanks_are(s.skip(1));
        let b = 1 + blanks(s.skip(1));
        let t = s.skip(b);
        let k = label(t);
        label_has(t);
        let key = t.take(k);
        assert(key == x.0);
        label_same(t, key);
        let u = s.skip(b + k);
        value_fits(u);
        if n < s.len() && x.1 is Some {
            let v = u.skip(1);
            graphs_are(v);
            let g = v.take(graphs(v));
            assert(g == x.1->Some_0);
            assert forall|j: int| 0 <= j < g.len() implies graph_ne(#[trigger] g[j]) by { assert(graph_ne(v[j])); }
            graphs_unique(g, g.len() as int);
            assert(u.len() > 1);
        }
    }
}
pub proof fn params_ok(s: Seq<u8>)
    ensures p_params(s) matches P::Done(n, l) ==> 0 <= n <= s.len() && (n < s.len() ==> kvs_ok(l)),
    decreases s.len(),
{
    params_fit(s);
    if s.len() > 0 {
        param_ok(s);
        if let P::Done(n, x) = p_param(s) {
            let t = s.skip(n);
            params_ok(t);
            if let P::Done(k, l) = p_params(t) {
                if n + k < s.len() {
                    let l2 = seq![x] + l;
                    assert forall|i: int| 0 <= i < l2.len() implies kv_ok(#[trigger] l2[i]) by { if i > 0 { assert(l2[i] == l[i - 1]); } }
                }
            }
        }
    }
}
// what the map holds was in the list
pub proof fn map_from(l: Seq<Kv>, k: Seq<u8>)
    requires params_map(l).contains_key(k),
    ensures l.contains((k, params_map(l)[k])),
    decreases l.len(),
{
    if l.len() > 0 {
        let d = l.drop_last(); let x = l.last();
        if x.0 == k { assert(l[l.len() - 1] == (k, params_map(l)[k])); }
        else { map_from(d, k); let i = choose|i: int| 0 <= i < d.len() && d[i] == (k, params_map(d)[k]); assert(l[i] == (k, params_map(l)[k])); }
    }
}
// a list without repeated keys is in the map
pub open spec fn distinct(l: Seq<Kv>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
pub proof fn map_has(l: Seq<Kv>, i: int)
    requires distinct(l), 0 <= i < l.len(),
    ensures params_map(l).contains_key(l[i].0), params_map(l)[l[i].0] == l[i].1,
    decreases l.len(),
{
    let d = l.drop_last();
    if i < l.len() - 1 {
        assert forall|a: int, b: int| 0 <= a < b < d.len() implies (#[trigger] d[a]).0 != (#[trigger] d[b]).0 by { assert(l[a].0 != l[b].0); }
        map_has(d, i);
        assert(d[i] == l[i]);
        assert(l[i].0 != l[l.len() - 1].0);
    }
}
pub proof fn order_ok(l: Seq<Kv>, o: Seq<Kv>)
    requires kvs_ok(l), order_of(o, params_map(l)),
    ensures kvs_ok(o),
{
    assert forall|i: int| 0 <= i < o.len() implies kv_ok(#[trigger] o[i]) by {
        map_has(o, i);
        map_from(l, o[i].0);
        let j = choose|j: int| 0 <= j < l.len() && l[j] == (o[i].0, params_map(l)[o[i].0]);
        assert(kv_ok(l[j]));
        assert(l[j] == o[i]);
    }
}
pub open spec fn ends_param(r: Seq<u8>) -> bool { r.len() > 0 && (r[0] == 32 || r[0] == 13) }
pub proof fn param_ext(x: Kv, r: Seq<u8>)
    requires kv_ok(x), ends_param(r),
    ensures p_param(kv_wire(x) + r) == P::Done(kv_wire(x).len() as int, x), kv_wire(x).len() > 0, kv_wire(x)[0] == 32,
{
    let key = x.0; let n = key.len() as int;
    let w = kv_wire(x); let t = w + r;
    let e = match x.1 { Some(v) => seq![61u8] + v + r, None => r };
    assert(t =~= seq![32u8] + key + e);
    let t1 = t.skip(1);
    assert(t1 =~= key + e);
    label_has(key);
    assert(t1[0] == key[0]);
    blanks_unique(t1, 0);
    assert(t1.skip(0) =~= t1);
    assert(e[0] == 61 || e[0] == 32 || e[0] == 13);
    assert(t1[n] == e[0]);
    assert forall|j: int| 0 <= j < label(key) implies t1[j] == key[j] by {}
    label_same(key, t1);
    assert(t1.take(n) =~= key);
    let u = t.skip(1 + n);
    assert(u =~= e);
    match x.1 {
        Some(v) => {
            let y = e.skip(1);
            assert(y =~= v + r);
            graphs_are(v);
            assert forall|j: int| 0 <= j < v.len() implies graph_ne(#[trigger] y[j]) by { assert(y[j] == v[j]); assert(graph_ne(v[j])); }
            assert(y[v.len() as int] == r[0]);
            graphs_unique(y, v.len() as int);
            assert(y.take(v.len() as int) =~= v);
        }
        None => {}
    }
}
pub proof fn kvs_first(l: Seq<Kv>)
    requires l.len() > 0,
    ensures kvs_wire(l) == kv_wire(l[0]) + kvs_wire(l.skip(1)),
    decreases l.len(),
{
    let d = l.drop_last();
    if l.len() == 1 {
        assert(l.skip(1) =~= Seq::<Kv>::empty()); assert(d =~= Seq::<Kv>::empty());
        assert(Seq::<u8>::empty() + kv_wire(l[0]) =~= kv_wire(l[0]) + Seq::<u8>::empty());
    } else {
        kvs_first(d);
        assert(d.skip(1) =~= l.skip(1).drop_last());
        assert(l.skip(1).last() == l.last());
        let (a, b, c) = (kv_wire(l[0]), kvs_wire(d.skip(1)), kv_wire(l.last()));
        assert((a + b) + c =~= a + (b + c));
    }
}
pub proof fn params_ext(l: Seq<Kv>, r: Seq<u8>)
    requires kvs_ok(l), r.len() > 0, r[0] == 13,
    ensures p_params(kvs_wire(l) + r) == P::Done(kvs_wire(l).len() as int, l),
        l.len() > 0 ==> kvs_wire(l).len() > 0 && kvs_wire(l)[0] == 32,
    decreases l.len(),
{
    let t = kvs_wire(l) + r;
    if l.len() == 0 {
        assert(t =~= r);
        assert(l =~= Seq::<Kv>::empty());
        assert(p_param(t) is Err);
    } else {
        kvs_first(l);
        let k = l.skip(1);
        assert forall|i: int| 0 <= i < k.len() implies kv_ok(#[trigger] k[i]) by { assert(k[i] == l[i + 1]); }
        params_ext(k, r);
        let e = kvs_wire(k) + r;
        assert(ends_param(e)) by { if k.len() > 0 { assert(e[0] == kvs_wire(k)[0]); } else { assert(e[0] == r[0]); } }
        param_ext(l[0], e);
        let n = kv_wire(l[0]).len() as int;
        assert(t =~= kv_wire(l[0]) + e);
        assert(t.skip(n) =~= e);
        assert(seq![l[0]] + k =~= l);
        assert(kvs_wire(l)[0] == kv_wire(l[0])[0]);
    }
}
pub proof fn env_end_ext(l: Seq<Kv>)
    requires kvs_ok(l),
    ensures p_env_end(kvs_wire(l) + CRLF()) == P::Done(kvs_wire(l).len() as int + 2, params_map(l)),
{
    params_ext(l, CRLF());
    let t = kvs_wire(l) + CRLF(); let n = kvs_wire(l).len() as int;
    let u = t.skip(n);
    assert(u =~= CRLF());
    blanks_unique(u, 0);
    tag_done(u, CRLF());
}
// a command whose parameters were read had well-formed ones
pub proof fn env_end_ok(s: Seq<u8>)
    ensures p_env_end(s) matches P::Done(_, m) ==> p_params(s) is Done && m == params_map(p_params(s)->Done_1) && kvs_ok(p_params(s)->Done_1),
{
    params_ok(s);
    if let P::Done(n, m) = p_parmap(s) { let t = s.skip(n); blanks_are(t); if n == s.len() { assert(s.skip(n).len() == 0); assert(!(p_tag(s.skip(n + blanks(t)), CRLF()) is Done)); } }
}
// -- commands
pub proof fn word_ext(w: Seq<u8>, r: Seq<u8>)
    ensures p_word(w + r, w) == P::Done(w.len() as int, ()),
{
    let (a, b) = (lowered(w + r), lowered(w));
    assert forall|j: int| 0 <= j < b.len() implies a[j] == b[j] by {}
    tag_done(a, b);
}
pub proof fn simple_ext(w: Seq<u8>)
    ensures p_simple(w + CRLF(), w) == P::Done(w.len() as int + 2, ()),
{
    let t = w + CRLF();
    word_ext(w, CRLF());
    let u = t.skip(w.len() as int);
    assert(u =~= CRLF());
    blanks_unique(u, 0);
    tag_done(u, CRLF());
}
// the text of an argument, with what follows it
pub open spec fn text_ok(t: Seq<u8>) -> bool { crlf_at(t + CRLF()) == t.len() }
pub proof fn arg_ok(s: Seq<u8>)
    ensures p_arg(s) matches P::Done(_, t) ==> text_ok(t),
{
    if let P::Done(_, t) = p_arg(s) {
        let u = s.skip(1);
        crlf_at_is(u);
        let k = crlf_at(u);
        let e = t + CRLF();
        assert(e =~= u.take(k + 2)) by { assert(is_crlf_at(u, k)); }
        assert(is_crlf_at(e, k));
        assert forall|j: int| 0 <= j < k implies !#[trigger] is_crlf_at(e, j) by { assert(!is_crlf_at(u, j)); if is_crlf_at(e, j) { assert(e[j] == u[j]); assert(e[j + 1] == u[j + 1]); } }
        crlf_at_unique(e, k);
    }
}
pub proof fn none_ok()
    ensures text_ok(Seq::<u8>::empty()),
{ let e = Seq::<u8>::empty() + CRLF(); assert(is_crlf_at(e, 0)); crlf_at_unique(e, 0); }
pub proof fn free_ext(w: Seq<u8>, t: Seq<u8>)
    requires text_ok(t),
    ensures ({ let b = arg_wire(w, t); p_free(b, w) == P::Done(b.len() as int, t) && p_free_or_none(b, w) == P::Done(b.len() as int, t) }),
{
    let b = arg_wire(w, t);
    let n = w.len() as int;
    let e = t + CRLF();
    assert(b =~= w + (seq![32u8] + e));
    word_ext(w, seq![32u8] + e);
    let u = b.skip(n);
    assert(u =~= seq![32u8] + e);
    assert(u.skip(1) =~= e);
    assert(e.take(t.len() as int) =~= t);
    assert(p_arg(u) == P::Done(1 + t.len() as int, t));
    let v = b.skip(n + 1 + t.len() as int);
    assert(v =~= CRLF());
    tag_done(v, CRLF());
}
pub proof fn hello_ext(w: Seq<u8>, d: DomV)
    requires dom_ok(d), w.len() == 4, !blank(w[0]),
    ensures ({ let b = arg_wire(w, dom_wire(d)); p_hello(b, w) == P::Done(b.len() as int, d) }),
{
    hide(p_host); hide(dom_wire); hide(p_word); hide(dom_ok);
    let x = dom_wire(d);
    let b = arg_wire(w, x);
    let e = x + CRLF();
    host_ext(d, CRLF());
    host_first(d);
    assert(b =~= w + (seq![32u8] + e));
    assert(b[0] == w[0]);
    blanks_unique(b, 0);
    assert(b.skip(0) =~= b);
    word_ext(w, seq![32u8] + e);
    let u = b.skip(4);
    assert(u =~= seq![32u8] + e);
    assert(u[1] == x[0]);
    blanks_unique(u, 1);
    assert(p_sp_word(b, w) == P::Done(5, ()));
    let v = b.skip(5);
    assert(v =~= e);
    assert(v[0] == x[0]);
    blanks_unique(v, 0);
    assert(v.skip(0) =~= v);
    let y = v.skip(x.len() as int);
    assert(y =~= CRLF());
    blanks_unique(y, 0);
    assert(y.skip(0) =~= y);
    assert(p_sp_host(v) == P::Done(x.len() as int, d));
    let z = b.skip(5 + x.len() as int);
    assert(z =~= y);
    tag_done(y, CRLF());
    let q = y.skip(2);
    blanks_unique(q, 0);
    assert(p_sp_crlf(z) == P::Done(2, ()));
}
pub proof fn host_first(d: DomV)
    requires dom_ok(d),
    ensures dom_wire(d).len() > 0, !blank(dom_wire(d)[0]),
{
    let s = choose|s: Seq<u8>| (#[trigger] p_host(s)) is Done && p_host(s)->Done_1 == d;
    if d is Host {
        assert(label(s) > 0) by { if label(s) <= 0 { assert(p_lit6(s) matches P::Done(_, v) ==> v is V6); assert(p_lit4(s) matches P::Done(_, v) ==> v is V4); } }
        name_ext(s, Seq::empty());
        label_has(s);
    }
}
pub proof fn env_ext_word(w: Seq<u8>, r: Seq<u8>)
    requires r.len() > 0, r[0] == 60,
    ensures p_env_word(w + r, w) == P::Done(w.len() as int, ()), (w + r).skip(w.len() as int) == r,
{
    word_ext(w, r);
    assert((w + r).skip(w.len() as int) =~= r);
    blanks_unique(r, 0);
}
pub proof fn mail_ext(m: Option<MailV>, l: Seq<Kv>)
    requires m matches Some(v) ==> mail_ok(v), kvs_ok(l),
    ensures ({ let b = env_wire(W_MAIL(), sender_wire(m), l); p_mail(b) == P::Done(b.len() as int, (m, params_map(l))) }),
{
    hide(p_maybe); hide(p_sender); hide(p_env_end); hide(p_env_word); hide(p_word); hide(mail_wire); hide(kvs_wire); hide(kvs_ok); hide(params_map); hide(mail_ok);
    let a = sender_wire(m); let e = kvs_wire(l) + CRLF(); let w = W_MAIL();
    let b = env_wire(w, a, l);
    let t = T_LT() + a + T_GT() + e;
    assert(b =~= w + t);
    assert(t[0] == 60);
    env_ext_word(w, t);
    let k = a.len() as int + 2;
    match m { Some(v) => angle_ext(v, e), None => null_ext(e) }
    assert(p_sender(t) == P::Done(k, m));
    assert(b.skip(w.len() as int + k) =~= e);
    env_end_ext(l);
}
pub proof fn rcpt_ext(m: MailV, l: Seq<Kv>)
    requires mail_ok(m), kvs_ok(l),
    ensures ({ let b = env_wire(W_RCPT(), mail_wire(m), l); p_rcpt(b) == P::Done(b.len() as int, (m, params_map(l))) }),
{
    hide(p_maybe); hide(p_sender); hide(p_env_end); hide(p_env_word); hide(p_word); hide(mail_wire); hide(kvs_wire); hide(kvs_ok); hide(params_map); hide(mail_ok);
    let a = mail_wire(m); let e = kvs_wire(l) + CRLF(); let w = W_RCPT();
    let b = env_wire(w, a, l);
    let t = T_LT() + a + T_GT() + e;
    assert(b =~= w + t);
    assert(t[0] == 60);
    env_ext_word(w, t);
    angle_ext(m, e);
    assert(b.skip(w.len() as int + a.len() as int + 2) =~= e);
    env_end_ext(l);
}
// what the fields of a command that was read are like
pub open spec fn cmd_ok(c: CmdV) -> bool {
    match c {
        CmdV::Ehlo(d) => dom_ok(d), CmdV::Helo(d) => dom_ok(d),
        CmdV::Expn(t) => text_ok(t), CmdV::Vrfy(t) => text_ok(t), CmdV::Help(t) => text_ok(t), CmdV::Noop(t) => text_ok(t),
        CmdV::Mail(m, p) => (m matches Some(v) ==> mail_ok(v)) && exists|l: Seq<Kv>| p == #[trigger] params_map(l) && kvs_ok(l),
        CmdV::Rcpt(m, p) => mail_ok(m) && exists|l: Seq<Kv>| p == #[trigger] params_map(l) && kvs_ok(l),
        _ => true,
    }
}
pub proof fn hello_ok(s: Seq<u8>, w: Seq<u8>)
    ensures p_hello(s, w) matches P::Done(_, d) ==> dom_ok(d),
{
    if let P::Done(n, _) = p_sp_word(s, w) { let t = s.skip(n); let u = t.skip(blanks(t)); if p_sp_host(t) is Done { assert(p_host(u) is Done); } }
}
pub proof fn free_ok(s: Seq<u8>, w: Seq<u8>)
    ensures p_free(s, w) matches P::Done(_, t) ==> text_ok(t), p_free_or_none(s, w) matches P::Done(_, t) ==> text_ok(t),
{ none_ok(); if let P::Done(n, _) = p_word(s, w) { arg_ok(s.skip(n)); } }
pub proof fn env_ok(s: Seq<u8>)
    ensures
        p_mail(s) matches P::Done(_, x) ==> cmd_ok(CmdV::Mail(x.0, x.1)),
        p_rcpt(s) matches P::Done(_, x) ==> cmd_ok(CmdV::Rcpt(x.0, x.1)),
{
    hide(p_maybe); hide(p_env_end); hide(p_env_word);
    if let P::Done(n, _) = p_env_word(s, W_MAIL()) { let t = s.skip(n); maybe_ok(t); if let P::Done(k, _) = p_sender(t) { env_end_ok(s.skip(n + k)); } }
    if let P::Done(n, _) = p_env_word(s, W_RCPT()) { let t = s.skip(n); maybe_ok(t); if let P::Done(k, _) = p_maybe(t) { env_end_ok(s.skip(n + k)); } }
}
pub proof fn kind_ok(s: Seq<u8>, k: int)
    requires 0 <= k <= 10,
    ensures p_kind(s, k) matches P::Done(_, c) ==> cmd_ok(c),
{
    hide(p_mail); hide(p_rcpt); hide(p_hello); hide(p_free); hide(p_free_or_none); hide(p_simple);
    hello_ok(s, W_EHLO()); hello_ok(s, W_HELO()); env_ok(s);
    free_ok(s, W_EXPN()); free_ok(s, W_VRFY()); free_ok(s, W_HELP()); free_ok(s, W_NOOP());
}
pub proof fn kind_ext(c: CmdV, l: Seq<Kv>)
    requires cmd_ok(c), cmd_order(c, l),
    ensures is_cmd(cmd_wire(c, l), cmd_wire(c, l).len() as int, c),
{
    hide(p_mail); hide(p_rcpt); hide(p_hello); hide(p_free); hide(p_free_or_none); hide(p_simple); hide(kvs_ok); hide(params_map); hide(mail_ok); hide(mail_wire); hide(dom_ok); hide(text_ok);
    let b = cmd_wire(c, l); let n = b.len() as int;
    match c {
        CmdV::Data => { simple_ext(W_DATA()); assert(p_kind(b, 0) == P::Done(n, c)); }
        CmdV::Quit => { simple_ext(W_QUIT()); assert(p_kind(b, 7) == P::Done(n, c)); }
        CmdV::Rset => { simple_ext(W_RSET()); assert(p_kind(b, 9) == P::Done(n, c)); }
        CmdV::Ehlo(d) => { hello_ext(W_EHLO(), d); assert(p_kind(b, 1) == P::Done(n, c)); }
        CmdV::Helo(d) => { hello_ext(W_HELO(), d); assert(p_kind(b, 3) == P::Done(n, c)); }
        CmdV::Expn(t) => { free_ext(W_EXPN(), t); assert(p_kind(b, 2) == P::Done(n, c)); }
        CmdV::Vrfy(t) => { free_ext(W_VRFY(), t); assert(p_kind(b, 10) == P::Done(n, c)); }
        CmdV::Help(t) => { free_ext(W_HELP(), t); assert(p_kind(b, 4) == P::Done(n, c)); }
        CmdV::Noop(t) => { free_ext(W_NOOP(), t); assert(p_kind(b, 6) == P::Done(n, c)); }
        CmdV::Mail(m, p) => {
            let l0 = choose|l0: Seq<Kv>| p == #[trigger] params_map(l0) && kvs_ok(l0);
            order_ok(l0, l); mail_ext(m, l); assert(p_kind(b, 5) == P::Done(n, c));
        }
        CmdV::Rcpt(m, p) => {
            let l0 = choose|l0: Seq<Kv>| p == #[trigger] params_map(l0) && kvs_ok(l0);
            order_ok(l0, l); rcpt_ext(m, l); assert(p_kind(b, 8) == P::Done(n, c));
        }
    }
}
// C05: a command that was read, sent again in whatever order of parameters, is read as the same command
pub proof fn C05_round_trip(s: Seq<u8>, n: int, c: CmdV, l: Seq<Kv>)
    requires is_cmd(s, n, c), cmd_order(c, l),
    ensures is_cmd(cmd_wire(c, l), cmd_wire(c, l).len() as int, c),
{
    hide(p_kind);
    let k = choose|k: int| 0 <= k <= 10 && #[trigger] p_kind(s, k) == P::Done(n, c);
    kind_ok(s, k);
    kind_ext(c, l);
}
