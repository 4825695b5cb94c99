// ---- theorems: the pieces are full except a non-empty last one, and join to the string ------
pub open spec fn join(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { join(v.drop_last()) + v.last() }
}
proof fn join_prefix(s: Seq<u8>, n: int, k: int)
    requires n >= 1, 0 <= k <= chunks(s.len() as int, n),
    ensures
        k * n >= 0,
        join(chunk_seq(s, n).take(k)) =~= s.take(if k * n <= s.len() { k * n } else { s.len() as int }),
    decreases k
{
    assert(0 * n == 0) by (nonlinear_arith);
    if k > 0 {
        join_prefix(s, n, k - 1);
        chunk_at(s.len() as int, n, k - 1);
        let v = chunk_seq(s, n).take(k);
        assert(v.drop_last() =~= chunk_seq(s, n).take(k - 1));
        assert(v.last() == chunk(s, n, k - 1));
        let a = (k - 1) * n; let b = if k * n <= s.len() { k * n } else { s.len() as int };
        assert((k - 1 + 1) * n == k * n);
        assert(v.last() =~= s.subrange(a, b));
        assert(join(v.drop_last()) =~= s.take(a));
        assert(s.take(a) + s.subrange(a, b) =~= s.take(b));
    }
}
proof fn vx_chunks_join(s: Seq<u8>, n: int)
    requires n >= 1,
    ensures
        join(chunk_seq(s, n)) == s,
        s.len() == 0 <==> chunk_seq(s, n).len() == 0,
        forall|i: int| 0 <= i < chunk_seq(s, n).len() - 1 ==> (#[trigger] chunk_seq(s, n)[i]).len() == n,
        chunk_seq(s, n).len() > 0 ==> 0 < chunk_seq(s, n).last().len() <= n,
{
    let c = chunks(s.len() as int, n);
    let len = s.len() as int;
    assert(len / n >= 0 && (len == 0 ==> len / n == 0 && len % n == 0)) by (nonlinear_arith) requires n >= 1, len >= 0;
    join_prefix(s, n, c);
    assert(chunk_seq(s, n).take(c) =~= chunk_seq(s, n));
    if c > 0 { chunk_at(len, n, c - 1); } else {
        assert(len == n * (len / n) + len % n) by (nonlinear_arith) requires n >= 1;
        assert(n * (len / n) == 0) by (nonlinear_arith) requires len / n == 0;
    }
    assert forall|i: int| 0 <= i < chunk_seq(s, n).len() - 1 implies (#[trigger] chunk_seq(s, n)[i]).len() == n by {
        chunk_at(len, n, i);
    }
}
