// value of a little-endian word sequence (radix $B)
pub open spec fn val_$T(s: Seq<$T>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { s[0] as int + $B * val_$T(s.subrange(1, s.len() as int)) }
}
proof fn lemma_val_step_$T(s: Seq<$T>, k: int)
    requires 0 <= k < s.len(),
    ensures val_$T(s.subrange(k, s.len() as int)) == s[k] as int + $B * val_$T(s.subrange(k + 1, s.len() as int)),
{
    let t = s.subrange(k, s.len() as int);
    assert(t.subrange(1, t.len() as int) =~= s.subrange(k + 1, s.len() as int));
}
proof fn lemma_val_one_$T(s: Seq<$T>, k: int)
    requires 0 <= k, k == s.len() - 1,
    ensures val_$T(s.subrange(k, s.len() as int)) == s[k] as int,
{
    lemma_val_step_$T(s, k);
    assert(s.subrange(k + 1, s.len() as int).len() == 0);
}
proof fn lemma_val_one2_$T(s: Seq<$T>)
    requires s.len() == 1,
    ensures val_$T(s) == s[0] as int,
{
    lemma_val_one_$T(s, 0);
    assert(s.subrange(0, s.len() as int) =~= s);
}
