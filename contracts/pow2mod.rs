pub open spec fn is2_$T(v: int) -> bool { exists|k: nat| 1 <= k < $BITS && v == #[trigger] pow2(k) }
pub open spec fn wf2_$T(m: PowOf2Modulus<$T>) -> bool { is2_$T(m.mask + 1) }
/// everything the masked wrapping operations need
proof fn lemma_pm_$T(m: PowOf2Modulus<$T>)
    requires wf2_$T(m),
    ensures m.mask + 1 >= 2, forall|x: $T| #![trigger x & m.mask] x & m.mask == x as int % (m.mask + 1),
        forall|x: int| #![trigger x % $BIGB] (x % $BIGB) % (m.mask + 1) == x % (m.mask + 1),
{
    let k = choose|k: nat| 1 <= k < $BITS && m.mask + 1 == #[trigger] pow2(k);
    lemma_one_shl_$T(k);
    lemma_pow2_step((k - 1) as nat); lemma_pow2_pos((k - 1) as nat);
    assert(m.mask == sub((1 as $T) << (k as $T), 1));
    assert forall|x: $T| #![trigger x & m.mask] x & m.mask == x as int % (m.mask + 1) by { lemma_and_mask_$T(x, k); }
    lemma_pow2_adds(k, ($BITS - k) as nat);
    lemma_pow2_pos(($BITS - k) as nat);
    lemma_b_$T();
    assert forall|x: int| #![trigger x % $BIGB] (x % $BIGB) % (m.mask + 1) == x % (m.mask + 1) by { lemma_mod_mod(x, m.mask + 1, pow2(($BITS - k) as nat) as int); }
}
proof fn lemma_b_$T() ensures pow2($BITS) == $BIGB { lemma2_to64(); lemma_pow2_adds(64, 64); }
proof fn lemma_wrap_$T(x: int, r: int)
    requires 0 <= r < $BIGB, r == x || r == x + $BIGB || r == x - $BIGB,
    ensures r == x % $BIGB,
{
    lemma_small_mod(r as nat, $BIGB as nat);
    if r == x + $BIGB { lemma_mod_shift(r, x, 1, $BIGB); } else if r == x - $BIGB { lemma_mod_shift(r, x, -1, $BIGB); }
}
