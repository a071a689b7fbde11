proof fn lemma_pow2_step(k: nat)
    ensures pow2((k + 1) as nat) == 2 * pow2(k), pow2(0) == 1, pow2(k) > 0,
{ lemma_pow2_unfold((k + 1) as nat); lemma_pow2_pos(k); lemma2_to64(); }
