proof fn lemma_shr_tz_$E(e: $E, k: nat)
    requires k < $EBITS, forall|j: $E| j < k ==> #[trigger] ((e >> j) & 1) == 0,
    ensures e == (e >> (k as $E)) * pow2(k),
    decreases k,
{
    if k == 0 { lemma_pow2_step(0); let z = k as $E; assert(e >> z == e) by (bit_vector) requires z == 0; }
    else {
        let j = (k - 1) as $E;
        lemma_shr_tz_$E(e, (k - 1) as nat);
        lemma_pow2_step((k - 1) as nat);
        assert((e >> j) & 1 == 0);
        assert((e >> j) == mul(2, e >> add(j, 1)) && (e >> add(j, 1)) <= ($EMAX as $E) / 2) by (bit_vector) requires j < $EBITS - 1, (e >> j) & 1 == 0;
        let h = (e >> add(j, 1)) as int; let q = pow2((k - 1) as nat) as int;
        assert((2 * h) * q == h * (2 * q)) by (nonlinear_arith);
    }
}
proof fn lemma_tz_$E(e: $E)
    requires e != 0,
    ensures ({ let tz = $E_trailing_zeros(e); tz < $EBITS && e == (e >> tz) * pow2(tz as nat) && (e >> tz) & 1 == 1 && (e >> tz) != 0 && (e >> tz) % 2 == 1 && (tz == 0 ==> e >> tz == e) && pow2(tz as nat) > 0 }),
{
    axiom_$E_trailing_zeros(e);
    let tz = $E_trailing_zeros(e);
    let t = tz as $E;
    lemma_shr_tz_$E(e, tz as nat);
    lemma_pow2_step(tz as nat);
    assert((e >> tz) == (e >> t)) by (bit_vector) requires t == tz as $E, tz < $EBITS;
    let h = e >> t;
    assert(h & 1 == 1 ==> h != 0 && h % 2 == 1) by (bit_vector);
    assert(e >> 0u32 == e) by (bit_vector);
}
proof fn lemma_shr_lz_$E(e: $E, k: nat)
    requires k < $EBITS, forall|j: $E| k <= j < $EBITS ==> #[trigger] ((e >> j) & 1) == 0,
    ensures e >> (k as $E) == 0,
    decreases $EBITS - k,
{
    let j = k as $E;
    assert((e >> j) & 1 == 0);
    if k == $EBITS - 1 { assert(e >> j == 0) by (bit_vector) requires j == $EBITS - 1, (e >> j) & 1 == 0; }
    else {
        lemma_shr_lz_$E(e, k + 1);
        assert(e >> j == 0) by (bit_vector) requires j < $EBITS - 1, (e >> j) & 1 == 0, e >> add(j, 1) == 0;
    }
}
proof fn lemma_lz_$E(e: $E)
    ensures ({ let lz = $E_leading_zeros(e); lz <= $EBITS && (e != 0 ==> lz < $EBITS) && e < pow2(($EBITS - lz) as nat) }),
{
    axiom_$E_leading_zeros(e);
    let lz = $E_leading_zeros(e);
    if lz == 0 { lemma2_to64(); }
    else {
        let k = ($EBITS - lz) as nat;
        lemma_shr_lz_$E(e, k);
        lemma_$E_shr_is_div(e, k as $E);
        lemma_pow2_pos(k);
        lemma_fundamental_div_mod(e as int, pow2(k) as int);
        lemma_mod_bound(e as int, pow2(k) as int);
        assert(e < pow2(k)) by (nonlinear_arith) requires e as int == pow2(k) * (e as int / pow2(k) as int) + e as int % pow2(k) as int, e as int / pow2(k) as int == 0, (e as int % pow2(k) as int) < pow2(k);
    }
}
proof fn lemma_half1_$E(e: $E)
    ensures e & 1 == e % 2, (e >> 1u32) == e / 2, (e >> 1i32) == e / 2,
{ assert(e & 1 == e % 2 && (e >> 1u32) == e / 2 && (e >> 1i32) == e / 2) by (bit_vector); }
