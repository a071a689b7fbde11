proof fn lemma_one_shl_$T(k: nat)
    requires k < $BITS,
    ensures (1 as $T) << (k as $T) == pow2(k), pow2(k) > 0, (1 as $T) << (k as $T) > 0,
    decreases k,
{
    let s = k as $T;
    if k == 0 { lemma_pow2_step(0); assert((1 as $T) << s == 1) by (bit_vector) requires s == 0; }
    else {
        lemma_one_shl_$T((k - 1) as nat); lemma_pow2_step((k - 1) as nat);
        let p = sub(s, 1);
        assert((1 as $T) << s == mul(2, (1 as $T) << p) && (1 as $T) << p <= ($MAXV as $T) / 2 && (1 as $T) << s > 0) by (bit_vector) requires 1 <= s < $BITS, p == sub(s, 1);
    }
}
proof fn lemma_and_mask_$T(x: $T, k: nat)
    requires k < $BITS,
    ensures x & sub((1 as $T) << (k as $T), 1) == x as int % pow2(k) as int, pow2(k) > 0,
    decreases k,
{
    let s = k as $T;
    lemma_one_shl_$T(k);
    if k == 0 { lemma_pow2_step(0); assert(x & sub((1 as $T) << s, 1) == 0) by (bit_vector) requires s == 0; }
    else {
        lemma_and_mask_$T(x >> 1, (k - 1) as nat); lemma_pow2_step((k - 1) as nat);
        let p = sub(s, 1);
        let y = (x >> 1) & sub((1 as $T) << p, 1);
        assert(x & sub((1 as $T) << s, 1) == add(mul(2, y), x & 1) && y <= ($MAXV as $T) / 2 && (x & 1) <= 1 && (x >> 1) == x / 2 && (x & 1) == x % 2) by (bit_vector) requires 1 <= s < $BITS, p == sub(s, 1), y == (x >> 1) & sub((1 as $T) << p, 1);
        let q = pow2((k - 1) as nat) as int;
        let h = x as int / 2; let r = x as int % 2;
        lemma_fundamental_div_mod(h, q); lemma_mod_bound(h, q);
        assert(x as int == (2 * q) * (h / q) + (2 * (h % q) + r)) by (nonlinear_arith) requires x as int == 2 * h + r, h == q * (h / q) + h % q;
        assert((2 * q) * (h / q) == (h / q) * (2 * q)) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(x as int, 2 * q, h / q, 2 * (h % q) + r);
    }
}
