pub open spec fn ok_goldilocks(x: u64) -> bool { true }
/// any word stands for its residue
pub open spec fn val_goldilocks(x: u64) -> int { x as int % $PP }
proof fn lemma_range_goldilocks(x: u64) ensures 0 <= val_goldilocks(x) < $PP, x < $PP ==> val_goldilocks(x) == x { lemma_mod_bound(x as int, $PP); if x < $PP { lemma_small_mod(x as nat, $PP as nat); } }
proof fn lemma_unit_goldilocks() ensures val_goldilocks(0) == 0, val_goldilocks(1) == 1, P == $PP { lemma_small_mod(0, $PP as nat); lemma_small_mod(1, $PP as nat); }
proof fn lemma_val0_goldilocks(x: u64)
    ensures x == 0 || x == $PP <==> val_goldilocks(x) == 0,
{ lemma_canon($PP); lemma_range_goldilocks(x); }
/// x mod P is unchanged by multiples of P
proof fn lemma_shiftall()
    ensures forall|x: int, k: int| #![trigger (x + k * $PP) % $PP] (x + k * $PP) % $PP == x % $PP,
{ assert forall|x: int, k: int| #![trigger (x + k * $PP) % $PP] (x + k * $PP) % $PP == x % $PP by { lemma_mod_shift(x + k * $PP, x, k, $PP); } }
proof fn lemma_gl_add(a: u64, b: u64)
    ensures ({ let s = a + b; (s % $PP == (val_goldilocks(a) + val_goldilocks(b)) % $PP) && (s - $PP) % $PP == s % $PP && (s - 2 * $PP) % $PP == s % $PP }),
{
    let s = a + b;
    lemma_add_mod_noop(a as int, b as int, $PP);
    lemma_mod_shift(s - $PP, s, -1, $PP); lemma_mod_shift(s - 2 * $PP, s, -2, $PP);
    assert(1u64 << 32u64 == 0x1_0000_0000u64) by (bit_vector);
    assert(1u64 << 32i32 == 0x1_0000_0000u64) by (bit_vector);
}
proof fn lemma_gl_sub(a: u64, b: u64)
    ensures ({ let s = a - b; (s % $PP == (val_goldilocks(a) - val_goldilocks(b)) % $PP) && (s + $PP) % $PP == s % $PP && (s + 2 * $PP) % $PP == s % $PP }),
{
    let s = a - b;
    lemma_sub_mod_noop(a as int, b as int, $PP);
    lemma_mod_shift(s + $PP, s, 1, $PP); lemma_mod_shift(s + 2 * $PP, s, 2, $PP);
    lemma_gl_add(0, 0);
}
proof fn lemma_gl_neg(a: u64)
    ensures ({ let c = val_goldilocks(a); ($PP - c) % $PP == (-c) % $PP && 0 <= c < $PP }), val_goldilocks(0) == 0, (-0int) % $PP == 0, P == $PP,
{ let c = val_goldilocks(a); lemma_mod_shift($PP - c, -c, 1, $PP); lemma_unit_goldilocks(); lemma_range_goldilocks(a); }
proof fn lemma_gl_mul(a: u64, b: u64)
    ensures (a as u128 * b as u128) as int % $PP == (val_goldilocks(a) * val_goldilocks(b)) % $PP, 0 <= a * b < $BB,
{
    assert(0 <= a * b < $BB) by (nonlinear_arith) requires 0 <= a < $B, 0 <= b < $B;
    lemma_mul_mod_noop(a as int, b as int, $PP);
}
proof fn lemma_r96(lo: int, hi: int)
    requires 0 <= lo < $B, 0 <= hi < 0x1_0000_0000,
    ensures 0 <= hi * ($B - $PP) < 0x1_0000_0000 * 0x1_0000_0000, lo + hi * ($B - $PP) < $B + $PP,
       (lo + hi * ($B - $PP)) % $PP == (lo + hi * $B) % $PP, (lo + hi * ($B - $PP) - $PP) % $PP == (lo + hi * $B) % $PP,
{
    lemma_gl_add(0, 0);
    assert(hi * ($B - $PP) <= 0xffff_ffff * 0xffff_ffff);
    lemma_mod_shift(lo + hi * ($B - $PP), lo + hi * $B, -hi, $PP);
    lemma_mod_shift(lo + hi * ($B - $PP) - $PP, lo + hi * $B, -hi - 1, $PP);
}
proof fn lemma_split(x: u128)
    ensures (x as u64) as int == x as int % $B, (x >> 64u32) as int == x as int / $B, ((x >> 64u32) as u64) as int == x as int / $B, x as int == (x as int % $B) + (x as int / $B) * $B,
{
    assert((x as u64) as u128 == x % 0x1_0000_0000_0000_0000) by (bit_vector);
    assert((x >> 64u32) == x / 0x1_0000_0000_0000_0000 && ((x >> 64u32) as u64) as u128 == x / 0x1_0000_0000_0000_0000) by (bit_vector);
    lemma_fundamental_div_mod(x as int, $B);
}
proof fn lemma_r128()
    ensures P == $PP,
        forall|h: u64| #[trigger] (h >> 32u32) == h / 0x1_0000_0000, forall|h: u64| #[trigger] (h & 0xffff_ffff) == h % 0x1_0000_0000,
        forall|lo: u64, h: u64| ({ let hh = h as int / 0x1_0000_0000; let hl = h as int % 0x1_0000_0000; let x = #[trigger] (lo + h * $B); let t = lo - hh + hl * ($B - $PP);
            t % $PP == x % $PP && (t + $PP) % $PP == x % $PP && (t - $PP) % $PP == x % $PP && 0 <= hl * ($B - $PP) <= 0xffff_ffff * 0xffff_ffff && 0 <= hh <= 0xffff_ffff && 0 <= hl <= 0xffff_ffff }),
{
    lemma_gl_add(0, 0);
    assert forall|h: u64| #[trigger] (h >> 32u32) == h / 0x1_0000_0000 by { assert(h >> 32u32 == h / 0x1_0000_0000) by (bit_vector); }
    assert forall|h: u64| #[trigger] (h & 0xffff_ffff) == h % 0x1_0000_0000 by { assert(h & 0xffff_ffff == h % 0x1_0000_0000) by (bit_vector); }
    assert forall|lo: u64, h: u64| ({ let hh = h as int / 0x1_0000_0000; let hl = h as int % 0x1_0000_0000; let x = #[trigger] (lo + h * $B); let t = lo - hh + hl * ($B - $PP);
            t % $PP == x % $PP && (t + $PP) % $PP == x % $PP && (t - $PP) % $PP == x % $PP && 0 <= hl * ($B - $PP) <= 0xffff_ffff * 0xffff_ffff && 0 <= hh <= 0xffff_ffff && 0 <= hl <= 0xffff_ffff }) by {
        let hh = h as int / 0x1_0000_0000; let hl = h as int % 0x1_0000_0000; let x = lo + h * $B; let t = lo - hh + hl * ($B - $PP);
        let k = hl + hh * 0x1_0000_0001;
        assert(h == hh * 0x1_0000_0000 + hl);
        assert(x == t + k * $PP);
        lemma_mod_shift(x, t, k, $PP); lemma_mod_shift(t + $PP, t, 1, $PP); lemma_mod_shift(t - $PP, t, -1, $PP);
    }
}
