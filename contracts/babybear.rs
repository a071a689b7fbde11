pub open spec fn ok_babybear(x: u32) -> bool { x < $PP }
/// the residue a Montgomery representative stands for: x / 2^32 mod P
pub open spec fn val_babybear(x: u32) -> int { (x * $RI) % $PP }
proof fn lemma_range_babybear(x: u32) ensures 0 <= val_babybear(x) < $PP { lemma_mod_bound(x * $RI, $PP); }
proof fn lemma_unit_babybear() ensures val_babybear(0) == 0, ok_babybear(0), P == $PP { lemma_small_mod(0, $PP as nat); assert(0 * $RI == 0); }
/// a representative below P stands for zero only if it is zero
proof fn lemma_val0_babybear(x: u32)
    ensures x < $PP && val_babybear(x) == 0 ==> x == 0, x == 0 ==> val_babybear(x) == 0,
{
    lemma_unit_babybear();
    if x < $PP && val_babybear(x) == 0 {
        lemma_mul_mod_noop_left(x * $RI, $B, $PP); assert(0 * $B == 0); lemma_small_mod(0, $PP as nat);
        assert((x * $RI) * $B == x * ($RI * $B)) by (nonlinear_arith);
        lemma_mul_mod_noop_right(x as int, $RI * $B, $PP);
        assert(($RI * $B) % $PP == 1) by (compute);
        lemma_small_mod(x as nat, $PP as nat);
    }
}
proof fn lemma_bb_zero() ensures ok_babybear(0), val_babybear(0) == 0 { lemma_unit_babybear(); }
proof fn lemma_mask(x: u64)
    ensures forall|y: u64| #[trigger] (y & 0xffff_ffff) == y % 0x1_0000_0000, forall|y: u64| #[trigger] (y >> 32u32) == y / 0x1_0000_0000,
{
    assert forall|y: u64| #[trigger] (y & 0xffff_ffff) == y % 0x1_0000_0000 by { assert(y & 0xffff_ffff == y % 0x1_0000_0000) by (bit_vector); }
    assert forall|y: u64| #[trigger] (y >> 32u32) == y / 0x1_0000_0000 by { assert(y >> 32u32 == y / 0x1_0000_0000) by (bit_vector); }
}
/// Montgomery reduction: x - t*P is a multiple of 2^32 for t = x * P^-1 mod 2^32
proof fn lemma_monty(x: u64)
    requires x < $PP * $B,
    ensures ({ let t = ((x * 0x88000001) % 0x1_0000_0000_0000_0000) % $B; let u = t * $PP; let d = x - u; let q = d / $B;
        0 <= t < $B && 0 <= u < $PP * $B && d == q * $B && -$PP < q < $PP
        && (d < 0 ==> (d + 0x1_0000_0000_0000_0000) / $B == q + $B)
        && ({ let r = if d < 0 { q + $PP } else { q }; 0 <= r < $PP && (r * $B - x) % $PP == 0 && r == (x * $RI) % $PP }) }),
{
    let y = x * 0x88000001;
    let t = (y % 0x1_0000_0000_0000_0000) % $B; let u = t * $PP; let d = x - u; let q = d / $B;
    lemma_mod_mod(y, $B, $B);
    lemma_fundamental_div_mod(y, $B); lemma_mod_bound(y, $B);
    let k = y / $B;
    assert(y == $B * k + t);
    // d = x - (y - B k) P = x - x MU P + B k P, and MU P = 1 + c B
    let c = (0x88000001 * $PP) / $B;
    assert(0x88000001 * $PP == 1 + c * $B) by (compute);
    assert(x * (1 + c * $B) == x + (x * c) * $B) by (nonlinear_arith);
    assert((x * 0x88000001) * $PP == x * (0x88000001 * $PP)) by (nonlinear_arith);
    assert(d == $B * (k * $PP - x * c)) by (nonlinear_arith) requires d == x - t * $PP, y == $B * k + t, y * $PP == x + (x * c) * $B;
    let w = k * $PP - x * c;
    lemma_fundamental_div_mod_converse(d, $B, w, 0);
    assert(q == w);
    assert(-$PP < q < $PP) by (nonlinear_arith) requires d == q * $B, d < $PP * $B, d >= -(t * $PP), t < $B, t >= 0, d == x - t * $PP, x >= 0;
    if d < 0 { lemma_fundamental_div_mod_converse(d + 0x1_0000_0000_0000_0000, $B, q + $B, 0); assert(q < 0) by (nonlinear_arith) requires d == q * $B, d < 0; }
    else { assert(q >= 0) by (nonlinear_arith) requires d == q * $B, d >= 0; }
    let r = if d < 0 { q + $PP } else { q };
    let e = if d < 0 { 1int } else { 0 };
    assert(r * $B - x == $PP * (e * $B - t)) by (nonlinear_arith) requires r == q + e * $PP, d == q * $B, d == x - t * $PP;
    lemma_fundamental_div_mod_converse(r * $B - x, $PP, e * $B - t, 0);
    // multiply by the inverse of 2^32
    assert(($B * $RI) % $PP == 1) by (compute);
    let c2 = ($B * $RI) / $PP;
    assert($B * $RI == $PP * c2 + 1) by (compute);
    assert(x * $RI == $PP * (r * c2 - (e * $B - t) * $RI) + r) by (nonlinear_arith) requires r * $B - x == $PP * (e * $B - t), $B * $RI == $PP * c2 + 1;
    lemma_fundamental_div_mod_converse(x * $RI, $PP, r * c2 - (e * $B - t) * $RI, r);
}
proof fn lemma_to(x: u32)
    ensures ({ let y = (x as u64) << 32u32; y == x * $B && val_babybear((y as int % $PP) as u32) == x as int % $PP }),
{
    let y = (x as u64) << 32u32;
    assert(y == (x as u64) * 0x1_0000_0000) by (bit_vector) requires y == (x as u64) << 32u32;
    lemma_mul_mod_noop_left(x * $B, $RI, $PP);
    assert((x * $B) * $RI == x * ($B * $RI)) by (nonlinear_arith);
    lemma_mul_mod_noop_right(x as int, $B * $RI, $PP);
    assert(($B * $RI) % $PP == 1) by (compute);
}
proof fn lemma_lin(a: int, b: int, s: int)
    ensures s == 1 ==> ((a + b) * $RI) % $PP == ((a * $RI) % $PP + (b * $RI) % $PP) % $PP, s == -1 ==> ((a - b) * $RI) % $PP == ((a * $RI) % $PP - (b * $RI) % $PP) % $PP,
        ((a + $PP) * $RI) % $PP == (a * $RI) % $PP, ((a - $PP) * $RI) % $PP == (a * $RI) % $PP,
{
    lemma_add_mod_noop(a * $RI, b * $RI, $PP); lemma_sub_mod_noop(a * $RI, b * $RI, $PP);
    assert((a + b) * $RI == a * $RI + b * $RI && (a - b) * $RI == a * $RI - b * $RI && (a + $PP) * $RI == a * $RI + $PP * $RI && (a - $PP) * $RI == a * $RI - $PP * $RI) by (nonlinear_arith);
    lemma_mod_shift((a + $PP) * $RI, a * $RI, $RI, $PP); lemma_mod_shift((a - $PP) * $RI, a * $RI, -$RI, $PP);
}
proof fn lemma_bb_add(a: u32, b: u32)
    ensures ({ let s = a + b; let r = if s >= $PP { s - $PP } else { s }; (r * $RI) % $PP == (val_babybear(a) + val_babybear(b)) % $PP }),
{ lemma_lin(a as int, b as int, 1); lemma_lin(a + b, 0, 1); }
proof fn lemma_bb_sub(a: u32, b: u32)
    ensures ({ let s = a - b; let r = if s < 0 { s + $PP } else { s }; (r * $RI) % $PP == (val_babybear(a) - val_babybear(b)) % $PP }),
{ lemma_lin(a as int, b as int, -1); lemma_lin(a - b, 0, 1); }
proof fn lemma_bb_mul(a: u32, b: u32)
    ensures a < $PP && b < $PP ==> a * b < $PP * $B, 0 <= a * b < $BB, forall|r: u32| r as int == (#[trigger] (a as int * b as int) * $RI) % $PP ==> #[trigger] val_babybear(r) == (val_babybear(a) * val_babybear(b)) % $PP,
{
    if a < $PP && b < $PP { assert(a * b < $PP * $B) by (nonlinear_arith) requires a < $PP, b < $PP; }
    assert(0 <= a * b < $BB) by (nonlinear_arith) requires 0 <= a < $B, 0 <= b < $B;
    assert forall|r: u32| r as int == (#[trigger] (a as int * b as int) * $RI) % $PP implies #[trigger] val_babybear(r) == (val_babybear(a) * val_babybear(b)) % $PP by {
        lemma_mul_mod_noop_left((a * b) * $RI, $RI, $PP);
        lemma_mul_mod_noop(a * $RI, b * $RI, $PP);
        assert(((a * b) * $RI) * $RI == (a * $RI) * (b * $RI)) by (nonlinear_arith);
    }
}
