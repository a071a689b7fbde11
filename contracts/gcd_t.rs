proof fn lemma_or_tz_$E(x: $E, y: $E)
    requires x != 0, y != 0,
    ensures x | y != 0, ({ let s = $E_trailing_zeros(x | y); s < $EBITS && ((s == $E_trailing_zeros(x) && s <= $E_trailing_zeros(y)) || (s == $E_trailing_zeros(y) && s <= $E_trailing_zeros(x)))
        && ((x >> s) % 2 == 1 || (y >> s) % 2 == 1) && x == (x >> s) * pow2(s as nat) && y == (y >> s) * pow2(s as nat) && x >> s != 0 && y >> s != 0 }),
{
    let z = x | y;
    assert(z != 0) by (bit_vector) requires x != 0, z == x | y;
    axiom_$E_trailing_zeros(x); axiom_$E_trailing_zeros(y); axiom_$E_trailing_zeros(z);
    let s = $E_trailing_zeros(z); let t = $E_trailing_zeros(x); let w = $E_trailing_zeros(y);
    let (s1, t1, w1) = (s as $E, t as $E, w as $E);
    assert((z >> s1) & 1 == 1); assert((x >> t1) & 1 == 1); assert((y >> w1) & 1 == 1);
    if t1 < s1 { assert((z >> t1) & 1 == 0); assert((x >> t1) & 1 == 0) by (bit_vector) requires (z >> t1) & 1 == 0, z == x | y, t1 < $EBITS; }
    if w1 < s1 { assert((z >> w1) & 1 == 0); assert((y >> w1) & 1 == 0) by (bit_vector) requires (z >> w1) & 1 == 0, z == x | y, w1 < $EBITS; }
    if t1 > s1 && w1 > s1 { assert((x >> s1) & 1 == 0); assert((y >> s1) & 1 == 0); assert((z >> s1) & 1 == 0) by (bit_vector) requires (x >> s1) & 1 == 0, (y >> s1) & 1 == 0, z == x | y, s1 < $EBITS; }
    lemma_shr_tz_$E(x, s as nat); lemma_shr_tz_$E(y, s as nat);
    assert(x >> s == x >> s1 && y >> s == y >> s1) by (bit_vector) requires s1 == s as $E, s < $EBITS;
    let a = x >> s; let b = y >> s;
    assert(((a | b) & 1 == 1) ==> (a % 2 == 1 || b % 2 == 1)) by (bit_vector);
    assert((z >> s1) == (x >> s1) | (y >> s1)) by (bit_vector) requires z == x | y, s1 < $EBITS;
    lemma_pow2_pos(s as nat);
    if a == 0 { assert(0 * pow2(s as nat) == 0); }
    if b == 0 { assert(0 * pow2(s as nat) == 0); }
}
/// lowest set bit moved to position 0
proof fn lemma_odd_$E(m: $E)
    requires m != 0,
    ensures ({ let t = $E_trailing_zeros(m); t < $EBITS && (m >> t) % 2 == 1 && m == (m >> t) * pow2(t as nat) && m >> t != 0 && (m >> t) <= m }),
{
    lemma_tz_$E(m);
    let t = $E_trailing_zeros(m); let h = (m >> t) as int; let p = pow2(t as nat) as int;
    assert(h <= h * p) by (nonlinear_arith) requires h >= 0, p >= 1;
}
proof fn lemma_shl_$E(m: $E, s: nat)
    requires s < $EBITS, m * pow2(s) <= $EMAX,
    ensures m << (s as u32) == m * pow2(s),
{ lemma_$E_shl_is_mul(m, s as $E); let a = s as u32; let b = s as $E; assert(m << a == m << b) by (bit_vector) requires a < $EBITS, b == a as $E; }
proof fn lemma_shalf_$E(a: $S)
    requires a % 2 == 0, ensures (a >> 1u32) as int == a as int / 2, (a >> 1i32) as int == a as int / 2,
{ assert(((a >> 1i32) as int) * 2 + (a & 1) as int == a as int && ((a & 1) == 0 || (a & 1) == 1) && (a >> 1u32) == (a >> 1i32)) by (bit_vector); }
