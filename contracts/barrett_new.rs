proof fn lemma_hi_$T(x: $T)
    ensures ((x as $W) << $BITSu32) as int == x * $B,
{
    assert(((x as $W) << $BITSu32) == (x as $W) * ($B as $W)) by (bit_vector);
}
proof fn lemma_half_$T(hi: $T, lo: $T)
    requires hi < $H, lo < $H,
    ensures (hi << $HALFu32) as int == hi * $H, ((hi << $HALFu32) | lo) as int == hi * $H + lo,
{
    assert((hi << $HALFu32) == mul(hi, ($H as $T)) && hi <= ($MAX as $T) / ($H as $T)) by (bit_vector) requires hi < $H;
    assert(((hi << $HALFu32) | lo) == add(hi << $HALFu32, lo) && (hi << $HALFu32) <= sub(($MAX as $T), ($MAX as $T) >> $HALFu32)) by (bit_vector) requires hi < $H, lo < $H;
    assert(($MAX as $T) >> $HALFu32 == ($H - 1) as $T) by (bit_vector);
}
proof fn lemma_lzb_$T(v: $T)
    ensures $T_leading_zeros(v) >= 2 <==> v < $Q, $T_leading_zeros(v) <= $BITS,
{
    axiom_$T_leading_zeros(v);
    let z = $T_leading_zeros(v) as $T;
    assert(((v >> sub(($BITS - 1) as $T, 0)) & 1 == 0 && (v >> sub(($BITS - 1) as $T, 1)) & 1 == 0) <==> v < $Q) by (bit_vector);
    assert(v < $Q ==> (v >> sub(($BITS - 1) as $T, 0)) & 1 == 0 && (v >> sub(($BITS - 1) as $T, 1)) & 1 == 0) by (bit_vector);
}
