// ---- $T ----
pub open spec fn islz_$T(x: $T, r: u32) -> bool { r <= $BITS && (x == 0 <==> r == $BITS) && (x != 0 ==> pow2(($BITS - 1 - r) as nat) <= x < pow2(($BITS - r) as nat)) }
/// std: number of leading zero bits
#[verifier::external_body]
pub fn vlz_$T(x: $T) -> (r: u32)
    ensures islz_$T(x, r),
{ x.leading_zeros() }
pub open spec fn is2p_$T(x: $T) -> bool { exists|k: nat| k < $BITS && x == #[trigger] pow2(k) }
/// std: number of one bits (only its being 1 matters)
#[verifier::external_body]
pub fn vones_$T(x: $T) -> (r: u32)
    ensures r <= $BITS, r == 1 <==> is2p_$T(x),
{ x.count_ones() }
proof fn lemma_shr_$T(x: $T, b: u32)
    requires b < $BITS,
    ensures (x >> b) == x as int / (pow2(b as nat) as int), pow2(b as nat) > 0,
{
    let s = b as $T;
    assert((x >> b) == (x >> s)) by (bit_vector) requires b < $BITS, s == b as $T;
    lemma_pow2_pos(b as nat);
    lemma_$T_shr_is_div(x, s);
}
proof fn lemma_mask_$T(mask: $T, bits: nat)
    requires bits < $BITS, mask + 1 == pow2(bits),
    ensures forall|x: $T| #![trigger x & mask] x & mask == x as int % (pow2(bits) as int), pow2(bits) > 0,
{
    lemma_one_shl_$T(bits);
    assert(mask == sub((1 as $T) << (bits as $T), 1));
    assert forall|x: $T| #![trigger x & mask] x & mask == x as int % (pow2(bits) as int) by { lemma_and_mask_$T(x, bits); }
}
/// how many binary digits residues modulo p need, from the leading zero count
proof fn lemma_mbits_$T(p: $T, lz: u32)
    requires p >= 2, islz_$T(p, lz),
    ensures lz < $BITS, isnbits(p as int, ($BITS - lz - (if is2p_$T(p) { 1int } else { 0int })) as nat), is2p_$T(p) ==> $BITS - lz >= 2,
{
    let n = ($BITS - lz) as nat;
    lemma_pow2_pos((n - 1) as nat);
    if is2p_$T(p) {
        let k = choose|k: nat| k < $BITS && p == #[trigger] pow2(k);
        if k < n - 1 { lemma_pow2_mono(k, (n - 1) as nat); }
        if k > n - 1 { lemma_pow2_mono(n, k); }
        assert(k == n - 1);
        if k == 0 { lemma2_to64(); }
        lemma_pow2_mono((k - 1) as nat, k);
    } else {
        if p == pow2((n - 1) as nat) { assert(is2p_$T(p)); }
    }
}
/// what the constructor of the basis needs
proof fn lemma_basis_$T(p: $T, bits: u32)
    requires p >= 2, 1 <= bits < $BITS,
    ensures forall|lz: u32| #[trigger] islz_$T(p, lz) ==> lz < $BITS && ($BITS - lz < bits <==> p < pow2((bits - 1) as nat))
            && (is2p_$T(p) ==> $BITS - lz >= 2) && isnbits(p as int, ($BITS - lz - (if is2p_$T(p) { 1int } else { 0int })) as nat),
        (($MAXV as $T) >> sub($BITSu32, bits)) + 1 == pow2(bits as nat), ((1 as $T) << bits) == pow2(bits as nat), pow2(bits as nat) < $B,
{
    assert forall|lz: u32| #[trigger] islz_$T(p, lz) implies lz < $BITS && ($BITS - lz < bits <==> p < pow2((bits - 1) as nat))
            && (is2p_$T(p) ==> $BITS - lz >= 2) && isnbits(p as int, ($BITS - lz - (if is2p_$T(p) { 1int } else { 0int })) as nat) by {
        lemma_mbits_$T(p, lz);
        lemma_pow2_mono(($BITS - lz) as nat, (bits - 1) as nat); lemma_pow2_mono((bits - 1) as nat, ($BITS - lz - 1) as nat);
    }
    let s = bits as $T;
    lemma_one_shl_$T(bits as nat);
    assert(((1 as $T) << bits) == ((1 as $T) << s)) by (bit_vector) requires s == bits as $T, bits < $BITS;
    assert((($MAXV as $T) >> sub($BITSu32, bits)) == sub((1 as $T) << s, 1)) by (bit_vector) requires 1 <= bits < $BITS, s == bits as $T;
    lemma_pow2_mono(bits as nat, $BITS); lemma2_to64();
}
/// p has at least `bits` binary digits beyond the top one's place: p >= 2^bits
proof fn lemma_bits_$T(p: $T, bits: u32)
    requires p >= 2, 1 <= bits,
    ensures forall|lz: u32| #[trigger] islz_$T(p, lz) ==> lz < $BITS && (bits > $BITS - lz - (if is2p_$T(p) { 1int } else { 0int }) ==> p < pow2(bits as nat)),
{
    assert forall|lz: u32| #[trigger] islz_$T(p, lz) implies lz < $BITS && (bits > $BITS - lz - (if is2p_$T(p) { 1int } else { 0int }) ==> p < pow2(bits as nat)) by {
        lemma_mbits_$T(p, lz);
        lemma_pow2_mono(($BITS - lz) as nat, bits as nat);
        let n = ($BITS - lz) as nat;
    }
}
proof fn lemma_shus_$T(x: $T, b: usize)
    requires b < $BITS,
    ensures (x >> b) == (x >> (b as u32)),
{ let s = b as u32; assert((x >> b) == (x >> s)) by (bit_vector) requires b < $BITS, s == b as u32; }
