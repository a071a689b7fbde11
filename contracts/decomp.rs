// ---- gadget decomposition: digits in base 2^bits ------------------------------------------------
pub open spec fn dig(x: int, bits: nat, i: nat) -> int { (x / (pow2(bits * i) as int)) % (pow2(bits) as int) }
pub open spec fn digsum(x: int, bits: nat, k: nat) -> int decreases k { if k == 0 { 0 } else { digsum(x, bits, (k - 1) as nat) + dig(x, bits, (k - 1) as nat) * pow2(bits * (k - 1) as nat) } }
/// the least n with p <= 2^n, the number of binary digits a residue modulo p needs
pub open spec fn isnbits(p: int, n: nat) -> bool { n >= 1 && pow2((n - 1) as nat) < p <= pow2(n) }
/// ceil(n / bits)
pub open spec fn isdlen(p: int, bits: nat, len: int) -> bool { exists|n: nat| #[trigger] isnbits(p, n) && len == (n + bits - 1) / (bits as int) }
proof fn lemma_pow2_succ(n: nat)
    ensures pow2(n + 1) == 2 * pow2(n), pow2(n) > 0,
{ lemma_pow2_unfold(n + 1); lemma_pow2_pos(n); }
proof fn lemma_pow2_mono(a: nat, b: nat)
    ensures a <= b ==> pow2(a) <= pow2(b), a < b ==> pow2(a) < pow2(b), pow2(a) > 0,
{
    lemma_pow2_pos(a);
    if a < b { lemma_pow2_strictly_increases(a, b); }
}
/// x / 2^(bits*i) stepped once
proof fn lemma_digstep(x: int, bits: nat, i: nat)
    requires x >= 0,
    ensures (x / (pow2(bits * i) as int)) / (pow2(bits) as int) == x / (pow2(bits * (i + 1)) as int), pow2(bits * (i + 1)) == pow2(bits * i) * pow2(bits),
        0 <= dig(x, bits, i) < pow2(bits), x / (pow2(bits * i) as int) >= 0,
{
    assert(bits * (i + 1) == bits * i + bits) by (nonlinear_arith);
    lemma_pow2_adds(bits * i, bits);
    lemma_pow2_pos(bits); lemma_pow2_pos(bits * i);
    lemma_div_denominator(x, pow2(bits * i) as int, pow2(bits) as int);
    lemma_mod_bound(x / (pow2(bits * i) as int), pow2(bits) as int);
    lemma_div_pos_is_pos(x, pow2(bits * i) as int);
}
proof fn lemma_dig0(x: int, bits: nat)
    ensures bits * 0 == 0, pow2(bits * 0) == 1, x / (pow2(bits * 0) as int) == x,
{ assert(bits * 0 == 0) by (nonlinear_arith); lemma2_to64(); }
/// a zero quotient gives zero digits from there on
proof fn lemma_digz(x: int, bits: nat, i: nat, j: nat)
    requires x >= 0, x / (pow2(bits * i) as int) == 0, j >= i,
    ensures dig(x, bits, j) == 0, x / (pow2(bits * j) as int) == 0,
{
    lemma_pow2_pos(bits * i); lemma_pow2_pos(bits);
    lemma_fundamental_div_mod(x, pow2(bits * i) as int); lemma_mod_bound(x, pow2(bits * i) as int);
    assert(bits * i <= bits * j) by (nonlinear_arith) requires i <= j;
    lemma_pow2_mono(bits * i, bits * j);
    assert(x < pow2(bits * j));
    lemma_basic_div(x, pow2(bits * j) as int);
    lemma_small_mod(0, pow2(bits));
}
/// the digits recompose
proof fn lemma_digsum(x: int, bits: nat, k: nat)
    requires x >= 0,
    ensures digsum(x, bits, k) == x % (pow2(bits * k) as int),
    decreases k,
{
    if k == 0 { lemma_dig0(x, bits); assert(x % 1 == 0); }
    else {
        let i = (k - 1) as nat;
        lemma_digsum(x, bits, i); lemma_digstep(x, bits, i);
        let a = pow2(bits * i) as int; let b = pow2(bits) as int; let q = x / a;
        lemma_pow2_pos(bits); lemma_pow2_pos(bits * i);
        lemma_fundamental_div_mod(x, a); lemma_fundamental_div_mod(q, b); lemma_mod_bound(x, a); lemma_mod_bound(q, b);
        let r = x % a; let d = q % b; let h = q / b;
        assert(x == (a * b) * h + (d * a + r)) by (nonlinear_arith) requires x == a * q + r, q == b * h + d;
        assert(0 <= d * a + r < a * b) by (nonlinear_arith) requires 0 <= d < b, 0 <= r < a;
        lemma_pow2_pos(bits * k);
        assert((a * b) * h == h * (a * b)) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(x, a * b, h, d * a + r);
    }
}
/// with the constructor's length the weighted digit sum is the element itself
proof fn lemma_recompose(p: int, x: int, bits: nat, len: nat)
    requires 0 <= x < p, bits >= 1, isdlen(p, bits, len as int),
    ensures digsum(x, bits, len) == x, x / (pow2(bits * len) as int) == 0,
{
    let n = choose|n: nat| #[trigger] isnbits(p, n) && len == (n + bits - 1) / (bits as int);
    lemma_fundamental_div_mod(n + bits - 1, bits as int); lemma_mod_bound(n + bits - 1, bits as int);
    assert(n <= bits * len) by (nonlinear_arith) requires n + bits - 1 == bits * len + (n + bits - 1) % (bits as int), (n + bits - 1) % (bits as int) < bits;
    lemma_pow2_mono(n, bits * len);
    lemma_digsum(x, bits, len);
    lemma_small_mod(x as nat, pow2(bits * len));
    lemma_basic_div(x, pow2(bits * len) as int);
}
proof fn lemma_nbits_unique(p: int, n: nat, m: nat)
    requires isnbits(p, n), isnbits(p, m),
    ensures n == m,
{
    if n < m { lemma_pow2_mono(n, (m - 1) as nat); } else if m < n { lemma_pow2_mono(m, (n - 1) as nat); }
}
pub fn vdivceil32(a: u32, n: u32) -> (r: u32)
    requires n > 0,
    ensures r as int == (a + n - 1) / (n as int),
{
    proof { lemma_divceil(a as int, n as int); }
    if a % n == 0 { a / n } else { a / n + 1 }
}
