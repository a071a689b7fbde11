/// `as` conversions; the impls are anchored to `value as T`
pub trait AsInto<T>: Sized { spec fn asi(self) -> T; fn as_into(self) -> (r: T) ensures r == self.asi(); }
/// any message type: its value as u64, and which values its `shrink` accepts (proved for every implementation below)
#[verifier::external_body]
#[derive(Copy)]
pub struct Msg { x: u64 }
impl Clone for Msg { #[verifier::external_body] fn clone(&self) -> (r: Msg) ensures r == *self { *self } }
pub uninterp spec fn mv(m: Msg) -> u64;
pub uninterp spec fn fits(c: u64) -> bool;
impl AsInto<u64> for Msg { open spec fn asi(self) -> u64 { mv(self) } #[verifier::external_body] fn as_into(self) -> (r: u64) { unimplemented!() } }
impl Msg {
    /// returns only for a value the type holds
    #[verifier::external_body]
    pub fn shrink(c: u64) -> (r: Msg) ensures fits(c), mv(r) == c { unimplemented!() }
}
pub open spec fn p2(v: int) -> bool { exists|k: nat| k < 64 && v == #[trigger] pow2(k) }
/// the residues of t and q the functions accept
pub open spec fn tq(t: u64, q: u64) -> bool { p2(t as int) && p2(q as int) && t < q }
pub open spec fn step(t: u64, q: u64) -> int { q as int / t as int }
/// nearest multiple of the step, as a message
pub open spec fn dec(c: int, t: u64, q: u64) -> int { ((2 * c + step(t, q)) / (2 * step(t, q))) % (t as int) }
pub proof fn lemma_tz(k: nat) requires k < 64, ensures u64_trailing_zeros((1u64 << (k as u64))) == k, (1u64 << (k as u64)) as int == pow2(k)
{
    lemma_one_shl_u64(k);
    let x = 1u64 << (k as u64);
    axiom_u64_trailing_zeros(x);
    let z = u64_trailing_zeros(x) as u64;
    let s = k as u64;
    assert(x == 1u64 << s);
    if z < s { assert((1u64 << s) >> z & 1u64 == 0) by (bit_vector) requires z < s, s < 64; }
    else if z > s { assert((1u64 << s) << sub(64, z) != 0) by (bit_vector) requires s < z, z < 64, s < 64; }
}
/// q / t is a power of two, t times it is q
pub proof fn lemma_tq(t: u64, q: u64)
    requires tq(t, q),
    ensures q == t * step(t, q), step(t, q) >= 2, step(t, q) % 2 == 0, step(t, q) <= q, t > 0, u64_trailing_zeros((q / t)) >= 1, u64_trailing_zeros((q / t)) < 64, pow2(u64_trailing_zeros((q / t)) as nat) == step(t, q),
        pow2((u64_trailing_zeros((q / t)) - 1) as nat) * 2 == step(t, q),
{
    let i = choose|k: nat| k < 64 && t as int == #[trigger] pow2(k);
    let j = choose|k: nat| k < 64 && q as int == #[trigger] pow2(k);
    lemma_pow2_pos(i); lemma_pow2_pos(j);
    if j <= i { if j < i { lemma_pow2_strictly_increases(j, i); } }
    let d = (j - i) as nat;
    lemma_pow2_adds(i, d); lemma_pow2_step((d - 1) as nat);
    let s = pow2(d) as int;
    assert(q as int == t as int * s);
    assert(s * t == t * s) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(q as int, t as int, s, 0);
    lemma_tz(d);
    assert((q / t) as int == s);
    assert(q / t == 1u64 << (d as u64));
    assert(s <= q) by (nonlinear_arith) requires q as int == t as int * s, t >= 1, s >= 0;
}
pub proof fn lemma_shl(m: u64, k: nat) requires k < 64, m * pow2(k) < 0x1_0000_0000_0000_0000, ensures m << (k as u64) == m * pow2(k), m << (k as u32) == m << (k as u64)
{
    lemma_one_shl_u64(k);
    lemma_pow2_pos(k);
    vstd::bits::lemma_u64_shl_is_mul(m, k as u64);
    assert(m << (k as u32) == m << (k as u64));
}
/// the low bit decides the rounding
pub proof fn lemma_round(c: int, h: int)
    requires c >= 0, h >= 1,
    ensures (2 * c + 2 * h) / (4 * h) == (c / h) / 2 + (c / h) % 2, (c / h) >= 0, c / h <= c,
{
    lemma_fundamental_div_mod(c, h); lemma_mod_bound(c, h); lemma_div_pos_is_pos(c, h);
    let a = c / h; let r = c % h;
    assert(a <= c) by (nonlinear_arith) requires c == h * a + r, r >= 0, h >= 1, a >= 0;
    let b = a / 2; let z = a % 2;
    assert(h * a == 2 * (h * b) + h * z) by (nonlinear_arith) requires a == 2 * b + z;
    assert(4 * h * (b + z) == 4 * (h * b) + 4 * (h * z)) by (nonlinear_arith);
    assert((b + z) * (4 * h) == 4 * (h * b) + 4 * (h * z)) by (nonlinear_arith);
    // 2c + 2h = 4hb + 2hz + 2r + 2h
    let hz = h * z;
    if z == 0 { assert(hz == 0) by (nonlinear_arith) requires hz == h * z, z == 0; lemma_fundamental_div_mod_converse(2 * c + 2 * h, 4 * h, b + z, 2 * r + 2 * h); }
    else { assert(hz == h) by (nonlinear_arith) requires hz == h * z, z == 1; lemma_fundamental_div_mod_converse(2 * c + 2 * h, 4 * h, b + z, 2 * r); }
}
pub proof fn lemma_mask(x: u64, t: u64) requires p2(t as int), ensures x & ((t - 1) as u64) == x as int % (t as int), t > 0
{
    let k = choose|k: nat| k < 64 && t as int == #[trigger] pow2(k);
    lemma_and_mask_u64(x, k); lemma_one_shl_u64(k);
}
/// C17: every error within half a step decodes to the message
pub proof fn thm_decode(m: int, e: int, t: u64, q: u64)
    requires tq(t, q), 0 <= m < t, -step(t, q) <= 2 * e < step(t, q),
    ensures dec((m * step(t, q) + e) % (q as int), t, q) == m,
{
    lemma_tq(t, q);
    let s = step(t, q);
    let x = m * s + e;
    let c = x % (q as int);
    lemma_fundamental_div_mod(x, q as int); lemma_mod_bound(x, q as int);
    let w = x / (q as int);
    // c = m s + e - w q = (m - w t) s + e
    assert(c == (m - w * t) * s + e) by (nonlinear_arith) requires c == m * s + e - q * w, q as int == t as int * s;
    let k = m - w * t;
    assert((2 * s) * k + (2 * e + s) == 2 * c + s) by (nonlinear_arith) requires c == k * s + e;
    assert(k * (2 * s) == (2 * s) * k) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(2 * c + s, 2 * s, k, 2 * e + s);
    lemma_mod_shift(m, k, w, t as int);
    lemma_small_mod(m as nat, t as nat);
}
