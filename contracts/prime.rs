pub open spec fn dvd(d: int, n: int) -> bool { n % d == 0 }
pub open spec fn prime(n: int) -> bool { n >= 2 && forall|d: int| 2 <= d < n ==> !#[trigger] dvd(d, n) }
/// Fermat's little theorem (Lean: vprime_fermat)
#[verifier::external_body]
pub proof fn axiom_fermat(p: int, a: int) requires prime(p), 0 < a < p, ensures pow(a, (p - 1) as nat) % p == 1 { }
/// the only square roots of one modulo a prime (Lean: vprime_sqrt1)
#[verifier::external_body]
pub proof fn axiom_sqrt1(p: int, x: int) requires prime(p), 0 <= x < p, (x * x) % p == 1, ensures x == 1 || x == p - 1 { }
pub open spec fn fac(n: int, q: nat, r: nat) -> bool { q % 2 == 1 && q * pow2(r) == n - 1 }
pub open spec fn sqk(n: int, a: int, q: nat, k: nat) -> bool { pow(a, q * pow2(k)) % n == n - 1 }
/// a does not witness that n is composite (n is a strong probable prime to base a)
pub open spec fn passes(n: int, a: int) -> bool { exists|q: nat, r: nat| #[trigger] fac(n, q, r) && (pow(a, q) % n == 1 || exists|k: nat| k < r && #[trigger] sqk(n, a, q, k)) }
pub proof fn lemma_pass1(n: int, a: int, q: nat, r: nat) requires fac(n, q, r), r >= 1, pow(a, q) % n == 1 || pow(a, q) % n == n - 1, ensures passes(n, a)
{ lemma_pow2_step(0); assert(q * pow2(0) == q); assert(pow(a, q) % n == n - 1 ==> sqk(n, a, q, 0)); }
pub proof fn lemma_pass2(n: int, a: int, q: nat, r: nat, k: nat) requires fac(n, q, r), k < r, sqk(n, a, q, k), ensures passes(n, a) { }
/// squaring moves to the next power of two in the exponent
pub proof fn lemma_sqr(n: int, a: int, q: nat, k: nat, x: int) requires n > 0, x == pow(a, q * pow2(k)) % n, ensures (x * x) % n == pow(a, q * pow2(k + 1)) % n
{ let j = q * pow2(k); lemma_pow_mul_c(a, n, x, j, x, j, (x * x) % n); lemma_pow2_step(k); assert(q * pow2(k + 1) == j + j) by (nonlinear_arith) requires pow2(k + 1) == 2 * pow2(k), j == q * pow2(k); }
/// the last power: were n prime, the square before Fermat's one would be a root of one
pub proof fn lemma_last(n: int, a: int, q: nat, r: nat, x: int) requires fac(n, q, r), r >= 1, 0 < a < n, 0 <= x < n, x == pow(a, q * pow2((r - 1) as nat)) % n, x != 1, x != n - 1, ensures !prime(n)
{ if prime(n) { axiom_fermat(n, a); lemma_sqr(n, a, q, (r - 1) as nat, x); assert((r - 1) as nat + 1 == r); axiom_sqrt1(n, x); } }
pub proof fn lemma_root(n: int, x: int) requires 0 <= x < n, (x * x) % n == 1, x != 1, x != n - 1, ensures !prime(n)
{ if prime(n) { axiom_sqrt1(n, x); } }
pub proof fn lemma_nots(n: int) requires n > 61, prime(n),
    ensures n % 2 != 0, n % 3 != 0, n % 5 != 0, n % 7 != 0, n % 11 != 0, n % 13 != 0, n % 17 != 0, n % 19 != 0, n % 23 != 0, n % 29 != 0, n % 31 != 0, n % 37 != 0, n % 41 != 0, n % 43 != 0, n % 47 != 0, n % 53 != 0, n % 59 != 0, n % 61 != 0
{ assert(!dvd(2, n)); assert(!dvd(3, n)); assert(!dvd(5, n)); assert(!dvd(7, n)); assert(!dvd(11, n)); assert(!dvd(13, n)); assert(!dvd(17, n)); assert(!dvd(19, n)); assert(!dvd(23, n)); assert(!dvd(29, n)); assert(!dvd(31, n)); assert(!dvd(37, n)); assert(!dvd(41, n)); assert(!dvd(43, n)); assert(!dvd(47, n)); assert(!dvd(53, n)); assert(!dvd(59, n)); assert(!dvd(61, n)); }
pub open spec fn small(n: int) -> bool { n == 2 || n == 3 || n == 5 || n == 7 || n == 11 || n == 13 || n == 17 || n == 19 || n == 23 || n == 29 || n == 31 || n == 37 || n == 41 || n == 43 || n == 47 || n == 53 || n == 59 || n == 61 }
pub open spec fn nodiv(n: int, k: int) -> bool decreases k { if k <= 2 { true } else { n % (k - 1) != 0 && nodiv(n, k - 1) } }
pub proof fn lemma_nodiv(n: int, k: int) requires nodiv(n, k), ensures forall|d: int| 2 <= d < k ==> !#[trigger] dvd(d, n), decreases k { if k > 2 { lemma_nodiv(n, k - 1); } }
pub proof fn lemma_small(n: int) requires 0 <= n < 64, ensures prime(n) == small(n)
{
    assert(nodiv(2, 2) && nodiv(3, 3) && nodiv(5, 5) && nodiv(7, 7) && nodiv(11, 11) && nodiv(13, 13) && nodiv(17, 17) && nodiv(19, 19) && nodiv(23, 23) && nodiv(29, 29) && nodiv(31, 31) && nodiv(37, 37) && nodiv(41, 41) && nodiv(43, 43) && nodiv(47, 47) && nodiv(53, 53) && nodiv(59, 59) && nodiv(61, 61)) by (compute_only);
    if small(n) { lemma_nodiv(n, n); }
    else if n >= 2 { assert(dvd(2, n) || dvd(3, n) || dvd(5, n) || dvd(7, n)); }
}
pub proof fn lemma_mask(v: u64) requires v < 64, ensures (0x28208a20a08a28acu64 & (1u64 << v)) != 0 <==> small(v as int)
{ assert((0x28208a20a08a28acu64 & (1u64 << v)) != 0 <==> (v == 2 || v == 3 || v == 5 || v == 7 || v == 11 || v == 13 || v == 17 || v == 19 || v == 23 || v == 29 || v == 31 || v == 37 || v == 41 || v == 43 || v == 47 || v == 53 || v == 59 || v == 61)) by (bit_vector) requires v < 64; }
/// the random source: the k-th draw of a source started in state s
pub uninterp spec fn draw(s: int, lo: int, hi: int) -> int;
pub uninterp spec fn nexts(s: int) -> int;
pub open spec fn st(s: int, k: int) -> int decreases k { if k <= 0 { s } else { nexts(st(s, k - 1)) } }
/// the base of round i
pub open spec fn base(s: int, i: int, n: int) -> int { if i <= 0 { 2 } else { draw(st(s, i - 1), 3, n - 1) } }
#[verifier::external_body]
pub struct Rn { x: u64 }
pub uninterp spec fn rst(r: Rn) -> int;
#[verifier::external_body]
pub fn vseed() -> (r: Rn) { unimplemented!() }
/// every one of the first k rounds, each with its own draw, was passed
pub open spec fn allpass(n: int, s: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> passes(n, #[trigger] base(s, i, n)) }
pub proof fn lemma_odd(n: int, q: int, r: nat) requires n % 2 == 1, n > 1, q % 2 == 1, q * pow2(r) == n - 1, ensures r >= 1, pow2(r) >= 1
{ lemma_pow2_step(0); lemma_pow2_pos(r); if r == 0 { assert(q * 1 == q); } }
