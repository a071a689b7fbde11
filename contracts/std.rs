// ---- trusted: panic never returns; std integer functions (contracts of the standard library) ----
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }
#[verifier::external_body]
pub fn vdiverge() -> !
{ panic!() }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vsatsub(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { 0 } else { a - b }) { if a < b { 0 } else { a - b } }

pub fn vdivceil(a: usize, n: usize) -> (r: usize)
    requires n > 0,
    ensures r as int == (a + n - 1) / (n as int), r as int == (if a % n == 0 { a as int / n as int } else { a as int / n as int + 1 }),
{
    proof { lemma_divceil(a as int, n as int); }
    if a % n == 0 { a / n } else { a / n + 1 }
}
proof fn lemma_divceil(a: int, n: int)
    requires a >= 0, n > 0,
    ensures (a + n - 1) / n == (if a % n == 0 { a / n } else { a / n + 1 }), a % n != 0 ==> a / n + 1 <= a,
{
    lemma_fundamental_div_mod(a, n); lemma_mod_bound(a, n); lemma_div_pos_is_pos(a, n);
    let q = a / n; let r = a % n;
    assert(n * q == q * n) by (nonlinear_arith);
    if r == 0 { lemma_fundamental_div_mod_converse(a + n - 1, n, q, n - 1); }
    else { assert((q + 1) * n == n * q + n) by (nonlinear_arith); lemma_fundamental_div_mod_converse(a + n - 1, n, q + 1, r - 1);
        assert(q + 1 <= a) by (nonlinear_arith) requires a == n * q + r, r >= 1, n > 0, q >= 0; }
}
/// the i-th piece of `chunks(n)`
pub fn vchunk_up<T>(s: &[T], i: usize, n: usize) -> (r: &[T])
    requires n > 0, i * n < s@.len(),
    ensures r@ == s@.subrange(i * n, if (i + 1) * n <= s@.len() { (i + 1) * n } else { s@.len() as int }), 1 <= r@.len() <= n, r@.len() == (if (i + 1) * n <= s@.len() { n as int } else { s@.len() - i * n }),
{
    proof { assert((i + 1) * n == i * n + n) by (nonlinear_arith); }
    let lo = i * n;
    let hi = if s.len() - lo >= n { lo + n } else { s.len() };
    slice_subrange(s, lo, hi)
}
