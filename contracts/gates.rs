/// sign of entry i of a look-up table that changes from -sg to sg at qt quarters of the dimension
pub open spec fn ent(n: int, qt: int, sg: int, i: int) -> int { if 4 * i < qt * n { -sg } else { sg } }
/// what index m modulo 2n reads: the table, negated in the upper half
pub open spec fn look(n: int, qt: int, sg: int, m: int) -> int { if m < n { ent(n, qt, sg, m) } else { -ent(n, qt, sg, m - n) } }
pub open spec fn pm(b: bool) -> int { if b { 1 } else { -1 } }
proof fn lemma_wrap(n: int, y: int, m: int) requires n > 0, m == y % (2 * n), -2 * n <= y < 4 * n ensures m == y || m == y + 2 * n || m == y - 2 * n
{
    if y < 0 { lemma_mod_shift0(y, y + 2 * n, 1, 2 * n); lemma_small_mod((y + 2 * n) as nat, (2 * n) as nat); }
    else if y < 2 * n { lemma_small_mod(y as nat, (2 * n) as nat); }
    else { lemma_mod_shift0(y, y - 2 * n, -1, 2 * n); lemma_small_mod((y - 2 * n) as nat, (2 * n) as nat); }
}
proof fn lemma_mod_shift0(x: int, y: int, k: int, q: int) requires q > 0, y == x + k * q ensures x % q == y % q
{ lemma_mod_multiples_vanish(k, x, q); assert(k * q + x == q * k + x) by (nonlinear_arith); }
/// the three tables: half-integer position x n / 2 of the encodings' sum, total error below an eighth of the modulus 2n
pub proof fn thm_and(n: int, sg: int, x: int, e: int, m: int)
    requires n >= 4, n % 4 == 0, -1 <= sg <= 1, 0 <= x <= 3, -n < 4 * e < n, m == (x * (n / 2) + e) % (2 * n),
    ensures look(n, 3, sg, m) == sg * pm(x >= 2),
{ assert(x * (n / 2) == 0 || x * (n / 2) == n / 2 || x * (n / 2) == n || x * (n / 2) == n + n / 2) by (nonlinear_arith) requires 0 <= x <= 3, n % 4 == 0; lemma_wrap(n, x * (n / 2) + e, m); small3(n, x); assert(sg * pm(x >= 2) == if x >= 2 { sg } else { -sg }) by (nonlinear_arith) requires true; }
proof fn small3(n: int, x: int) requires 0 <= x <= 3 ensures x == 0 ==> x * (n / 2) == 0, x == 1 ==> x * (n / 2) == n / 2, x == 2 ==> x * (n / 2) == 2 * (n / 2), x == 3 ==> x * (n / 2) == 3 * (n / 2) { }
pub proof fn thm_or(n: int, sg: int, x: int, e: int, m: int)
    requires n >= 4, n % 4 == 0, -1 <= sg <= 1, 0 <= x <= 2, -n < 4 * e < n, m == (x * (n / 2) + e) % (2 * n),
    ensures look(n, 1, sg, m) == sg * pm(x >= 1),
{ small3(n, x); lemma_wrap(n, x * (n / 2) + e, m); assert(sg * pm(x >= 1) == if x >= 1 { sg } else { -sg }) by (nonlinear_arith) requires true; }
pub proof fn thm_xor(n: int, sg: int, x: int, e: int, m: int)
    requires n >= 4, n % 4 == 0, -1 <= sg <= 1, x == -1 || x == 0 || x == 1, -n < 4 * e < n, m == (2 * x * (n / 2) + e) % (2 * n),
    ensures look(n, 2, sg, m) == sg * pm(x != 0),
{ assert(2 * x * (n / 2) == 0 || 2 * x * (n / 2) == n || 2 * x * (n / 2) == -n) by (nonlinear_arith) requires n % 4 == 0, x == -1 || x == 0 || x == 1; assert(x == 0 ==> 2 * x * (n / 2) == 0) by (nonlinear_arith); assert(x == 1 ==> 2 * x * (n / 2) == n) by (nonlinear_arith) requires n % 4 == 0; assert(x == -1 ==> 2 * x * (n / 2) == -n) by (nonlinear_arith) requires n % 4 == 0;
  lemma_wrap(n, 2 * x * (n / 2) + e, m); assert(sg * pm(x != 0) == if x != 0 { sg } else { -sg }) by (nonlinear_arith) requires true; }
