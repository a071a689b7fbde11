// ---- powers ------------------------------------------------------------------------------
proof fn lemma_pow_mul_c(b: int, m: int, p: int, j: nat, q: int, k: nat, r: int)
    requires m > 0, p == pow(b, j) % m, q == pow(b, k) % m, r == (p * q) % m,
    ensures r == pow(b, (j + k) as nat) % m,
{
    lemma_pow_adds(b, j, k);
    lemma_mod_twice(pow(b, j), m); lemma_mod_twice(pow(b, k), m);
    lemma_mul_mod_noop(p, q, m);
    lemma_mul_mod_noop(pow(b, j), pow(b, k), m);
}
