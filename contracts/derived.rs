// ---- $X: the prime $PP --------------------------------------------------------------------
pub open spec fn ok_$X(x: $X) -> bool { x.0 < $PP }
pub open spec fn eval_$X(x: $X) -> int { x.0 as int }
/// Fermat's little theorem and primality of this constant: proved in contracts/lean/primes.lean ($F_fermat, $F_divisors)
#[verifier::external_body]
proof fn axiom_fermat_$X(a: int)
    requires a >= 0, a % $PP != 0,
    ensures pow(a, ($PP - 1) as nat) % $PP == 1,
{ }
#[verifier::external_body]
proof fn axiom_prime_$X(d: int)
    requires d > 0, $PP % d == 0,
    ensures d == 1 || d == $PP,
{ }
proof fn lemma_coprime_$X(x: $T)
    ensures 0 < x < $PP ==> isgcd(1, $PP, x as int),
{
    if 0 < x < $PP {
        assert forall|d: int| #[trigger] cdiv(d, $PP, x as int) implies 1int % d == 0 by {
            axiom_prime_$X(d);
            if d == $PP { lemma_small_mod(x as nat, $PP as nat); }
        }
        assert(x as int % 1 == 0 && $PP % 1 == 0);
        assert(cdiv(1, $PP, x as int));
    }
}
/// a^(p-2) is the inverse of a
proof fn lemma_inv_$X(a: int, r: int)
    requires 0 < a < $PP, r == pow(a, ($PP - 2) as nat) % $PP,
    ensures (a * r) % $PP == 1,
{
    lemma_small_mod(a as nat, $PP as nat);
    axiom_fermat_$X(a);
    lemma_pow_adds(a, ($PP - 2) as nat, 1); lemma_pow1(a);
    lemma_mul_mod_noop_left(pow(a, ($PP - 2) as nat), a, $PP);
    assert(a * r == r * a) by (nonlinear_arith);
}
