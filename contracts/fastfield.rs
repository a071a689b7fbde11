// ---- facts about the constant modulus of $F ----------------------------------------------
pub open spec fn pw_$F(r: $T, v: int, k: int) -> bool { ok_$F(r) && k >= 0 && val_$F(r) == pow(v, k as nat) % $PP }
/// a product of powers, and repeated squaring of a power
proof fn lemma_pw_mul_$F(a: $T, b: $T, r: $T)
    requires ok_$F(r), val_$F(r) == (val_$F(a) * val_$F(b)) % $PP,
    ensures forall|v: int, j: int, k: int| #[trigger] pw_$F(a, v, j) && #[trigger] pw_$F(b, v, k) ==> pw_$F(r, v, j + k),
{
    assert forall|v: int, j: int, k: int| #[trigger] pw_$F(a, v, j) && #[trigger] pw_$F(b, v, k) implies pw_$F(r, v, j + k) by {
        lemma_pow_mul_c(v, $PP, val_$F(a), j as nat, val_$F(b), k as nat, val_$F(r));
    }
}
proof fn lemma_pow_pow_mod_$F(v: int, j: nat, e: nat, p: int)
    requires p == pow(v, j) % $PP,
    ensures pow(p, e) % $PP == pow(v, (j * e) as nat) % $PP,
{ lemma_pow_multiplies(v, j, e); lemma_pow_mod_noop(pow(v, j), e, $PP); }
pub open spec fn sq_$F(a: $T, r: $T, n: u32, e: int) -> bool { forall|v: int, j: int| #[trigger] pw_$F(a, v, j) ==> pw_$F(r, v, j * e) }
proof fn lemma_sq_$F(a: $T, r: $T, n: u32)
    requires ok_$F(r), val_$F(r) == pow(val_$F(a), pow2(n as nat)) % $PP,
    ensures forall|v: int, j: int| #[trigger] pw_$F(a, v, j) ==> pw_$F(r, v, j * pow2(n as nat)),
{
    assert forall|v: int, j: int| #[trigger] pw_$F(a, v, j) implies pw_$F(r, v, j * pow2(n as nat)) by {
        lemma_pow_pow_mod_$F(v, j as nat, pow2(n as nat), val_$F(a));
        assert(j * pow2(n as nat) >= 0) by (nonlinear_arith) requires j >= 0;
    }
}
pub open spec fn dsum_$F(a: Seq<$T>, b: Seq<$T>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { dsum_$F(a, b, k - 1) + val_$F(a[k - 1]) * val_$F(b[k - 1]) } }
proof fn lemma_one_$F(x: $T)
    ensures ok_$F(x) ==> pw_$F(x, val_$F(x), 1),
{ lemma_pow1(val_$F(x)); lemma_range_$F(x); lemma_small_mod(val_$F(x) as nat, $PP as nat); }
/// a^(p-2) is the inverse of a
proof fn lemma_inv_$F(x: $T, r: $T)
    requires val_$F(x) != 0, pw_$F(r, val_$F(x), $PP - 2),
    ensures (val_$F(x) * val_$F(r)) % $PP == 1, ok_$F(r), val_$F(r) != 0,
{
    let v = val_$F(x);
    lemma_range_$F(x); lemma_small_mod(v as nat, $PP as nat);
    axiom_fermat_$F(v);
    lemma_pow_adds(v, ($PP - 2) as nat, 1); lemma_pow1(v);
    lemma_mul_mod_noop(pow(v, ($PP - 2) as nat), v, $PP);
    lemma_mod_twice(pow(v, ($PP - 2) as nat), $PP);
    assert(v * val_$F(r) == val_$F(r) * v) by (nonlinear_arith);
    if val_$F(r) == 0 { assert(v * 0 == 0); lemma_small_mod(0, $PP as nat); }
}
proof fn lemma_zero_$F(x: $T, r: $T)
    requires val_$F(x) == 0, pw_$F(r, val_$F(x), $PP - 2), ensures val_$F(r) == 0,
{ lemma0_pow(($PP - 2) as nat); lemma_small_mod(0, $PP as nat); }
/// Fermat's little theorem for this prime: proved in contracts/lean/primes.lean ($F_fermat)
#[verifier::external_body]
proof fn axiom_fermat_$F(a: int)
    requires a >= 0, a % $PP != 0,
    ensures pow(a, ($PP - 1) as nat) % $PP == 1,
{ }
proof fn lemma_divc_$F(a: int, b: int, i: int, q: int)
    requires 0 <= a < $PP, 0 <= b < $PP, (b * i) % $PP == 1, q == (a * i) % $PP, ensures (q * b) % $PP == a,
{
    lemma_mul_mod_noop_left(a * i, b, $PP);
    assert((a * i) * b == a * (b * i)) by (nonlinear_arith);
    lemma_mul_mod_noop_right(a, b * i, $PP);
    lemma_small_mod(a as nat, $PP as nat);
}
