// ---- the facts the other properties use, stated with the text of absntt.rs -------------------------
/// the root and 1/n of the table of size 2^k
pub uninterp spec fn rt(k: nat) -> int;
pub uninterp spec fn nv(k: nat) -> int;
pub open spec fn supported(k: nat) -> bool { isroot(rt(k), pow2(k) as int) && cg(pow2(k) * nv(k), 1) }
pub open spec fn lg(n: nat) -> nat { choose|k: nat| n == #[trigger] pow2(k) && supported(k) }
pub open spec fn ntt(a: Seq<int>) -> Seq<int> { nttx(rt(lg(a.len())), lg(a.len()), a) }
pub open spec fn intt(a: Seq<int>) -> Seq<int> { inttx(rt(lg(a.len())), lg(a.len()), nv(lg(a.len())), a) }
pub proof fn lemma_lin3(a: Seq<int>, b: Seq<int>, c: int)
    requires a.len() == b.len(),
    ensures lin(a, b, 1) == padd(a, b), lin(a, b, -1) == psub(a, b), scl(a, -1) == pneg(a), scl(a, c) == pscale(a, c), isres(padd(a, b)), isres(psub(a, b)), isres(pneg(a)), isres(pscale(a, c)), isres(pmul(a, b)), pmul(a, b) == pmul(b, a),
{
    lemma_mod_all();
    assert(lin(a, b, 1) =~= padd(a, b)); assert(lin(a, b, -1) =~= psub(a, b)); assert(scl(a, -1) =~= pneg(a)); assert(scl(a, c) =~= pscale(a, c));
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] pmul(a, b)[i] == pmul(b, a)[i] by { lemma_mul_is_commutative(a[i], b[i]); }
    assert(pmul(a, b) =~= pmul(b, a));
}
@THM_NTT
{
    let k = lg(a.len()); let x = rt(k); let w = nv(k);
    assert(pow2(k) == a.len() && supported(k));
    let (A, B) = (nttx(x, k, a), nttx(x, k, b));
    theorem_inverse(x, k, w, a); theorem_inverse(x, k, w, b);
    theorem_product(x, k, a, b); theorem_product(x, k, b, a);
    lemma_lin3(A, B, 0); lemma_lin3(a, b, 0);
    theorem_inverse(x, k, w, negmul(a, b)); theorem_inverse(x, k, w, negmul(b, a));
    lemma_fwd_lin(x, k, k, a, b, 1); lemma_fwd_lin(x, k, k, a, b, -1); lemma_fwd_scl(x, k, k, a, -1);
}
@THM_SCALE
{
    let k = lg(a.len()); let x = rt(k);
    assert(pow2(k) == a.len() && supported(k));
    lemma_fwd_scl(x, k, k, a, c); lemma_lin3(a, a, c); lemma_lin3(nttx(x, k, a), nttx(x, k, a), c); lemma_fwd_res(x, k, k, a);
}
@MONO
pub open spec fn mr(n: nat, r: int) -> Seq<int> { Seq::new(n, |i: int| mono(n, r)[i] % P()) }
/// the direct transform of a monomial
pub proof fn theorem_mono_pv(n: nat, k: nat, d: int)
    requires ringn(n), n == pow2(k), k == lg(n), 0 <= d <= 2 * n,
    ensures monon(rt(k), k, -1, d) == ntt(pneg(mr(n, d))), monon(rt(k), k, 1, d) == ntt(mr(n, d)),
{
    assert(pow2(k) == n && supported(k));
    lemma_p2(k); axiom_p(); lemma_mod_all();
    theorem_mono(rt(k), k, -1, d); theorem_mono(rt(k), k, 1, d);
    let m = n as int;
    if d < m { lemma_fundamental_div_mod_converse(d, m, 0, d); } else if d < 2 * m { lemma_fundamental_div_mod_converse(d, m, 1, d - m); } else { lemma_fundamental_div_mod_converse(d, m, 2, 0); }
    lemma_small_mod(0, P() as nat); lemma_small_mod(1, P() as nat);
    lemma_mod_add_multiples_vanish(-1, P()); lemma_small_mod((P() - 1) as nat, P() as nat);
    assert((-(P() - 1)) % P() == 1) by { lemma_mod_add_multiples_vanish(-(P() - 1), P()); }
    assert(monov(n, 1, d) =~= mr(n, d));
    assert(monov(n, -1, d) =~= pneg(mr(n, d)));
}
