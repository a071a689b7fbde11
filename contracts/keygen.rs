// ---- bootstrapping key generation ---------------------------------------------------------------
impl Cm {
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (cv(*self) == 1) { unimplemented!() }
}
/// the secret a binary / ternary key is generated for
pub open spec fn zbin(x: Cm) -> int { if cv(x) == 0 { 0 } else { 1 } }
pub open spec fn ztern(x: Cm) -> int { if cv(x) == 1 { 1 } else if cv(x) == 0 { 0 } else { -1 } }
pub open spec fn zb(l: Seq<Cm>) -> Seq<int> { Seq::new(l.len(), |i: int| zbin(l[i])) }
pub open spec fn zt(l: Seq<Cm>) -> Seq<int> { Seq::new(l.len(), |i: int| ztern(l[i])) }
pub open spec fn genb(k: Seq<NTTRGSW>, l: Seq<Cm>, s: Seq<int>, d: Gs, b: Basis) -> bool { k.len() == l.len() && forall|i: int| 0 <= i < k.len() ==> nkey(#[trigger] k[i], s, zbin(l[i]) == 1, d, b) }
pub open spec fn gent(k: Seq<(NTTRGSW, NTTRGSW)>, l: Seq<Cm>, s: Seq<int>, d: Gs, b: Basis) -> bool { k.len() == l.len() && forall|i: int| 0 <= i < k.len() ==> nkey((#[trigger] k[i]).0, s, ztern(l[i]) == 1, d, b) && nkey(k[i].1, s, ztern(l[i]) == -1, d, b) }
pub proof fn lemma_nkey(g: NTTRGSW, s: Seq<int>, on: bool, d: Gs, b: Basis)
    requires nkey(g, ntt(s), on, d, b), silent(d), ringn(s.len()), isres(s),
    ensures encx(g, s, pm(s.len(), on)),
{
    axiom_p();
    let n = s.len(); let S = ntt(s); let m = pm(n, on); let M = ntt(m);
    axiom_ntt(s, s); lemma_ntt_one(n); lemma_rp(n);
    axiom_nttscale(p1(n), 0);
    assert(0 * 1 == 0 && 1 * 0 == 0); lemma_small_mod(0, P() as nat); lemma_small_mod(1, P() as nat);
    assert(pscale(p1(n), 0) =~= pzero(n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] pscale(p1(n), 0)[i] == 0 by { let x = p1(n)[i]; assert(x * 0 == 0); } }
    assert(pscale(ones(n), 0) =~= pzero(n));
    assert(pone(n) =~= p1(n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] pone(n)[i] == p1(n)[i] by { } }
    assert(M == msgc(S, on));
    let N = pneg(pmul(S, M));
    assert(N =~= msgn(S, on)) by { assert forall|i: int| 0 <= i < n implies #[trigger] N[i] == msgn(S, on)[i] by { let x = S[i]; assert(x * 1 == x && x * 0 == 0); lemma_small_mod(x as nat, P() as nat); lemma_neg0(); } }
    lemma_nall(g.c_m.data@, S, M, d, b.bits as nat);
    lemma_nall(g.c_neg_s_m.data@, S, N, d, b.bits as nat);
    lemma_noiseless(na(g.c_m.data@), nb(g.c_m.data@), S, M, d, b.bits as nat);
    lemma_noiseless(na(g.c_neg_s_m.data@), nb(g.c_neg_s_m.data@), S, N, d, b.bits as nat);
    assert(zs(g.c_m.data@.len(), n) =~= Seq::new(na(g.c_m.data@).len(), |j: int| pzero(S.len())));
    assert(zs(g.c_neg_s_m.data@.len(), n) =~= Seq::new(na(g.c_neg_s_m.data@).len(), |j: int| pzero(S.len())));
}
proof fn lemma_neg0() ensures fneg(0) == 0 { axiom_p(); lemma_small_mod(0, P() as nat); }
/// a binary key generated with errors that are all zero encrypts the secret exactly
pub proof fn thm_bkey(k: Seq<NTTRGSW>, l: Seq<Cm>, s: Seq<int>, d: Gs, b: Basis)
    requires genb(k, l, ntt(s), d, b), silent(d), ringn(s.len()), isres(s),
    ensures bkey(k, s, zb(l), s.len()),
{
    axiom_ntt(s, s);
    assert forall|i: int| 0 <= i < k.len() implies (zb(l)[i] == 0 || zb(l)[i] == 1) && encx(#[trigger] k[i], s, if zb(l)[i] == 1 { pone(s.len()) } else { pzero(s.len()) }) by { lemma_nkey(k[i], s, zbin(l[i]) == 1, d, b); }
}
pub proof fn thm_tkey(k: Seq<(NTTRGSW, NTTRGSW)>, l: Seq<Cm>, s: Seq<int>, d: Gs, b: Basis)
    requires gent(k, l, ntt(s), d, b), silent(d), ringn(s.len()), isres(s),
    ensures tkey(k, s, zt(l), s.len()),
{
    axiom_ntt(s, s);
    assert forall|i: int| 0 <= i < k.len() implies -1 <= zt(l)[i] <= 1 && encx((#[trigger] k[i]).0, s, pm(s.len(), zt(l)[i] == 1)) && encx(k[i].1, s, pm(s.len(), zt(l)[i] == -1)) by { lemma_nkey(k[i].0, s, ztern(l[i]) == 1, d, b); lemma_nkey(k[i].1, s, ztern(l[i]) == -1, d, b); }
}
/// the ring's error distribution for a standard deviation
pub uninterp spec fn chif(m: f64, s: f64) -> Gs;
#[verifier::external_body]
pub fn vgaussf(m: f64, s: f64) -> (r: Gs) ensures r == chif(m, s) { unimplemented!() }
