// ---- generation of the ring key -----------------------------------------------------------------
/// an entry of the LWE secret key, seen through the comparisons with 0 and 1
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Cm { x: u64 }
pub uninterp spec fn cv(c: Cm) -> int;
/// the ring's error distribution for a standard deviation
pub uninterp spec fn chif(m: f64, s: f64) -> Gs;
#[verifier::external_body]
pub fn vgaussf(m: f64, s: f64) -> (r: Gs) ensures r == chif(m, s) { unimplemented!() }
#[verifier::external_body]
pub fn vlit<T, const N: usize>(x: [T; N]) -> (r: Vec<T>) ensures r@ == x@ { Vec::from(x) }
impl Cm {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (cv(*self) == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (cv(*self) == 1) { unimplemented!() }
}
impl Basis {
    /// refuses more bits than the modulus has, otherwise the base 2^bits with enough digits (proved under C11)
    #[verifier::external_body]
    pub fn new(bits: u32) -> (r: Basis) requires 1 <= bits < 64 ensures bok(r), r.bits == bits { unimplemented!() }
}
pub open spec fn resized(x: Seq<Fe>, n: nat, e: Fe) -> Seq<Fe> { Seq::new(n, |i: int| if i < x.len() { x[i] } else { e }) }
#[verifier::external_body]
pub fn vresize(v: &mut Vec<Fe>, n: usize, e: Fe) ensures final(v)@ == resized(old(v)@, n as nat, e) { v.resize(n, e) }
#[verifier::external_body]
pub fn vchunk(v: &[Fe], i: usize, n: usize) -> (r: &[Fe]) requires n > 0, (i + 1) * n <= v@.len() ensures r@ == v@.subrange(i * n, (i + 1) * n) { &v[i * n..(i + 1) * n] }
/// the LWE secret as a ring element: 0, 1, everything else -1; zeros behind it
pub open spec fn lift(c: Cm) -> int { if cv(c) == 0 { 0 } else if cv(c) == 1 { 1 } else { P() - 1 } }
pub open spec fn lsk(l: Seq<Cm>, m: nat) -> Seq<int> { Seq::new(m, |i: int| if i < l.len() { lift(l[i]) } else { 0int }) }
pub open spec fn skx(x: Seq<Fe>, l: Seq<Cm>, m: nat) -> bool { x.len() == m && forall|i: int| 0 <= i < m ==> fv(#[trigger] x[i]) == lsk(l, m)[i] }
pub proof fn lemma_lsk(l: Seq<Cm>, m: nat) ensures isres(lsk(l, m)), lsk(l, m).len() == m { axiom_p(); }
pub proof fn lemma_lskz(x: Seq<Fe>, l: Seq<Cm>, m: nat)
    requires x.len() == l.len(), l.len() <= m, forall|i: int| 0 <= i < x.len() ==> canon(#[trigger] x[i]) && fv(x[i]) == lift(l[i]),
    ensures forall|e: Fe| canon(e) && fv(e) == 0 ==> wf(#[trigger] resized(x, m, e)) && skx(resized(x, m, e), l, m), m == x.len() ==> wf(x) && skx(x, l, m),
{
    assert forall|e: Fe| canon(e) && fv(e) == 0 implies wf(#[trigger] resized(x, m, e)) && skx(resized(x, m, e), l, m) by {
        assert forall|i: int| 0 <= i < m implies canon(#[trigger] resized(x, m, e)[i]) && fv(resized(x, m, e)[i]) == lsk(l, m)[i] by { if i < l.len() { assert(canon(x[i])); } }
    }
}
pub proof fn lemma_bnext(m: Seq<int>, bits: nat, j: nat, b: int)
    requires b == pow2(bits),
    ensures pscale(bpow(m, bits, j), b % P()) == bpow(m, bits, j + 1), isres(bpow(m, bits, j)), bpow(m, bits, j).len() == m.len(), isres(m) ==> bpow(m, bits, 0) == m,
{
    axiom_p();
    lemma_pow2_adds(bits * j, bits); assert(bits * j + bits == bits * (j + 1)) by (nonlinear_arith);
    let c = pow2(bits * j) as int;
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] pscale(bpow(m, bits, j), b % P())[i] == bpow(m, bits, j + 1)[i] by {
        lemma_mul_mod_noop(m[i] * c, b, P());
        assert((m[i] * c) * b == m[i] * (c * b)) by (nonlinear_arith);
    }
    assert(pscale(bpow(m, bits, j), b % P()) =~= bpow(m, bits, j + 1));
    assert forall|i: int| 0 <= i < m.len() implies 0 <= #[trigger] bpow(m, bits, j)[i] < P() by { lemma_mod_bound(m[i] * c, P()); }
    if isres(m) { assert(bits * 0 == 0) by (nonlinear_arith); lemma2_to64(); assert forall|i: int| 0 <= i < m.len() implies #[trigger] bpow(m, bits, 0)[i] == m[i] by { assert(m[i] * 1 == m[i]); lemma_small_mod(m[i] as nat, P() as nat); } assert(bpow(m, bits, 0) =~= m); }
}
/// every chunk of the key holds rows encrypting that chunk of the ring secret times powers of the base, errors of the key switching distribution
pub open spec fn kgenc(k: KeySwitchingRLWEKey, l: Seq<Cm>, ring: Seq<int>, d: Gs) -> bool {
    kwf(k) && k.key@.len() >= 1 && ring.len() == k.key@.len() * kdim(k)
        && forall|c: int| 0 <= c < k.key@.len() ==> nall((#[trigger] k.key@[c]).data@, ntt(lsk(l, kdim(k))), ntt(ring.subrange(c * kdim(k), (c + 1) * kdim(k))), d, k.key@[c].basis.bits as nat)
}
pub open spec fn kchi(p: SecretKeyPack) -> Gs { chif(0.0f64, p.parameters.key_switching_params.noise_standard_deviation) }
pub open spec fn kgen(k: KeySwitchingRLWEKey, p: SecretKeyPack) -> bool {
    kgenc(k, p.lwe_secret_key@, pv(p.ring_secret_key.data@), kchi(p)) && forall|c: int| 0 <= c < k.key@.len() ==> (#[trigger] k.key@[c]).basis.bits == p.parameters.key_switching_params.basis_bits
}
pub open spec fn krow(g: NTTGadgetRLWE, s: Seq<int>, z: Seq<int>, d: Gs, bits: nat) -> bool { g.basis.bits == bits && ng(g, s.len()) && nall(g.data@, s, z, d, bits) }
pub open spec fn krows(k: Seq<NTTGadgetRLWE>, s: Seq<int>, r: Seq<Fe>, m: nat, d: Gs, bits: nat) -> bool { forall|c: int| 0 <= c < k.len() ==> krow(#[trigger] k[c], s, ntt(pv(r.subrange(c * m, (c + 1) * m))), d, bits) }
pub proof fn lemma_krow1(k: Seq<NTTGadgetRLWE>, s: Seq<int>, r: Seq<Fe>, m: nat, d: Gs, bits: nat)
    requires k.len() == 1, r.len() == m, krow(k[0], s, ntt(pv(r)), d, bits)
    ensures krows(k, s, r, m, d, bits)
{ assert(0 * m == 0 && 1 * m == m); assert(r.subrange(0, m as int) =~= r); }
pub proof fn lemma_kgen(k: KeySwitchingRLWEKey, p: SecretKeyPack)
    requires k.lwe_dimension == p.parameters.lwe_params.dimension, wf(p.ring_secret_key.data@), p.ring_secret_key.data@.len() >= kdim(k), kdim(k) >= 1, p.ring_secret_key.data@.len() % kdim(k) == 0, ringn(kdim(k)), k.lwe_dimension <= kdim(k),
        k.key@.len() == p.ring_secret_key.data@.len() / kdim(k), krows(k.key@, ntt(lsk(p.lwe_secret_key@, kdim(k))), p.ring_secret_key.data@, kdim(k), kchi(p), p.parameters.key_switching_params.basis_bits as nat),
    ensures kgen(k, p),
{
    let (m, r) = (kdim(k), p.ring_secret_key.data@);
    lemma_fundamental_div_mod(r.len() as int, m as int);
    assert(r.len() as int == (m as int) * (k.key@.len() as int));
    assert((m as int) * (k.key@.len() as int) == (k.key@.len() * m) as int) by (nonlinear_arith);
    assert(k.key@.len() >= 1) by (nonlinear_arith) requires r.len() == k.key@.len() * m, r.len() >= m, m >= 1;
    lemma_lsk(p.lwe_secret_key@, m); axiom_ntt(lsk(p.lwe_secret_key@, m), lsk(p.lwe_secret_key@, m));
    assert forall|c: int| 0 <= c < k.key@.len() implies ng(#[trigger] k.key@[c], m) && k.key@[c].basis.bits == p.parameters.key_switching_params.basis_bits && nall(k.key@[c].data@, ntt(lsk(p.lwe_secret_key@, m)), ntt(pv(r).subrange(c * m, (c + 1) * m)), kchi(p), k.key@[c].basis.bits as nat) by {
        lemma_chunkin(c, k.key@.len() as int, m as int);
        assert(krow(k.key@[c], ntt(lsk(p.lwe_secret_key@, m)), ntt(pv(r.subrange(c * m, (c + 1) * m))), kchi(p), p.parameters.key_switching_params.basis_bits as nat));
        assert(pv(r).subrange(c * m, (c + 1) * m) =~= pv(r.subrange(c * m, (c + 1) * m)));
    }
}
pub proof fn lemma_qm(n: int, m: int) requires n >= 0, m >= 1, n % m == 0 ensures n / m >= 0, n == (n / m) * m
{ lemma_fundamental_div_mod(n, m); lemma_div_pos_is_pos(n, m); assert((n / m) * m == m * (n / m)) by (nonlinear_arith); }
/// a key generated with errors that are all zero encrypts the ring secret exactly, under the LWE secret
pub open spec fn ezero(k: KeySwitchingRLWEKey) -> Seq<Seq<Seq<int>>> { Seq::new(k.key@.len(), |c: int| Seq::new(k.key@[c].data@.len(), |j: int| pzero(kdim(k)))) }
pub proof fn thm_kgen(k: KeySwitchingRLWEKey, p: SecretKeyPack)
    requires kgen(k, p), silent(kchi(p)), wf(p.ring_secret_key.data@), p.lwe_secret_key@.len() == k.lwe_dimension,
    ensures kenc(k, lsk(p.lwe_secret_key@, kdim(k)), pv(p.ring_secret_key.data@), ezero(k)), noerr(ezero(k), kdim(k)),
{
    let m = kdim(k); let s = lsk(p.lwe_secret_key@, m); let zz = pv(p.ring_secret_key.data@);
    lemma_lsk(p.lwe_secret_key@, m); lemma_pv(p.ring_secret_key.data@); axiom_ntt(s, s);
    assert forall|c: int| 0 <= c < k.key@.len() implies cenc(#[trigger] k.key@[c], s, zz.subrange(c * m, (c + 1) * m), ezero(k)[c]) by {
        let g = k.key@[c]; let z = zz.subrange(c * m, (c + 1) * m);
        lemma_chunkin(c, k.key@.len() as int, m as int);
        assert(isres(z) && z.len() == m); axiom_ntt(z, z);
        assert(nall(g.data@, ntt(s), ntt(z), kchi(p), g.basis.bits as nat));
        lemma_nall(g.data@, ntt(s), ntt(z), kchi(p), g.basis.bits as nat);
        lemma_noiseless(na(g.data@), nb(g.data@), ntt(s), ntt(z), kchi(p), g.basis.bits as nat);
        assert(ezero(k)[c] =~= Seq::new(na(g.data@).len(), |j: int| pzero(ntt(s).len())));
    }
}
/// generation followed by switching, by the contracts alone: with errors that are all zero the constant coefficient of the phase is the phase of the result
pub fn generate_and_switch(p: &SecretKeyPack, ct: RLWE, rng: &mut Rn) -> (r: LWE)
    requires ringn(np2(p.parameters.lwe_params.dimension as nat)), 1 <= p.parameters.lwe_params.dimension <= np2(p.parameters.lwe_params.dimension as nat), p.lwe_secret_key@.len() == p.parameters.lwe_params.dimension,
        wf(p.ring_secret_key.data@), p.ring_secret_key.data@.len() == p.parameters.blind_rotation_params.dimension, p.ring_secret_key.data@.len() % np2(p.parameters.lwe_params.dimension as nat) == 0, np2(p.parameters.lwe_params.dimension as nat) <= p.ring_secret_key.data@.len(),
        p.ntt_ring_secret_key.data@.len() == p.ring_secret_key.data@.len(), wf(p.ntt_ring_secret_key.data@), pv(p.ntt_ring_secret_key.data@) == ntt(pv(p.ring_secret_key.data@)), 1 <= p.parameters.key_switching_params.basis_bits < 64,
        silent(kchi(*p)), rwf(ct, p.ring_secret_key.data@.len()),
    ensures ph(r, lsk(p.lwe_secret_key@, p.lwe_secret_key@.len())) == rph(ct, pv(p.ring_secret_key.data@))[0] % P(),
{
    let k = KeySwitchingRLWEKey::generate(p, rng);
    let r = k.key_switch_for_rlwe(ct);
    proof {
        thm_kgen(k, *p);
        let (m, l, zz) = (kdim(k), p.lwe_secret_key@, pv(p.ring_secret_key.data@));
        let a = exm(pv(ct.a.data@));
        assert(lsk(l, m).take(k.lwe_dimension as int) =~= lsk(l, l.len()));
        lemma_exmres(ct.a.data@); axiom_p();
        assert(k.key@.len() * kdim(k) == ct.a.data@.len());
        lemma_ksilent(k, lsk(l, m), zz, pchs(a, m, k.key@.len()), a, ezero(k));
    }
    r
}
proof fn lemma_ksilent(k: KeySwitchingRLWEKey, s: Seq<int>, zz: Seq<int>, ps: Seq<Seq<int>>, a: Seq<int>, e: Seq<Seq<Seq<int>>>)
    requires kwf(k), kenc(k, s, zz, e), noerr(e, kdim(k)), isres(a), a.len() == k.key@.len() * kdim(k), ps == pchs(a, kdim(k), k.key@.len()),
    ensures knoise(k, ps, e, k.key@.len()) == 0,
{
    axiom_p();
    let (m, n) = (kdim(k), k.key@.len());
    assert(chunks_are(ps, m)) by { assert forall|c: int| 0 <= c < ps.len() implies isres(#[trigger] ps[c]) && ps[c].len() == m by { lemma_chunkin(c, n as int, m as int); assert forall|j: int| 0 <= j < m implies 0 <= #[trigger] ps[c][j] < P() by { if j > 0 { lemma_mod_bound(-a[c * m + m - j], P()); } } } }
    lemma_nonoise(k, s, zz, ps, e, n);
}
