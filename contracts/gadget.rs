// ---- gadget and external products ------------------------------------------------------------
/// values of the field's representation type
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Val { x: u64 }
pub uninterp spec fn vv(v: Val) -> int;
#[verifier::external_body]
pub proof fn axiom_vv_ext(a: Val, b: Val) ensures vv(a) == vv(b) ==> a == b { }
impl Fe {
    /// C11
    #[verifier::external_body]
    pub fn decompose_lsb_bits_at(&mut self, destination: &mut Fe, mask: Val, bits: u32)
        requires canon(*old(self)), vv(mask) + 1 == pow2(bits as nat),
        ensures canon(*final(self)), canon(*final(destination)), fv(*final(destination)) == fv(*old(self)) % (pow2(bits as nat) as int), fv(*final(self)) == fv(*old(self)) / (pow2(bits as nat) as int),
    { unimplemented!() }
}
pub open spec fn wfb(b: Basis) -> bool { 1 <= b.bits < 64 && vv(b.mask) + 1 == pow2(b.bits as nat) && isdlen(P(), b.bits as nat, b.decompose_len as int) }
/// digit polynomial j, and what is left after j digits
pub open spec fn dpoly(p: Seq<int>, bits: nat, j: nat) -> Seq<int> { Seq::new(p.len(), |i: int| dig(p[i], bits, j)) }
pub open spec fn prem(p: Seq<int>, bits: nat, j: nat) -> Seq<int> { Seq::new(p.len(), |i: int| p[i] / (pow2(bits * j) as int)) }
pub proof fn lemma_digit(p: Seq<int>, bits: nat, j: nat)
    requires isres(p),
    ensures prem(p, bits, 0) == p, isres(prem(p, bits, j)), isres(dpoly(p, bits, j)),
        forall|i: int| 0 <= i < p.len() ==> (#[trigger] prem(p, bits, j)[i]) % (pow2(bits) as int) == dpoly(p, bits, j)[i] && prem(p, bits, j)[i] / (pow2(bits) as int) == prem(p, bits, j + 1)[i],
{
    lemma_pow2_pos(bits * j); lemma_pow2_pos(bits);
    assert forall|i: int| 0 <= i < p.len() implies prem(p, bits, 0)[i] == p[i] by { lemma_dig0(p[i], bits); }
    assert(prem(p, bits, 0) =~= p);
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] prem(p, bits, j)[i] < P() by { lemma_div_pos_is_pos(p[i], pow2(bits * j) as int); lemma_div_is_ordered_by_denominator(p[i], 1, pow2(bits * j) as int); lemma_div_basics(p[i]); }
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] dpoly(p, bits, j)[i] < P() by { let q = prem(p, bits, j)[i]; lemma_mod_bound(q, pow2(bits) as int); lemma_mod_decreases(q as nat, pow2(bits)); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] prem(p, bits, j)[i]) % (pow2(bits) as int) == dpoly(p, bits, j)[i] && prem(p, bits, j)[i] / (pow2(bits) as int) == prem(p, bits, j + 1)[i] by { lemma_digstep(p[i], bits, j); }
}
/// acc + sum of row_j * ntt(digit polynomial j), j < m, in the transform domain
pub open spec fn gacc(acc: Seq<int>, rows: Seq<Seq<int>>, p: Seq<int>, bits: nat, m: nat) -> Seq<int> decreases m
{ if m == 0 { acc } else { paddmul(gacc(acc, rows, p, bits, (m - 1) as nat), rows[m - 1], ntt(dpoly(p, bits, (m - 1) as nat))) } }
pub proof fn lemma_gacc_len(acc: Seq<int>, rows: Seq<Seq<int>>, p: Seq<int>, bits: nat, m: nat) ensures gacc(acc, rows, p, bits, m).len() == acc.len() decreases m
{ if m > 0 { lemma_gacc_len(acc, rows, p, bits, (m - 1) as nat); } }
pub proof fn lemma_gacc_res(acc: Seq<int>, rows: Seq<Seq<int>>, p: Seq<int>, bits: nat, m: nat) requires isres(acc) ensures isres(gacc(acc, rows, p, bits, m)), gacc(acc, rows, p, bits, m).len() == acc.len() decreases m
{ axiom_p(); lemma_gacc_len(acc, rows, p, bits, m); if m > 0 { lemma_gacc_res(acc, rows, p, bits, (m - 1) as nat); } }
/// components of the rows
pub open spec fn na(g: Seq<NTTRLWE>) -> Seq<Seq<int>> { Seq::new(g.len(), |i: int| pv(g[i].a.data@)) }
pub open spec fn nb(g: Seq<NTTRLWE>) -> Seq<Seq<int>> { Seq::new(g.len(), |i: int| pv(g[i].b.data@)) }
pub open spec fn ra(g: Seq<RLWE>) -> Seq<Seq<int>> { Seq::new(g.len(), |i: int| ntt(pv(g[i].a.data@))) }
pub open spec fn rb(g: Seq<RLWE>) -> Seq<Seq<int>> { Seq::new(g.len(), |i: int| ntt(pv(g[i].b.data@))) }
pub open spec fn gwf(g: Seq<NTTRLWE>, n: nat) -> bool { forall|i: int| 0 <= i < g.len() ==> #[trigger] nwf(g[i], n) }
pub open spec fn grwf(g: Seq<RLWE>, n: nat) -> bool { forall|i: int| 0 <= i < g.len() ==> #[trigger] rwf(g[i], n) }
pub open spec fn ng(g: NTTGadgetRLWE, n: nat) -> bool { wfb(g.basis) && g.data@.len() == g.basis.decompose_len && gwf(g.data@, n) }
pub open spec fn rg(g: GadgetRLWE, n: nat) -> bool { wfb(g.basis) && g.data@.len() == g.basis.decompose_len && grwf(g.data@, n) }
/// the gadget product added to an accumulator, both components, transform domain
pub open spec fn ngp(a: Seq<int>, b: Seq<int>, g: NTTGadgetRLWE, p: Seq<int>) -> (Seq<int>, Seq<int>) {
    (gacc(a, na(g.data@), p, g.basis.bits as nat, g.data@.len()), gacc(b, nb(g.data@), p, g.basis.bits as nat, g.data@.len()))
}
pub open spec fn rgp(a: Seq<int>, b: Seq<int>, g: GadgetRLWE, p: Seq<int>) -> (Seq<int>, Seq<int>) {
    (gacc(a, ra(g.data@), p, g.basis.bits as nat, g.data@.len()), gacc(b, rb(g.data@), p, g.basis.bits as nat, g.data@.len()))
}
pub open spec fn nz(n: nat) -> Seq<int> { pzero(n) }
pub proof fn lemma_addmul(x: Seq<int>, y: Seq<int>, z: Seq<int>)
    requires x.len() == y.len(), y.len() == z.len(),
    ensures padd(x, pmul(y, z)) == paddmul(x, y, z),
{
    axiom_p();
    assert forall|i: int| 0 <= i < x.len() implies padd(x, pmul(y, z))[i] == #[trigger] paddmul(x, y, z)[i] by { lemma_add_mod_noop_right(x[i], y[i] * z[i], P()); }
    assert(padd(x, pmul(y, z)) =~= paddmul(x, y, z));
}
/// an element moved out of a vector
#[verifier::external_body]
pub fn vown(x: &RLWE) -> (r: RLWE) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn veqv(a: Val, b: Val) -> (r: bool) ensures r == (vv(a) == vv(b)) { unimplemented!() }
impl NTTRLWE {
    /// std: the blanket Into is From
    pub fn vinto(self) -> (r: RLWE) requires nlz(self, nn(self)), ringn(nn(self)) ensures rwf(r, nn(self)), pv(r.a.data@) == intt(pv(self.a.data@)), pv(r.b.data@) == intt(pv(self.b.data@)) { RLWE::from_nttrlwe(self) }
}
// ---- what the products mean: phases, in the transform domain --------------------------------
pub open spec fn nphs(a: Seq<int>, b: Seq<int>, s: Seq<int>) -> Seq<int> { psub(b, pmul(a, s)) }
/// B^j times x
pub open spec fn bpow(x: Seq<int>, bits: nat, j: nat) -> Seq<int> { pscale(x, pow2(bits * j) as int) }
/// the rows of a gadget ciphertext encrypt m * B^j with row errors e_j, under s (all transformed)
pub open spec fn enc(ra: Seq<Seq<int>>, rb: Seq<Seq<int>>, s: Seq<int>, m: Seq<int>, e: Seq<Seq<int>>, bits: nat) -> bool {
    ra.len() == rb.len() && e.len() == ra.len() && forall|j: int| 0 <= j < ra.len() ==> #[trigger] ra[j].len() == s.len() && rb[j].len() == s.len() && e[j].len() == s.len() && nphs(ra[j], rb[j], s) == padd(bpow(m, bits, j as nat), e[j])
}
/// x / 2^(bits j) split off: what the first k digit polynomials add up to
pub open spec fn dsumk(p: Seq<int>, bits: nat, k: nat) -> Seq<int> { Seq::new(p.len(), |i: int| digsum(p[i], bits, k)) }
proof fn lemma_digsum_bound(x: int, bits: nat, k: nat) requires x >= 0 ensures 0 <= digsum(x, bits, k) <= x { lemma_digsum(x, bits, k); lemma_pow2_pos(bits * k); lemma_mod_decreases(x as nat, pow2(bits * k)); lemma_mod_bound(x, pow2(bits * k) as int); }
/// the transformed digit polynomials, weighted by powers of the base, add up to the transform of the polynomial
proof fn lemma_ntt_digits(p: Seq<int>, bits: nat, k: nat)
    requires isres(p), ringn(p.len()),
    ensures ntt(dsumk(p, bits, k + 1)) == padd(ntt(dsumk(p, bits, k)), pscale(ntt(dpoly(p, bits, k)), pow2(bits * k) as int)), ntt(dsumk(p, bits, 0)) == pzero(p.len()), isres(dsumk(p, bits, k)),
{
    axiom_p();
    assert forall|k: nat, i: int| 0 <= i < p.len() implies 0 <= #[trigger] dsumk(p, bits, k)[i] < P() by { lemma_digsum_bound(p[i], bits, k); }
    let (u, d) = (dsumk(p, bits, k), dpoly(p, bits, k));
    let c = pow2(bits * k) as int;
    lemma_digit(p, bits, k);
    axiom_nttscale(d, c);
    let w = pscale(d, c);
    assert(isres(w));
    assert(isres(u));
    axiom_ntt(u, w);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] dsumk(p, bits, k + 1)[i] == padd(u, w)[i] by {
        lemma_digsum_bound(p[i], bits, k + 1);
        let x = d[i] * c;
        assert(x == dig(p[i], bits, k) * pow2(bits * k));
        lemma_add_mod_noop_right(u[i], x, P());
        lemma_small_mod(digsum(p[i], bits, k + 1) as nat, P() as nat);
    }
    assert(dsumk(p, bits, k + 1) =~= padd(u, w));
    let z = dsumk(p, bits, 0);
    assert(isres(z));
    axiom_nttscale(z, 0);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] pscale(z, 0)[i] == z[i] by { lemma_small_mod(0, P() as nat); assert(z[i] * 0 == 0); assert(digsum(p[i], bits, 0) == 0); }
    assert(pscale(z, 0) =~= z);
    axiom_ntt(z, z);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] pscale(ntt(z), 0)[i] == pzero(p.len())[i] by { assert(ntt(z)[i] * 0 == 0); lemma_small_mod(0, P() as nat); }
    assert(pscale(ntt(z), 0) =~= pzero(p.len()));
}
/// noise of a gadget product: sum of digit times row error
pub open spec fn gnoise(e: Seq<Seq<int>>, p: Seq<int>, bits: nat, m: nat) -> Seq<int> { gacc(pzero(p.len()), e, p, bits, m) }
pub proof fn lemma_red(x: int, y: int, k: int) requires x == y + P() * k ensures x % P() == y % P()
{ axiom_p(); lemma_mod_multiples_vanish(k, y, P()); assert(P() * k + y == x); }
pub proof fn lemma_q(x: int) ensures x % P() == x - P() * (x / P()) { axiom_p(); lemma_fundamental_div_mod(x, P()); }
proof fn id1(p: int, a: int, b: int, x: int, y: int, d: int, s: int, q1: int, q2: int, q3: int, q4: int, q5: int, q6: int, q7: int)
    ensures ((y * d + b) - p * q1) - ((((x * d + a) - p * q2) * s) - p * q3) == ((b - (a * s - p * q6)) - p * q7) + ((y - (x * s - p * q4)) - p * q5) * d + p * (-q1 + q2 * s + q3 - q6 + q7 - (q4 - q5) * d)
{ assert(((y * d + b) - p * q1) - ((((x * d + a) - p * q2) * s) - p * q3) == ((b - (a * s - p * q6)) - p * q7) + ((y - (x * s - p * q4)) - p * q5) * d + p * (-q1 + q2 * s + q3 - q6 + q7 - (q4 - q5) * d)) by (nonlinear_arith); }
/// one row: its product with a digit adds (row phase) * digit to the phase
proof fn lemma_phase_step(a: int, b: int, x: int, y: int, d: int, s: int)
    ensures fsub((y * d + b) % P(), fmul((x * d + a) % P(), s)) == (fsub(b, fmul(a, s)) + fsub(y, fmul(x, s)) * d) % P(),
{
    let p = P();
    let (u, v) = (y * d + b, x * d + a);
    lemma_q(u); lemma_q(v); lemma_q((v % p) * s); lemma_q(x * s); lemma_q(a * s); lemma_q(y - fmul(x, s)); lemma_q(b - fmul(a, s));
    let (q1, q2, q3, q4, q5, q6, q7) = (u / p, v / p, ((v % p) * s) / p, (x * s) / p, (y - fmul(x, s)) / p, (a * s) / p, (b - fmul(a, s)) / p);
    id1(p, a, b, x, y, d, s, q1, q2, q3, q4, q5, q6, q7);
    lemma_red(u % p - fmul(v % p, s), fsub(b, fmul(a, s)) + fsub(y, fmul(x, s)) * d, -q1 + q2 * s + q3 - q6 + q7 - (q4 - q5) * d);
}
proof fn id2(p: int, l: int, n: int, d: int, c: int, m: int, e: int, g: int, q1: int, q2: int, q3: int, q4: int, q5: int, q6: int, q7: int, q8: int, q9: int, q10: int)
    ensures (l + ((n * m - p * q1) + g - p * q4) - p * q5) + ((m * c - p * q2) + e - p * q6) * d == l + (((n + (d * c - p * q3) - p * q7) * m - p * q8) + ((e * d + g) - p * q9) - p * q10) + p * (-q1 - q4 - q5 - (q2 + q6) * d + (q3 + q7) * m + q8 + q9 + q10)
{ assert((l + ((n * m - p * q1) + g - p * q4) - p * q5) + ((m * c - p * q2) + e - p * q6) * d == l + (((n + (d * c - p * q3) - p * q7) * m - p * q8) + ((e * d + g) - p * q9) - p * q10) + p * (-q1 - q4 - q5 - (q2 + q6) * d + (q3 + q7) * m + q8 + q9 + q10)) by (nonlinear_arith); }
/// bookkeeping of the digit sum and the noise
proof fn lemma_noise_step(l: int, n: int, d: int, c: int, m: int, e: int, g: int)
    ensures (fadd(l, fadd(fmul(n, m), g)) + fadd(fmul(m, c), e) * d) % P() == fadd(l, fadd(fmul(fadd(n, fmul(d, c)), m), (e * d + g) % P())),
{
    let p = P();
    let t = fadd(n, fmul(d, c)); let h = e * d + g;
    lemma_q(n * m); lemma_q(m * c); lemma_q(d * c); lemma_q(fmul(n, m) + g); lemma_q(l + fadd(fmul(n, m), g)); lemma_q(fmul(m, c) + e); lemma_q(n + fmul(d, c)); lemma_q(t * m); lemma_q(h); lemma_q(fmul(t, m) + h % p);
    let (q1, q2, q3, q4, q5, q6, q7, q8, q9, q10) = ((n * m) / p, (m * c) / p, (d * c) / p, (fmul(n, m) + g) / p, (l + fadd(fmul(n, m), g)) / p, (fmul(m, c) + e) / p, (n + fmul(d, c)) / p, (t * m) / p, h / p, (fmul(t, m) + h % p) / p);
    id2(p, l, n, d, c, m, e, g, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10);
    lemma_red(fadd(l, fadd(fmul(n, m), g)) + fadd(fmul(m, c), e) * d, l + fadd(fmul(t, m), h % p), -q1 - q4 - q5 - (q2 + q6) * d + (q3 + q7) * m + q8 + q9 + q10);
}
/// phase after k rows
pub open spec fn gph(l: Seq<int>, p: Seq<int>, m: Seq<int>, e: Seq<Seq<int>>, bits: nat, k: nat) -> Seq<int> { padd(l, padd(pmul(ntt(dsumk(p, bits, k)), m), gnoise(e, p, bits, k))) }
proof fn lemma_gadget_phase_k(a0: Seq<int>, b0: Seq<int>, ra: Seq<Seq<int>>, rb: Seq<Seq<int>>, p: Seq<int>, s: Seq<int>, m: Seq<int>, e: Seq<Seq<int>>, bits: nat, k: nat)
    requires isres(p), ringn(p.len()), a0.len() == p.len(), b0.len() == p.len(), s.len() == p.len(), m.len() == p.len(), enc(ra, rb, s, m, e, bits), k <= ra.len(),
    ensures nphs(gacc(a0, ra, p, bits, k), gacc(b0, rb, p, bits, k), s) == gph(nphs(a0, b0, s), p, m, e, bits, k), ntt(dsumk(p, bits, k)).len() == p.len(),
    decreases k,
{
    axiom_p();
    let l = nphs(a0, b0, s);
    let n = p.len();
    lemma_gacc_len(a0, ra, p, bits, k); lemma_gacc_len(b0, rb, p, bits, k); lemma_gacc_len(pzero(n), e, p, bits, k);
    if k == 0 {
        lemma_ntt_digits(p, bits, 0);
        assert forall|i: int| 0 <= i < n implies #[trigger] gph(l, p, m, e, bits, 0)[i] == l[i] by {
            assert(0 * m[i] == 0); lemma_small_mod(0, P() as nat);
            lemma_mod_twice(b0[i] - fmul(a0[i], s[i]), P());
        }
        assert(gph(l, p, m, e, bits, 0) =~= l);
    } else {
        let j = (k - 1) as nat;
        lemma_gadget_phase_k(a0, b0, ra, rb, p, s, m, e, bits, j);
        lemma_gacc_len(a0, ra, p, bits, j); lemma_gacc_len(b0, rb, p, bits, j); lemma_gacc_len(pzero(n), e, p, bits, j);
        lemma_ntt_digits(p, bits, j); lemma_digit(p, bits, j);
        let (pa, pb, g) = (gacc(a0, ra, p, bits, j), gacc(b0, rb, p, bits, j), gnoise(e, p, bits, j));
        let d = ntt(dpoly(p, bits, j)); let c = pow2(bits * j) as int; let u = ntt(dsumk(p, bits, j));
        axiom_ntt(dpoly(p, bits, j), dpoly(p, bits, j));
        assert(ra[j as int].len() == s.len());
        let (x, y) = (ra[j as int], rb[j as int]);
        let (na, nb) = (gacc(a0, ra, p, bits, k), gacc(b0, rb, p, bits, k));
        let lhs = nphs(na, nb, s); let rhs = gph(l, p, m, e, bits, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] lhs[i] == rhs[i] by {
            lemma_phase_step(pa[i], pb[i], x[i], y[i], d[i], s[i]);
            assert(nphs(pa, pb, s)[i] == gph(l, p, m, e, bits, j)[i]);
            assert(nphs(x, y, s)[i] == padd(bpow(m, bits, j), e[j as int])[i]);
            lemma_noise_step(l[i], u[i], d[i], c, m[i], e[j as int][i], g[i]);
        }
        assert(lhs =~= rhs);
    }
}
/// the gadget product: its phase is the accumulator's plus operand times message plus the digit-weighted row errors
pub proof fn lemma_gadget_phase(a0: Seq<int>, b0: Seq<int>, ra: Seq<Seq<int>>, rb: Seq<Seq<int>>, p: Seq<int>, s: Seq<int>, m: Seq<int>, e: Seq<Seq<int>>, bits: nat)
    requires isres(p), ringn(p.len()), a0.len() == p.len(), b0.len() == p.len(), s.len() == p.len(), m.len() == p.len(), enc(ra, rb, s, m, e, bits), bits >= 1, isdlen(P(), bits, ra.len() as int),
    ensures nphs(gacc(a0, ra, p, bits, ra.len()), gacc(b0, rb, p, bits, ra.len()), s) == padd(nphs(a0, b0, s), padd(pmul(ntt(p), m), gnoise(e, p, bits, ra.len()))),
{
    let k = ra.len();
    lemma_gadget_phase_k(a0, b0, ra, rb, p, s, m, e, bits, k);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] dsumk(p, bits, k)[i] == p[i] by { lemma_recompose(P(), p[i], bits, k); }
    assert(dsumk(p, bits, k) =~= p);
}
proof fn id3(p: int, a: int, b: int, s: int, m: int, g: int, h: int, q1: int, q2: int, q3: int, q4: int, q5: int, q6: int, q7: int, q8: int, q9: int, q10: int, q11: int)
    ensures (((a * (-(s * m - p * q1) - p * q2) - p * q3) + g - p * q4) - p * q5) + ((b * m - p * q6) + h - p * q7) == ((b - (a * s - p * q8) - p * q9) * m - p * q10) + (g + h - p * q11) + p * (-q3 - q4 - q5 - q6 - q7 + (q1 - q2) * a - (q8 - q9) * m + q10 + q11)
{ assert((((a * (-(s * m - p * q1) - p * q2) - p * q3) + g - p * q4) - p * q5) + ((b * m - p * q6) + h - p * q7) == ((b - (a * s - p * q8) - p * q9) * m - p * q10) + (g + h - p * q11) + p * (-q3 - q4 - q5 - q6 - q7 + (q1 - q2) * a - (q8 - q9) * m + q10 + q11)) by (nonlinear_arith); }
proof fn lemma_ext_step(a: int, b: int, s: int, m: int, g: int, h: int)
    ensures fadd(fadd(0, fadd(fmul(a, fneg(fmul(s, m))), g)), fadd(fmul(b, m), h)) == fadd(fmul(fsub(b, fmul(a, s)), m), fadd(g, h)),
{
    let p = P();
    let t = fneg(fmul(s, m)); let f = fsub(b, fmul(a, s));
    let x = fadd(fmul(a, t), g); let y = fadd(fmul(b, m), h); let z = fadd(g, h);
    lemma_q(s * m); lemma_q(-fmul(s, m)); lemma_q(a * t); lemma_q(fmul(a, t) + g); lemma_q(0 + x); lemma_q(b * m); lemma_q(fmul(b, m) + h); lemma_q(a * s); lemma_q(b - fmul(a, s)); lemma_q(f * m); lemma_q(g + h);
    let (q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11) = ((s * m) / p, (-fmul(s, m)) / p, (a * t) / p, (fmul(a, t) + g) / p, (0 + x) / p, (b * m) / p, (fmul(b, m) + h) / p, (a * s) / p, (b - fmul(a, s)) / p, (f * m) / p, (g + h) / p);
    id3(p, a, b, s, m, g, h, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11);
    lemma_red(fadd(0, x) + y, fmul(f, m) + z, -q3 - q4 - q5 - q6 - q7 + (q1 - q2) * a - (q8 - q9) * m + q10 + q11);
}
/// phases in the two domains
pub proof fn lemma_rph(a: Seq<int>, b: Seq<int>, s: Seq<int>)
    requires isres(a), isres(b), isres(s), ringn(a.len()), b.len() == a.len(), s.len() == a.len(),
    ensures ntt(psub(b, negmul(a, s))) == nphs(ntt(a), ntt(b), ntt(s)), isres(psub(b, negmul(a, s))),
{
    axiom_p();
    axiom_ntt(a, s); axiom_ntt(b, negmul(a, s));
}
/// the external product: phase times message plus the digit-weighted row errors
pub proof fn lemma_external_phase(ca: Seq<int>, cb: Seq<int>, a1: Seq<Seq<int>>, b1: Seq<Seq<int>>, a2: Seq<Seq<int>>, b2: Seq<Seq<int>>, s: Seq<int>, m: Seq<int>, e1: Seq<Seq<int>>, e2: Seq<Seq<int>>, bits1: nat, bits2: nat)
    requires isres(ca), isres(cb), isres(s), isres(m), ringn(ca.len()), cb.len() == ca.len(), s.len() == ca.len(), m.len() == ca.len(), bits1 >= 1, bits2 >= 1, isdlen(P(), bits1, a1.len() as int), isdlen(P(), bits2, a2.len() as int),
        enc(a1, b1, ntt(s), pneg(pmul(ntt(s), ntt(m))), e1, bits1), enc(a2, b2, ntt(s), ntt(m), e2, bits2),
    ensures ({
        let n = ca.len();
        let ra = gacc(gacc(pzero(n), a1, ca, bits1, a1.len()), a2, cb, bits2, a2.len());
        let rb = gacc(gacc(pzero(n), b1, ca, bits1, a1.len()), b2, cb, bits2, a2.len());
        let noise = padd(gnoise(e1, ca, bits1, a1.len()), gnoise(e2, cb, bits2, a2.len()));
        ntt(psub(intt(rb), negmul(intt(ra), s))) == padd(ntt(negmul(psub(cb, negmul(ca, s)), m)), noise) }),
{
    axiom_p();
    let n = ca.len();
    let z = pzero(n); let S = ntt(s); let M = ntt(m);
    axiom_ntt(s, m); axiom_ntt(m, s);
    let sm = pneg(pmul(S, M));
    let (xa, xb) = (gacc(z, a1, ca, bits1, a1.len()), gacc(z, b1, ca, bits1, a1.len()));
    lemma_gadget_phase(z, z, a1, b1, ca, S, sm, e1, bits1);
    lemma_gacc_res(z, a1, ca, bits1, a1.len()); lemma_gacc_res(z, b1, ca, bits1, a1.len());
    let (ra, rb) = (gacc(xa, a2, cb, bits2, a2.len()), gacc(xb, b2, cb, bits2, a2.len()));
    lemma_gadget_phase(xa, xb, a2, b2, cb, S, M, e2, bits2);
    lemma_gacc_res(xa, a2, cb, bits2, a2.len()); lemma_gacc_res(xb, b2, cb, bits2, a2.len());
    axiom_ntt(ra, rb); axiom_ntt(rb, ra);
    lemma_rph(intt(ra), intt(rb), s);
    let (g, h) = (gnoise(e1, ca, bits1, a1.len()), gnoise(e2, cb, bits2, a2.len()));
    lemma_gacc_len(z, e1, ca, bits1, a1.len()); lemma_gacc_len(pzero(n), e2, cb, bits2, a2.len());
    lemma_rph(ca, cb, s);
    let ph = psub(cb, negmul(ca, s));
    axiom_ntt(ph, m);
    axiom_ntt(ca, cb); axiom_ntt(cb, ca);
    let lhs = nphs(ra, rb, S); let rhs = padd(pmul(ntt(ph), M), padd(g, h));
    assert forall|i: int| 0 <= i < n implies #[trigger] lhs[i] == rhs[i] by {
        let (a, b) = (ntt(ca)[i], ntt(cb)[i]);
        lemma_ext_step(a, b, S[i], M[i], g[i], h[i]);
        assert(nphs(z, z, S)[i] == 0) by { assert(0 * S[i] == 0); lemma_small_mod(0, P() as nat); }
        assert(nphs(xa, xb, S)[i] == fadd(0, fadd(fmul(a, sm[i]), g[i])));
        assert(ntt(ph)[i] == nphs(ntt(ca), ntt(cb), S)[i]);
    }
    assert(lhs =~= rhs);
}
/// without row errors the phase is multiplied exactly
pub proof fn lemma_external_exact(ca: Seq<int>, cb: Seq<int>, a1: Seq<Seq<int>>, b1: Seq<Seq<int>>, a2: Seq<Seq<int>>, b2: Seq<Seq<int>>, s: Seq<int>, m: Seq<int>, e1: Seq<Seq<int>>, e2: Seq<Seq<int>>, bits1: nat, bits2: nat)
    requires isres(ca), isres(cb), isres(s), isres(m), ringn(ca.len()), cb.len() == ca.len(), s.len() == ca.len(), m.len() == ca.len(), bits1 >= 1, bits2 >= 1, isdlen(P(), bits1, a1.len() as int), isdlen(P(), bits2, a2.len() as int),
        enc(a1, b1, ntt(s), pneg(pmul(ntt(s), ntt(m))), e1, bits1), enc(a2, b2, ntt(s), ntt(m), e2, bits2),
        forall|j: int| 0 <= j < e1.len() ==> #[trigger] e1[j] == pzero(ca.len()), forall|j: int| 0 <= j < e2.len() ==> #[trigger] e2[j] == pzero(ca.len()),
    ensures ({
        let n = ca.len();
        let ra = gacc(gacc(pzero(n), a1, ca, bits1, a1.len()), a2, cb, bits2, a2.len());
        let rb = gacc(gacc(pzero(n), b1, ca, bits1, a1.len()), b2, cb, bits2, a2.len());
        psub(intt(rb), negmul(intt(ra), s)) == negmul(psub(cb, negmul(ca, s)), m) }),
{
    axiom_p();
    let n = ca.len();
    lemma_external_phase(ca, cb, a1, b1, a2, b2, s, m, e1, e2, bits1, bits2);
    lemma_zero_noise(e1, ca, bits1, a1.len()); lemma_zero_noise(e2, cb, bits2, a2.len());
    let ra = gacc(gacc(pzero(n), a1, ca, bits1, a1.len()), a2, cb, bits2, a2.len());
    let rb = gacc(gacc(pzero(n), b1, ca, bits1, a1.len()), b2, cb, bits2, a2.len());
    let ph = psub(cb, negmul(ca, s));
    lemma_rph(ca, cb, s);
    let t = negmul(ph, m);
    axiom_ntt(ph, m);
    axiom_ntt(t, t);
    let z = padd(pzero(n), pzero(n));
    assert forall|i: int| 0 <= i < n implies #[trigger] padd(ntt(t), z)[i] == ntt(t)[i] by { lemma_small_mod(0, P() as nat); lemma_small_mod(ntt(t)[i] as nat, P() as nat); }
    assert(padd(ntt(t), z) =~= ntt(t));
    lemma_gacc_res(pzero(n), a1, ca, bits1, a1.len()); lemma_gacc_res(pzero(n), b1, ca, bits1, a1.len());
    lemma_gacc_res(gacc(pzero(n), a1, ca, bits1, a1.len()), a2, cb, bits2, a2.len()); lemma_gacc_res(gacc(pzero(n), b1, ca, bits1, a1.len()), b2, cb, bits2, a2.len());
    axiom_ntt(ra, rb); axiom_ntt(rb, ra);
    lemma_rph(intt(ra), intt(rb), s);
    let r = psub(intt(rb), negmul(intt(ra), s));
    axiom_ntt(r, r);
}
proof fn lemma_zero_noise(e: Seq<Seq<int>>, p: Seq<int>, bits: nat, k: nat)
    requires forall|j: int| 0 <= j < e.len() ==> #[trigger] e[j] == pzero(p.len()), k <= e.len(),
    ensures gnoise(e, p, bits, k) == pzero(p.len()), decreases k,
{
    axiom_p();
    lemma_gacc_len(pzero(p.len()), e, p, bits, k);
    if k > 0 {
        lemma_zero_noise(e, p, bits, (k - 1) as nat);
        let d = ntt(dpoly(p, bits, (k - 1) as nat));
        assert(e[k - 1] == pzero(p.len()));
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] gnoise(e, p, bits, k)[i] == 0 by { assert(0 * d[i] == 0); lemma_small_mod(0, P() as nat); }
        assert(gnoise(e, p, bits, k) =~= pzero(p.len()));
    }
}
