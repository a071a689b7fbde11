/// the random source: what it yields is arbitrary
#[verifier::external_body]
pub struct Rn { x: u64 }
/// an error distribution; sup(d, e): d can yield the error e
#[verifier::external_body]
#[derive(Copy)]
pub struct Dg { x: u64 }
impl Clone for Dg { #[verifier::external_body] fn clone(&self) -> (r: Dg) ensures r == *self { *self } }
pub uninterp spec fn sup(d: Dg, e: int) -> bool;
pub uninterp spec fn dmod(d: Dg) -> int;
pub uninterp spec fn chi(sd: f64, q: int) -> Dg;
impl Dg {
    /// samples are errors of the support, reduced modulo the modulus (decided under C23)
    #[verifier::external_body]
    pub fn sample(&self, rng: &mut Rn) -> (r: $T) ensures exists|e: int| #[trigger] sup(*self, e) && r as int == e % dmod(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vgauss(q: $T, mean: f64, sd: f64) -> (r: Dg) ensures r == chi(sd, q as int), dmod(r) == q { unimplemented!() }
/// `Uniform::new(0, q).sample_iter(rng).take(len).collect()`: any len residues
#[verifier::external_body]
pub fn vuniform(q: $T, rng: &mut Rn, len: usize) -> (r: Vec<$T>) ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i] < q { unimplemented!() }
pub open spec fn phb(b: int, d: int, q: int) -> int { (b - d) % q }
pub open spec fn phase(c: LWE, s: Seq<$T>, q: int) -> int { phb(c.b as int, dsum_$T(c.a@, s, s.len() as int), q) }
/// PrimInt's min on a word
pub trait VMin: Sized { spec fn vmi(self) -> int; fn vmin_(self, o: Self) -> (r: Self) ensures r == (if self.vmi() <= o.vmi() { self } else { o }); }
impl VMin for $T { open spec fn vmi(self) -> int { self as int } fn vmin_(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } }
pub proof fn lemma_gen(d: int, e: int, q: int) requires q > 0, ensures phb((d % q + e % q) % q, d, q) == e % q
{ lemma_add_mod_noop(d, e, q); lemma_sub_mod_noop((d + e) % q, d, q); lemma_sub_mod_noop(d + e, d, q); lemma_mod_twice(d + e, q); }
pub proof fn lemma_enc(b: int, d: int, e: int, k: int, q: int) requires q > 0, phb(b, d, q) == e % q, ensures phb((b + k) % q, d, q) == (k + e) % q
{ lemma_sub_mod_noop((b + k) % q, d, q); lemma_sub_mod_noop(b + k, d, q); lemma_mod_twice(b + k, q); lemma_add_mod_noop(b - d, k, q); lemma_add_mod_noop(e, k, q); lemma_mod_twice(b - d, q); }
pub proof fn lemma_dec(b: int, d: int, q: int) requires q > 0, ensures (b - d % q) % q == phb(b, d, q)
{ lemma_sub_mod_noop_right(b, d, q); }

pub open spec fn par(p: Parameters) -> bool {
    let q = p.lwe_params.cipher_modulus;
    is2_$T(q as int) && tq(p.lwe_params.plain_modulus, q as u64) && p.lwe_params.plain_modulus > 0
}
pub open spec fn pq(p: Parameters) -> int { p.lwe_params.cipher_modulus as int }
pub open spec fn pst(p: Parameters) -> int { step(p.lwe_params.plain_modulus, p.lwe_params.cipher_modulus as u64) }
pub open spec fn pdec(p: Parameters, c: int) -> int { dec(c, p.lwe_params.plain_modulus, p.lwe_params.cipher_modulus as u64) }
/// the magnitude of a residue, as decrypt_with_noise reports it
pub open spec fn mag(d: int, q: int) -> int { if d % q <= (-d) % q { d % q } else { (-d) % q } }
/// C18: a ciphertext whose phase is the encoding plus an error within half a step decrypts to its message, and the reported noise is the error's magnitude
pub proof fn thm_decrypt(p: Parameters, ct: LWE, s: Seq<$T>, m: int, e: int)
    requires par(p), 0 <= m < p.lwe_params.plain_modulus, -pst(p) <= 2 * e < pst(p), phase(ct, s, pq(p)) == (m * pst(p) + e) % pq(p),
    ensures pdec(p, phase(ct, s, pq(p))) == m, mag(phase(ct, s, pq(p)) - m * pst(p), pq(p)) == (if e < 0 { -e } else { e }),
{
    let t = p.lwe_params.plain_modulus; let q = p.lwe_params.cipher_modulus as u64;
    thm_decode(m, e, t, q);
    lemma_tq(t, q);
    let x = m * pst(p);
    let ph = phase(ct, s, pq(p));
    lemma_fundamental_div_mod(x + e, q as int);
    let w = (x + e) / (q as int);
    assert(ph - x == e + (-w) * q && x - ph == -e + w * q) by (nonlinear_arith) requires ph == x + e - q * w;
    lemma_mod_shift(ph - x, e, -w, q as int);
    lemma_mod_shift(x - ph, -e, w, q as int);
    if t >= 2 { assert(2 * step(t, q) <= t * step(t, q)) by (nonlinear_arith) requires t >= 2, step(t, q) >= 0; }
    else { assert(t * step(t, q) == step(t, q)) by (nonlinear_arith) requires t == 1; }
    if e >= 0 { lemma_small_mod(e as nat, q as nat); if e > 0 { lemma_small_mod((q - e) as nat, q as nat); lemma_mod_shift(-e, q - e, -1, q as int); } }
    else { lemma_small_mod((-e) as nat, q as nat); lemma_small_mod((q + e) as nat, q as nat); lemma_mod_shift(e, q + e, -1, q as int); }
}
