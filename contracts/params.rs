#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Cm { x: u64 }
/// an LWE modulus word, by value
pub uninterp spec fn cv(c: Cm) -> u64;
impl Cm {
    #[verifier::external_body]
    pub fn as_into(self) -> (r: u64) ensures r == cv(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_power_of_2_modulus(self) -> (r: Pm) ensures p2(cv(self)), r == pmof(self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Pm { x: u64 }
pub uninterp spec fn pmof(c: Cm) -> Pm;
/// a value of the ring's field; P its modulus, MB the modulus' bits
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Val { pub x: u64 }
pub uninterp spec fn P() -> u64;
pub uninterp spec fn MB() -> int;
#[verifier::external_body]
pub proof fn axiom_p() ensures P() >= 3 { }
#[verifier::external_body]
pub fn vmodulus() -> (r: Val) ensures r.x == P() { unimplemented!() }
/// Into<..>, TryInto<usize> of a field value
pub fn vtousize(v: Val) -> (r: usize) ensures r == v.x { v.x as usize }
pub open spec fn p2(x: u64) -> bool { x > 0 && x & ((x - 1) as u64) == 0 }
/// std: is_power_of_two
pub trait Vp2 { fn vp2_(self) -> bool; }
#[verifier::external_body]
pub fn vp2u(x: usize) -> (r: bool) ensures r == p2(x as u64) { x.is_power_of_two() }
#[verifier::external_body]
pub fn vp2w(x: u64) -> (r: bool) ensures r == p2(x) { x.is_power_of_two() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Bas { x: u64 }
pub uninterp spec fn bas(bits: u32) -> Bas;
impl Bas {
    /// Basis::new: refuses more bits than the modulus has (proved under C11)
    #[verifier::external_body]
    pub fn new(bits: u32) -> (r: Bas) ensures r == bas(bits), bits <= MB() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum Steps { BrMsKs, BrKsMs, BrMs }
#[derive(Clone, Copy)]
pub enum LWESecretKeyType { Binary, Ternary }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum RingSecretKeyType { Binary, Ternary, Gaussian }
pub enum FHECoreError { RingDimensionUnValid(usize), LweModulusRingDimensionNotCompatible { lwe_modulus: usize, ring_dimension: usize }, RingModulusAndDimensionNotCompatible { coeff_modulus: usize, ring_dimension: usize }, StepsParametersNotCompatible }
/// the distributions, by their parameters
#[verifier::external_body]
pub struct Dg { x: u64 }
pub uninterp spec fn chi(q: Cm, mean: f64, sd: f64) -> Dg;
pub uninterp spec fn chif(mean: f64, sd: f64) -> Dg;
#[verifier::external_body]
pub fn vgauss(q: Cm, mean: f64, sd: f64) -> (r: Dg) ensures r == chi(q, mean, sd) { unimplemented!() }
#[verifier::external_body]
pub fn vgaussf(mean: f64, sd: f64) -> (r: Dg) ensures r == chif(mean, sd) { unimplemented!() }
proof fn lemma_p2(n: u64) requires p2(n) ensures n << 1u64 == 0 || n << 1u64 == 2 * n, n << 1u64 == 0 <==> n >= 0x8000_0000_0000_0000
{
    assert(n & ((n - 1) as u64) == 0 && n >= 0x8000_0000_0000_0000 ==> n << 1u64 == 0) by (bit_vector);
    assert(n < 0x8000_0000_0000_0000 && n > 0 ==> n << 1u64 == 2 * n && n << 1u64 != 0) by (bit_vector);
}
proof fn lemma_div(c: int, m: int) requires m > 0, c >= 0 ensures 0 <= (c / m) * m <= c, (c / m) * m == c <==> c % m == 0
{ lemma_fundamental_div_mod(c, m); assert(m * (c / m) == (c / m) * m) by (nonlinear_arith); assert(c / m >= 0 && (c / m) * m >= 0) by (nonlinear_arith) requires c >= 0, m > 0; lemma_mod_bound(c, m); }
/// C25: what is refused, and how; what is accepted, and what it holds
pub open spec fn ringok(x: ConstParameters) -> bool { p2(x.ring_dimension as u64) && x.ring_modulus.x == P() && (P() - 1) % (2 * x.ring_dimension) == 0 }
pub open spec fn lweok(x: ConstParameters) -> bool { p2(cv(x.lwe_plain_modulus)) && p2(cv(x.lwe_cipher_modulus)) && cv(x.lwe_plain_modulus) <= cv(x.lwe_cipher_modulus) }
pub open spec fn holds(p: Parameters, x: ConstParameters) -> bool {
    p.lwe_params.dimension == x.lwe_dimension && p.lwe_params.plain_modulus == cv(x.lwe_plain_modulus) && p.lwe_params.cipher_modulus == x.lwe_cipher_modulus && p.lwe_params.noise_standard_deviation == x.lwe_noise_standard_deviation
    && p.lwe_params.secret_key_type == x.lwe_secret_key_type && p.blind_rotation_params.dimension == x.ring_dimension && p.blind_rotation_params.modulus == x.ring_modulus && p.blind_rotation_params.noise_standard_deviation == x.ring_noise_standard_deviation
    && p.blind_rotation_params.secret_key_type == x.ring_secret_key_type && p.blind_rotation_params.basis == bas(x.blind_rotation_basis_bits) && p.key_switching_params.basis_bits == x.key_switching_basis_bits
    && p.key_switching_params.noise_standard_deviation == x.key_switching_standard_deviation && p.steps == x.steps
}
pub open spec fn verdict(r: Result<Parameters, FHECoreError>, x: ConstParameters) -> bool {
    match r {
        Ok(p) => ringok(x) && lweok(x) && holds(p, x) && x.blind_rotation_basis_bits <= MB(),
        Err(FHECoreError::RingDimensionUnValid(n)) => n == x.ring_dimension && !p2(n as u64),
        Err(FHECoreError::RingModulusAndDimensionNotCompatible { coeff_modulus, ring_dimension }) => coeff_modulus == x.ring_modulus.x && ring_dimension == x.ring_dimension && p2(ring_dimension as u64) && !ringok(x),
        Err(_) => false,
    }
}
// ---- key generation: which distribution, which dimension, and what is refused -----------------
#[verifier::external_body]
pub struct Rn { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fe { x: u64 }
pub uninterp spec fn fz() -> Fe;
pub uninterp spec fn fo() -> Fe;
pub uninterp spec fn fm() -> Fe;
impl Fe {
    #[verifier::external_body]
    pub fn zero() -> (r: Fe) ensures r == fz() { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Fe) ensures r == fo() { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_one() -> (r: Fe) ensures r == fm() { unimplemented!() }
}
impl Cm {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (cv(*self) == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (cv(*self) == 1) { unimplemented!() }
}
pub struct Poly { pub data: Vec<Fe> }
#[verifier::external_body]
pub struct NttPoly { x: u64 }
pub uninterp spec fn nttof(p: Poly) -> NttPoly;
/// what the samplers yield (decided under C23)
pub uninterp spec fn isbin(v: Seq<Cm>) -> bool;
pub uninterp spec fn ister(v: Seq<Cm>, q: Cm) -> bool;
pub uninterp spec fn pbin(v: Seq<Fe>) -> bool;
pub uninterp spec fn pter(v: Seq<Fe>) -> bool;
pub uninterp spec fn pgau(v: Seq<Fe>, d: Dg) -> bool;
#[verifier::external_body]
pub fn sample_binary_values(n: usize, g: &mut Rn) -> (r: Vec<Cm>) ensures r@.len() == n, isbin(r@) { unimplemented!() }
#[verifier::external_body]
pub fn sample_ternary_values(q: Cm, n: usize, g: &mut Rn) -> (r: Vec<Cm>) ensures r@.len() == n, ister(r@, q) { unimplemented!() }
impl Poly {
    pub fn new(data: Vec<Fe>) -> (r: Poly) ensures r.data == data { Poly { data } }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Poly) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn into_ntt_polynomial(self) -> (r: NttPoly) ensures r == nttof(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn random_with_binary(n: usize, g: &mut Rn) -> (r: Poly) ensures r.data@.len() == n, pbin(r.data@) { unimplemented!() }
    #[verifier::external_body]
    pub fn random_with_ternary(n: usize, g: &mut Rn) -> (r: Poly) ensures r.data@.len() == n, pter(r.data@) { unimplemented!() }
    #[verifier::external_body]
    pub fn random_with_gaussian(n: usize, g: &mut Rn, d: Dg) -> (r: Poly) ensures r.data@.len() == n, pgau(r.data@, d) { unimplemented!() }
}
pub open spec fn lkey(v: Seq<Cm>, p: LWEParameters) -> bool { v.len() == p.dimension && match p.secret_key_type { LWESecretKeyType::Binary => isbin(v), LWESecretKeyType::Ternary => ister(v, p.cipher_modulus) } }
pub open spec fn conv(c: Cm) -> Fe { if cv(c) == 0 { fz() } else if cv(c) == 1 { fo() } else { fm() } }
pub open spec fn rkey(v: Seq<Fe>, l: Seq<Cm>, p: Parameters) -> bool {
    v.len() == p.blind_rotation_params.dimension && match p.steps {
        Steps::BrMs => v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == conv(l[i]),
        _ => match p.blind_rotation_params.secret_key_type { RingSecretKeyType::Binary => pbin(v), RingSecretKeyType::Ternary => pter(v), RingSecretKeyType::Gaussian => pgau(v, chif(0.0f64, p.blind_rotation_params.noise_standard_deviation)) },
    }
}
/// what key generation refuses
pub open spec fn refuse(p: Parameters) -> bool {
    match p.steps { Steps::BrMsKs => p.blind_rotation_params.secret_key_type is Gaussian, Steps::BrKsMs => false, Steps::BrMs => p.blind_rotation_params.secret_key_type is Gaussian || p.lwe_params.dimension != p.blind_rotation_params.dimension }
}
