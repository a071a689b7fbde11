"""C21: gates, the evaluation key and bootstrapping (the order and the operands of the steps)"""
from common import *
import plain, pow2mod, secret, lut
from vlib import VFile
FC = dict(crate="fhe_core")
ZK = dict(crate="zkfhe")
TXT = """
/// std: TryInto/TryFrom of a word
pub fn vtous(x: $T) -> (r: usize) ensures r == x { x as usize }
pub fn vtow(x: u64) -> (r: $T) requires x <= $MAX, ensures r == x { x as $T }
/// numbers of the ring's field
pub uninterp spec fn P() -> int;
#[verifier::external_body]
pub proof fn axiom_p() ensures P() >= 8, { }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Val { x: u64 }
pub uninterp spec fn vv(v: Val) -> int;
#[verifier::external_body]
pub fn vmodulus() -> (r: Val) ensures vv(r) == P() { unimplemented!() }
#[verifier::external_body]
pub fn vshr(a: Val, k: u32) -> (r: Val) requires vv(a) >= 0, ensures vv(r) == vv(a) / (pow2(k as nat) as int) { unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fe { x: u64 }
pub uninterp spec fn fv(x: Fe) -> int;
impl Fe {
    #[verifier::external_body]
    pub fn new(v: Val) -> (r: Fe) requires 0 <= vv(v) < P(), ensures fv(r) == vv(v) { unimplemented!() }
}
/// ring objects, as the gates look at them
#[verifier::external_body]
pub struct Poly { x: u64 }
#[verifier::external_body]
pub struct Rlwe { x: u64 }
#[verifier::external_body]
pub struct LweF { x: u64 }
#[verifier::external_body]
pub struct Rs { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Bas { x: u64 }
/// l is the table of lut.py: dimension n, step, and the quarter qt at which the sign changes from -sg to sg
pub uninterp spec fn istab(l: Poly, n: int, step: int, qt: int, sg: int) -> bool;
pub uninterp spec fn plen(l: Poly) -> int;
pub uninterp spec fn rlen(a: Rlwe) -> int;
pub uninterp spec fn flen(a: LweF) -> int;
$TABS
/// the decided operations: modulus switching C19, blind rotation C22, extraction C15, key switching C20, key generation C20 and C22
pub uninterp spec fn msw(c: LWE, q: int, m: int) -> LWE;
pub uninterp spec fn msf(c: LweF, q: int) -> LWE;
pub uninterp spec fn brot(k: BlindRotationKey, l: Poly, c: LWE, b: Bas) -> Rlwe;
pub uninterp spec fn addb(a: Rlwe, i: int, x: int) -> Rlwe;
pub uninterp spec fn ext(a: Rlwe) -> LweF;
pub uninterp spec fn ksl(k: KeySwitchingLWEKey, c: LWE) -> LWE;
pub uninterp spec fn ksr(k: KeySwitchingRLWEKey, a: Rlwe) -> LweF;
pub uninterp spec fn isbrk(k: BlindRotationKey, s: SecretKeyPack) -> bool;
pub uninterp spec fn isksl(k: KeySwitchingLWEKey, s: SecretKeyPack) -> bool;
pub uninterp spec fn isksr(k: KeySwitchingRLWEKey, s: SecretKeyPack) -> bool;
/// the number of mask entries a key accepts (kin) and gives (kout)
pub uninterp spec fn brin(k: BlindRotationKey) -> int;
pub uninterp spec fn klin(k: KeySwitchingLWEKey) -> int;
pub uninterp spec fn klout(k: KeySwitchingLWEKey) -> int;
pub uninterp spec fn krin(k: KeySwitchingRLWEKey) -> int;
pub uninterp spec fn krout(k: KeySwitchingRLWEKey) -> int;
#[verifier::external_body]
pub struct BlindRotationKey { x: u64 }
#[verifier::external_body]
pub struct KeySwitchingLWEKey { x: u64 }
#[verifier::external_body]
pub struct KeySwitchingRLWEKey { x: u64 }
pub enum KeySwitchingKeyEnum { LWE(KeySwitchingLWEKey), RLWE(KeySwitchingRLWEKey), None }
pub open spec fn below(c: LWE, q: int) -> bool { c.b < q && forall|i: int| 0 <= i < c.a@.len() ==> (#[trigger] c.a@[i]) < q }
#[verifier::external_body]
pub fn lwe_modulus_switch_assign_between_modulus(c: &mut LWE, q: $T, m: $T) requires is2_$T(q as int), below(*old(c), q as int), ensures *final(c) == msw(*old(c), q as int, m as int), final(c).a@.len() == old(c).a@.len() { unimplemented!() }
#[verifier::external_body]
pub fn lwe_modulus_switch(c: LweF, q: $T) -> (r: LWE) ensures r == msf(c, q as int), r.a@.len() == flen(c), below(r, q as int) { unimplemented!() }
#[verifier::external_body]
pub fn lwe_modulus_switch_inplace(c: LweF, q: $T, r: &mut LWE) requires old(r).a@.len() == flen(c), ensures *final(r) == msf(c, q as int), final(r).a@.len() == flen(c), below(*final(r), q as int) { unimplemented!() }
impl BlindRotationKey {
    #[verifier::external_body]
    pub fn blind_rotate(&self, l: Poly, c: &LWE, b: Bas) -> (r: Rlwe) requires brin(*self) == c.a@.len(), ensures r == brot(*self, l, *c, b), rlen(r) == plen(l) { unimplemented!() }
    #[verifier::external_body]
    pub fn generate(s: &SecretKeyPack, g: &mut Rn) -> (r: BlindRotationKey) ensures isbrk(r, *s) { unimplemented!() }
}
impl Rlwe {
    #[verifier::external_body]
    pub fn extract_lwe_locally(self) -> (r: LweF) ensures r == ext(self), flen(r) == rlen(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vaddb(a: &mut Rlwe, i: usize, x: Fe) requires i < rlen(*old(a)), ensures *final(a) == addb(*old(a), i as int, fv(x)), rlen(*final(a)) == rlen(*old(a)) { unimplemented!() }
impl KeySwitchingLWEKey {
    #[verifier::external_body]
    pub fn key_switch_for_lwe(&self, c: LWE) -> (r: LWE) requires klin(*self) == c.a@.len(), ensures r == ksl(*self, c), r.a@.len() == klout(*self), below(r, mq(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn generate(s: &SecretKeyPack, g: &mut Rn) -> (r: KeySwitchingLWEKey) ensures isksl(r, *s) { unimplemented!() }
}
pub uninterp spec fn mq(k: KeySwitchingLWEKey) -> int;
impl KeySwitchingRLWEKey {
    #[verifier::external_body]
    pub fn key_switch_for_rlwe(&self, c: Rlwe) -> (r: LweF) requires krin(*self) == rlen(c), ensures r == ksr(*self, c), flen(r) == krout(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn generate(s: &SecretKeyPack, g: &mut Rn) -> (r: KeySwitchingRLWEKey) ensures isksr(r, *s) { unimplemented!() }
}
"""
TXT2 = """
/// r = al x + be y + ga z, entry by entry, modulo q
pub open spec fn lc(r: LWE, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int, q: int) -> bool {
    r.a@.len() == x.a@.len() && (forall|i: int| 0 <= i < x.a@.len() ==> (#[trigger] r.a@[i]) as int == (al * x.a@[i] + be * y.a@[i] + ga * z.a@[i]) % q) && r.b as int == (al * x.b + be * y.b + ga * z.b) % q
}
pub open spec fn nn(p: Parameters) -> int { p.blind_rotation_params.dimension as int }
pub open spec fn stepof(n: int, q: int) -> int { if (2 * n) % q == 0 { (2 * n) / q } else { 1 } }
/// parameters of an evaluation key: what Parameters::new admits (C25), the moduli dividing one another
pub open spec fn pok(p: Parameters) -> bool {
    let q = pq(p); let n = nn(p);
    is2_$T(q) && 8 <= q && n >= 4 && n % 4 == 0 && 2 * n <= $MAX && n <= 0x1000_0000_0000_0000 && ((2 * n) % q == 0 || q % (2 * n) == 0) && (n / 4) % stepof(n, q) == 0
}
pub open spec fn ekok(k: EvaluationKey) -> bool {
    let p = k.parameters; let n = nn(p); let d = p.lwe_params.dimension as int;
    pok(p) && brin(k.blind_rotation_key) == d && match p.steps {
        Steps::BrMsKs => match k.key_switching_key { KeySwitchingKeyEnum::LWE(x) => klin(x) == n && klout(x) == d && mq(x) == pq(p), _ => false },
        Steps::BrKsMs => match k.key_switching_key { KeySwitchingKeyEnum::RLWE(x) => krin(x) == n && krout(x) == d, _ => false },
        Steps::BrMs => d == n,
    }
}
/// C21: what a bootstrap computes
pub open spec fn boot(k: EvaluationKey, c: LWE, l: Poly) -> LWE {
    let p = k.parameters; let q = pq(p);
    let acc = addb(brot(k.blind_rotation_key, l, msw(c, q, 2 * nn(p)), p.blind_rotation_params.basis), 0, P() / 8);
    match p.steps {
        Steps::BrMsKs => ksl(k.key_switching_key->LWE_0, msf(ext(acc), q)),
        Steps::BrKsMs => msf(ksr(k.key_switching_key->RLWE_0, acc), q),
        Steps::BrMs => msf(ext(acc), q),
    }
}
pub open spec fn okct(k: EvaluationKey, c: LWE) -> bool { c.a@.len() == k.parameters.lwe_params.dimension && below(c, pq(k.parameters)) }
/// r is the bootstrap of c with the table of (qt, sg)
pub open spec fn gate(k: EvaluationKey, c: LWE, l: Poly, qt: int, sg: int, r: LWE) -> bool { istab(l, nn(k.parameters), stepof(nn(k.parameters), pq(k.parameters)), qt, sg) && r == boot(k, c, l) && okct(k, r) }
/// negation: the phase's negative plus a quarter of the modulus
pub open spec fn negq(r: LWE, c: LWE, q: int) -> bool { r.a@.len() == c.a@.len() && (forall|i: int| 0 <= i < c.a@.len() ==> (#[trigger] r.a@[i]) as int == (-(c.a@[i] as int)) % q) && r.b as int == (q / 4 - c.b) % q }
/// r is the result of the gate with table (qt, sg) on al x + be y + ga z
pub open spec fn has(k: EvaluationKey, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int, qt: int, sg: int, r: LWE) -> bool {
    exists|c: LWE, l: Poly| #![trigger boot(k, c, l)] lc(c, x, y, z, al, be, ga, pq(k.parameters)) && gate(k, c, l, qt, sg, r) && boot(k, c, l) == r
}
pub open spec fn isand(k: EvaluationKey, x: LWE, y: LWE, r: LWE) -> bool { has(k, x, y, y, 1, 1, 0, 3, 1, r) }
pub open spec fn hasmux(k: EvaluationKey, c0: LWE, c1: LWE, c2: LWE, r: LWE) -> bool {
    exists|n0: LWE, t0: LWE, t1: LWE| #![trigger negq(n0, c0, pq(k.parameters)), isand(k, c0, c1, t0), isand(k, n0, c2, t1)]
        negq(n0, c0, pq(k.parameters)) && isand(k, c0, c1, t0) && isand(k, n0, c2, t1) && has(k, t0, t1, t1, 1, 1, 0, 1, 1, r)
}
proof fn lemma_one(x: int, y: int, z: int, al: int, be: int, ga: int, a1: int, b1: int, d: int, c: int, q: int, a2: int, b2: int)
    requires q > 0, d == (a1 * x + b1 * y + 0 * y) % q, c == (a2 * d + b2 * z + 0 * z) % q, al == a2 * a1, be == a2 * b1, ga == b2,
    ensures c == (al * x + be * y + ga * z) % q
{
    let s = a1 * x + b1 * y + 0 * y; let t = b2 * z + 0 * z;
    assert(a2 * s + t == al * x + be * y + ga * z) by (nonlinear_arith) requires al == a2 * a1, be == a2 * b1, ga == b2, s == a1 * x + b1 * y + 0 * y, t == b2 * z + 0 * z;
    lemma_mul_mod_noop(a2, s, q); lemma_mul_mod_noop(a2, d, q); lemma_mod_twice(s, q); lemma_add_mod_noop(a2 * s, t, q); lemma_add_mod_noop(a2 * d, t, q);
}
/// two linear combinations in a row
pub proof fn lemma_chain(k: EvaluationKey, x: LWE, y: LWE, z: LWE, a2: int, b2: int)
    requires pq(k.parameters) > 0, x.a@.len() == y.a@.len(),
    ensures forall|d: LWE, c: LWE, a1: int, b1: int| #![trigger lc(d, x, y, y, a1, b1, 0, pq(k.parameters)), lc(c, d, z, z, a2, b2, 0, pq(k.parameters))] lc(d, x, y, y, a1, b1, 0, pq(k.parameters)) && lc(c, d, z, z, a2, b2, 0, pq(k.parameters)) && a2 == 1 ==> lc(c, x, y, z, a1, b1, b2, pq(k.parameters)),
        forall|d: LWE, c: LWE, a1: int, b1: int, a2: int| #![trigger lc(d, x, y, y, a1, b1, 0, pq(k.parameters)), lc(c, d, d, d, a2, 0, 0, pq(k.parameters))] lc(d, x, y, y, a1, b1, 0, pq(k.parameters)) && lc(c, d, d, d, a2, 0, 0, pq(k.parameters)) ==> lc(c, x, y, y, a2 * a1, a2 * b1, 0, pq(k.parameters)),
{
    let q = pq(k.parameters);
    assert forall|d: LWE, c: LWE, a1: int, b1: int| #![trigger lc(d, x, y, y, a1, b1, 0, q), lc(c, d, z, z, a2, b2, 0, q)] lc(d, x, y, y, a1, b1, 0, q) && lc(c, d, z, z, a2, b2, 0, q) && a2 == 1 implies lc(c, x, y, z, a1, b1, b2, q) by {
        assert forall|i: int| 0 <= i < x.a@.len() implies (#[trigger] c.a@[i]) as int == (a1 * x.a@[i] + b1 * y.a@[i] + b2 * z.a@[i]) % q by { let _ = d.a@[i]; lemma_one(x.a@[i] as int, y.a@[i] as int, z.a@[i] as int, a1, b1, b2, a1, b1, d.a@[i] as int, c.a@[i] as int, q, a2, b2); }
        lemma_one(x.b as int, y.b as int, z.b as int, a1, b1, b2, a1, b1, d.b as int, c.b as int, q, a2, b2);
    }
    assert forall|d: LWE, c: LWE, a1: int, b1: int, a2: int| #![trigger lc(d, x, y, y, a1, b1, 0, q), lc(c, d, d, d, a2, 0, 0, q)] lc(d, x, y, y, a1, b1, 0, q) && lc(c, d, d, d, a2, 0, 0, q) implies lc(c, x, y, y, a2 * a1, a2 * b1, 0, q) by {
        assert forall|i: int| 0 <= i < x.a@.len() implies (#[trigger] c.a@[i]) as int == ((a2 * a1) * x.a@[i] + (a2 * b1) * y.a@[i] + 0 * y.a@[i]) % q by { let _ = d.a@[i]; lemma_one(x.a@[i] as int, y.a@[i] as int, d.a@[i] as int, a2 * a1, a2 * b1, 0, a1, b1, d.a@[i] as int, c.a@[i] as int, q, a2, 0); }
        lemma_one(x.b as int, y.b as int, d.b as int, a2 * a1, a2 * b1, 0, a1, b1, d.b as int, c.b as int, q, a2, 0);
    }
}
pub proof fn lemma_below(c: LWE, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int, q: int) requires q > 0, lc(c, x, y, z, al, be, ga, q) ensures below(c, q)
{ assert forall|i: int| 0 <= i < c.a@.len() implies (#[trigger] c.a@[i]) < q by { lemma_mod_bound(al * x.a@[i] + be * y.a@[i] + ga * z.a@[i], q); } lemma_mod_bound(al * x.b + be * y.b + ga * z.b, q); }
pub proof fn lemma_belows(q: int) requires q > 0 ensures forall|c: LWE, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int| #[trigger] lc(c, x, y, z, al, be, ga, q) ==> below(c, q)
{ assert forall|c: LWE, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int| #[trigger] lc(c, x, y, z, al, be, ga, q) implies below(c, q) by { lemma_below(c, x, y, z, al, be, ga, q); } }
pub proof fn lemma_stepof(p: Parameters) requires pok(p) ensures stepof(nn(p), pq(p)) > 0, (1 * (nn(p) / 4)) % stepof(nn(p), pq(p)) == 0, (2 * (nn(p) / 4)) % stepof(nn(p), pq(p)) == 0, (3 * (nn(p) / 4)) % stepof(nn(p), pq(p)) == 0
{
    let n = nn(p); let q = pq(p);
    if (2 * n) % q == 0 { lemma_fundamental_div_mod(2 * n, q); assert((2 * n) / q > 0) by (nonlinear_arith) requires 2 * n == q * ((2 * n) / q), n > 0, q > 0; }
    lemma_quarters(n / 4, stepof(n, q));
}
pub proof fn lemma_not(b: $T, q: $T) requires b < q, 8 <= q ensures q >> 2u32 == q / 4, forall|x: $T| #![trigger (x + q / 4) % (q as int)] x as int == (-(b as int)) % (q as int) ==> (x + q / 4) % (q as int) == (q / 4 - b) % (q as int), forall|x: int| #![trigger x % (q as int)] 0 <= x % (q as int) < q
{
    assert(q >> 2u32 == q / 4) by (bit_vector);
    lemma_add_mod_noop(-(b as int), q as int / 4, q as int); lemma_small_mod((q / 4) as nat, q as nat);
    assert forall|x: int| #![trigger x % (q as int)] 0 <= x % (q as int) < q by { lemma_mod_bound(x, q as int); }
}
pub proof fn lemma_comm() ensures forall|a: int, b: int| #![trigger a * b] a * b == b * a { assert forall|a: int, b: int| #![trigger a * b] a * b == b * a by { assert(a * b == b * a) by (nonlinear_arith); } }
pub proof fn lemma_quarters(k: int, s: int) requires s > 0, k % s == 0, ensures (1 * k) % s == 0, (2 * k) % s == 0, (3 * k) % s == 0
{ lemma_fundamental_div_mod(k, s); let d = k / s; assert(2 * k == (2 * d) * s && 3 * k == (3 * d) * s) by (nonlinear_arith) requires k == s * d; lemma_mod_multiples_basic(2 * d, s); lemma_mod_multiples_basic(3 * d, s); }
"""
def file(w, name=None):
    w = dict(w, BIGB=w["B"], MAXV=w["MAX"])
    T = w["T"]
    v = VFile(name or "c21_gates_" + T)
    v.supers["LWEModulusType"] = " + Copy"
    plain.base(v, w)
    pow2mod.fns(v, w)
    secret.lwe(v, w)
    c = [(r"\bC\b", T), (r"\bQ\b", "Qf")] + secret.TY + [(r"(\w+Parameters|Parameters|EvaluationKey|KeySwitchingKeyEnum|BlindRotationKey|KeySwitchingLWEKey|KeySwitchingRLWEKey|SecretKeyPack|Evaluator)\s*(::\s*)?<[^<>]*>", r"\1"), (r"Basis\s*<[^>]*>", "Bas"), (r"<\s*Qf\s+as\s+\w+\s*>\s*::\s*Value", "Val"), (r"<\s*Qf\s*>\s*::\s*Value", "Val"), (r"Qf\s*::\s*Value", "Val")]
    A = "#[derive(Clone, Copy)]"
    v.text("/// fhe_core: Steps\n#[derive(Clone, Copy)]\npub enum Steps { BrMsKs, BrKsMs, BrMs }\n")
    v.struct("LWEParameters", tysub=c, drop=("secret_key_type",), attrs=A, **FC)
    v.struct("BlindRotationParameters", tysub=c, drop=("secret_key_type",), attrs=A, **FC)
    v.struct("KeySwitchingParameters", tysub=c, attrs=A, **FC)
    v.struct("Parameters", tysub=c, attrs=A, **FC)
    v.struct("SecretKeyPack", tysub=c, drop=("ntt_ring_secret_key", "ring_secret_key"), attrs="", **FC)
    v.include("secret.rs", w)
    GW = [("nand", 3, -1), ("and_majority", 3, 1), ("or", 1, 1), ("nor", 1, -1), ("xor", 2, 1), ("xnor", 2, -1)]
    tabs = "".join("/// decided in lut.py\n#[verifier::external_body]\npub fn init_%s_lut(n: usize, step: usize) -> (r: Poly) requires n > 0, n %% 4 == 0, step > 0, (%d * (n / 4)) %% (step as int) == 0, ensures istab(r, n as int, step as int, %d, %d), plen(r) == n { unimplemented!() }\n" % (g, qt, qt, sg) for g, qt, sg in GW)
    v.text(TXT.replace("$TABS", tabs), w)
    v.struct("EvaluationKey", tysub=c, attrs="", **ZK)
    v.struct("Evaluator", tysub=c, attrs="", **ZK)
    v.text(TXT2, w)
    v.include("gates_lin.rs", w)
    v.fn("LWEModulusType for $T", "to_power_of_2_modulus", env=w, post=["wf2_$T($r)", "$r.mask + 1 == $0"], panics="!is2_$T($0 as int)", **FC)
    k = dict(env=w, subst={"C": "$T", "Q": "Qf"}, tysub=c, free=True, method_of="Parameters", **FC)
    P = "Parameters<$T, Qf>"
    for f, e in (("lwe_cipher_modulus_value", "lwe_params.cipher_modulus"), ("ring_dimension", "blind_rotation_params.dimension"), ("blind_rotation_basis", "blind_rotation_params.basis"), ("steps", "steps")):
        v.fn(P, f, post="$r == $0." + e, **k)
    v.fn(P, "lwe_cipher_modulus", pre="is2_$T(pq($0))", post=["wf2_$T($r)", "$r.mask + 1 == pq($0)"], **k)
    v.fn("SecretKeyPack<$T, Qf>", "parameters", post="*$r == $0.parameters", **dict(k, method_of="SecretKeyPack"))
    lwe(v, w)
    ev(v, w, c)
    return v
L = [(r"LWE\s*<\s*\w+\s*>", "LWE"), (r"self\s*\.\s*a\s*\.\s*as_ref\s*\(\s*\)", "self.a.as_slice()")]
def lwe(v, w):
    k = dict(crate="lattice", subst={"T": "$T", "M": "PowOf2Modulus<$T>"}, env=w, free=True, method_of="LWE", tysub=L)
    v.fn("LWE<$T>", "new", post=["$r.a == $0", "$r.b == $1"], **k)
    q = "(%s.mask + 1)"
    def entry(al, be, x, y): return "(%s * %s + %s * %s + 0 * %s) %% " % (al, x, be, y, y)
    for f, al, be in (("add", 1, 1), ("sub", 1, -1)):
        E = entry(al, be, "@X.a@[i]", "$1.a@[i]") + "($2.mask + 1)"
        v.fn("LWE<$T>", f + "_reduce_component_wise_ref", pre=["wf2_$T($2)", "$0.a@.len() == $1.a@.len()"], post=["lc($r, $0, $1, $1, %d, %d, 0, $2.mask + 1)" % (al, be)],
             loops={0: dict(accty="Vec<$T>", inv=["0 <= __i0 <= __n0", "__n0 == self.a@.len()", "__acc0@.len() == __i0", "wf2_$T(modulus)", "__s0_0@ == $1.a@", "$1.a@.len() == __n0", "forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i]) as int == " + E.replace("@X", "self")])}, **k)
    E = entry(1, 1, "__g0.a@[i]", "$1.a@[i]") + "($2.mask + 1)"
    base = ["0 <= __i0 <= __n0", "__n0 == __g0.a@.len()", "self.a@.len() == __n0", "self.b == __g0.b", "wf2_$T(modulus)", "forall|j: int| __i0 <= j < __n0 ==> #[trigger] self.a@[j] == __g0.a@[j]"]
    v.fn("LWE<$T>", "add_reduce_inplace_component_wise", pre=["wf2_$T($2)", "$0.a@.len() == $1.a@.len()"], post=["lc($n0, $o0, $1, $1, 1, 1, 0, $2.mask + 1)"],
         loops={0: dict(inv=base + ["__s0_0@ == $1.a@", "$1.a@.len() == __n0", "forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.a@[i]) as int == " + E])}, **k)
    E = entry("$1", 0, "__g0.a@[i]", "__g0.a@[i]") + "($2.mask + 1)"
    v.fn("LWE<$T>", "scalar_mul_reduce_inplace", pre=["wf2_$T($2)"], post=["lc($n0, $o0, $o0, $o0, $1 as int, 0, 0, $2.mask + 1)"],
         hints="lemma_comm();", loops={0: dict(inv=base + ["forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.a@[i]) as int == " + E], head="lemma_comm();")}, **k)
    E = "(-($0.a@[i] as int)) % ($1.mask + 1)"
    v.fn("LWE<$T>", "neg_reduce", pre=["wf2_$T($1)"], post=["$r.a@.len() == $0.a@.len()", "forall|i: int| 0 <= i < $0.a@.len() ==> (#[trigger] $r.a@[i]) as int == " + E, "$r.b as int == (-($0.b as int)) % ($1.mask + 1)"],
         loops={0: dict(accty="Vec<$T>", inv=["0 <= __i0 <= __n0", "__n0 == self.a@.len()", "__acc0@.len() == __i0", "wf2_$T(modulus)", "forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i]) as int == " + E.replace("$0", "self")])}, **k)
def ev(v, w, c):
    U = r"\s*\.\s*ok\s*\(\s*\)\s*\.\s*unwrap\s*\(\s*\)"
    ty = [(r"self\s*\.\s*parameters\s*\.\s*lwe_cipher_modulus_value\s*\(\s*\)\s*\.\s*try_into\s*\(\s*\)" + U, "vtous(self.parameters.lwe_cipher_modulus_value())"),
          (r"\b%s\s*::\s*try_from\s*\(\s*\(\s*parameters\s*\.\s*ring_dimension\s*\(\s*\)\s*<<\s*1\s*\)\s*as\s+u64\s*\)" % w["T"] + U, "vtow((parameters.ring_dimension() << 1) as u64)"),
          (r"\b(\w+)\s*\.\s*b_mut\s*\(\s*\)\s*\[\s*0\s*\]\s*\+=\s*([^;]*);", r"vaddb(&mut \1, 0, \2);"), (r"\bQf\s*::\s*new", "Fe::new"), (r"\bQf\s*::\s*MODULUS_VALUE\b", "vmodulus()"), (r"(vmodulus\(\))\s*>>\s*3u32", r"vshr(\1, 3u32)"),
          (r"\b%s\s*::\s*TWO\b" % w["T"], "(2 as $T)"), (r"Polynomial\s*<[^>]*>", "Poly")] + c
    k = dict(env=w, subst={"C": "$T", "Q": "Qf", "R": "Rn"}, tysub=ty, free=True, **ZK)
    e = dict(k, method_of="EvaluationKey")
    EK = "EvaluationKey<$T, Qf>"
    v.fn(EK, "parameters", post="*$r == $0.parameters", **e)
    v.fn(EK, "lut_step", pre="pok($0.parameters)", post=["$r as int == stepof(nn($0.parameters), pq($0.parameters))", "$r > 0"], hints="let n = self.parameters.blind_rotation_params.dimension; assert(n << 1 == 2 * n) by (bit_vector) requires n <= 0x1000_0000_0000_0000; let q = pq(self.parameters); if (2 * n) % q == 0 { lemma_fundamental_div_mod(2 * n, q); assert((2 * n) / q > 0) by (nonlinear_arith) requires 2 * n == q * ((2 * n) / q), n > 0, q > 0; }", **e)
    v.fn(EK, "new", post=["$r.parameters == $0.parameters", "isbrk($r.blind_rotation_key, $0)", "match $0.parameters.steps { Steps::BrMsKs => ($r.key_switching_key matches KeySwitchingKeyEnum::LWE(x) && isksl(x, $0)), Steps::BrKsMs => ($r.key_switching_key matches KeySwitchingKeyEnum::RLWE(x) && isksr(x, $0)), Steps::BrMs => $r.key_switching_key is None }"], **e)
    v.fn(EK, "bootstrap", pre=["ekok($0)", "okct($0, $1)", "plen($2) == nn($0.parameters)"], post=["$r == boot($0, $1, $2)", "okct($0, $r)"],
         hints="let n = self.parameters.blind_rotation_params.dimension; assert(n << 1 == 2 * n) by (bit_vector) requires n <= 0x1000_0000_0000_0000; axiom_p(); lemma2_to64();", **e)
    k = dict(k, method_of="Evaluator")
    EV = "Evaluator<$T, Qf>"
    v.fn(EV, "new", post=["$r.ek.parameters == $0.parameters", "isbrk($r.ek.blind_rotation_key, $0)"], **k)
    v.fn(EV, "parameters", post="*$r == $0.ek.parameters", **k)
    v.fn(EV, "bootstrap", pre=["ekok($0.ek)", "okct($0.ek, $1)", "plen($2) == nn($0.ek.parameters)"], post=["$r == boot($0.ek, $1, $2)", "okct($0.ek, $r)"], **k)
    v.fn(EV, "not", pre=["ekok($0.ek)", "okct($0.ek, $1)"], post=["negq($r, $1, pq($0.ek.parameters))", "okct($0.ek, $r)"], hints="lemma_not($1.b, self.ek.parameters.lwe_params.cipher_modulus);", **k)
    H = "let p = self.ek.parameters; lemma_stepof(p); lemma_belows(pq(p)); "
    B = ["ekok($0.ek)", "okct($0.ek, $1)", "okct($0.ek, $2)"]
    for g, s, al, qt, sg in (("nand", 1, 1, 3, -1), ("and", 1, 1, 3, 1), ("or", 1, 1, 1, 1), ("nor", 1, 1, 1, -1), ("xor", -1, 2, 2, 1), ("xnor", -1, 2, 2, -1)):
        post = "isand($0.ek, $1, $2, $r)" if g == "and" else "has($0.ek, $1, $2, $2, %d, %d, 0, %d, %d, $r)" % (al, s * al, qt, sg)
        v.fn(EV, g, pre=B, post=[post, "okct($0.ek, $r)"], hints=H + ("lemma_chain(self.ek, *$1, *$2, *$2, 1, 1);" if al == 2 else ""), **k)
    v.fn(EV, "majority", pre=B + ["okct($0.ek, $3)"], post=["has($0.ek, $1, $2, $3, 1, 1, 1, 3, 1, $r)", "okct($0.ek, $r)"], hints=H + "lemma_chain(self.ek, *$1, *$2, *$3, 1, 1);", **k)
    v.fn(EV, "mux", pre=B + ["okct($0.ek, $3)"], post=["hasmux($0.ek, $1, $2, $3, $r)", "okct($0.ek, $r)"], hints=H, **dict(k, tysub=[(r"\b(?:rayon\s*::\s*)?join\s*\(\s*\|\s*\|\s*([^,]*\([^()]*\))\s*,\s*\|\s*\|\s*([^,]*\([^()]*\))\s*\)", r"(\1, \2)")] + ty))
    for g, n, x in (("not", 1, "!$0"), ("and", 2, "($0 && $1)"), ("nand", 2, "!($0 && $1)"), ("or", 2, "($0 || $1)"), ("nor", 2, "!($0 || $1)"), ("xor", 2, "($0 != $1)"), ("xnor", 2, "($0 == $1)"), ("majority", 3, "(if $0 { $1 || $2 } else { $1 && $2 })")):
        v.fn("", g, crate="fhe_core", free=True, cname="plain_" + g, post="$r == " + x, tysub=[(r"(?<!\.)\b(not|and|or|xor|nand|nor|xnor)\s*\(", r"plain_\1("), (r"\s&\s", " && "), (r"\s\|\s", " || "), (r"^\{\s*(\w)\s*\^\s*(\w)\s*\}$", r"{ \1 != \2 }")])
ROOTS = {"bootstrap", "new", "lut_step", "not", "nand", "and", "or", "nor", "xor", "xnor", "majority", "mux", "parameters", "thm_gate_phase", "thm_not_phase"}
def build():
    r = [lut.t()] + [file(w) for w in WIDTHS]
    for v in r[1:]: v.roots = ROOTS
    return r
def t():
    v = file(WIDTHS[2], "c21_g"); v.roots = ROOTS; return v
