// ---- a field whose values are $T words --------------------------------------------------------
#[verifier::external_body]
pub proof fn axiom_word() ensures P() <= $MAX { }
#[verifier::external_body]
pub fn modulus_w() -> (r: $T) ensures r == P() { unimplemented!() }
impl Fe {
    /// Field::new (C08, C09, C10): the residue of the word
    #[verifier::external_body]
    pub fn new(v: $T) -> (r: Fe) ensures canon(r), fv(r) == v as int % P() { unimplemented!() }
}
/// std: NumCast of a small word
pub fn vsmall(x: u32) -> (r: $T) requires x <= 255 ensures r == x { let y = x as $T; proof { assert(x <= 255 ==> (x as $T) as u32 == x) by (bit_vector); } y }
pub open spec fn vpop(x: u8) -> u32 { ((x & 1) + ((x >> 1) & 1) + ((x >> 2) & 1) + ((x >> 3) & 1) + ((x >> 4) & 1) + ((x >> 5) & 1) + ((x >> 6) & 1) + ((x >> 7) & 1)) as u32 }
#[verifier::external_body]
pub fn vcount(x: u8) -> (r: u32) ensures r == vpop(x) { x.count_ones() }
pub proof fn lemma_pop(x: u8) ensures vpop(x) <= 8, vpop(x & 0x1F) <= 5
{
    assert(x & 1 <= 1 && (x >> 1) & 1 <= 1 && (x >> 2) & 1 <= 1 && (x >> 3) & 1 <= 1 && (x >> 4) & 1 <= 1 && (x >> 5) & 1 <= 1 && (x >> 6) & 1 <= 1 && (x >> 7) & 1 <= 1) by (bit_vector);
    let y = x & 0x1F;
    assert(y == x & 0x1F ==> y & 1 <= 1 && (y >> 1) & 1 <= 1 && (y >> 2) & 1 <= 1 && (y >> 3) & 1 <= 1 && (y >> 4) & 1 <= 1 && (y >> 5) & 1 == 0 && (y >> 6) & 1 == 0 && (y >> 7) & 1 == 0) by (bit_vector);
}
/// centred binomial: at most 21 either way
pub open spec fn cbd21(v: int) -> bool { 0 <= v <= 21 || P() - 21 <= v < P() }
/// a uniform sample: the high word of draw times modulus, draws below the threshold in the low word rejected
pub open spec fn thresh() -> int { $SB % P() }
pub open spec fn unif(x: int, v: int) -> bool { 0 <= x < $SB && (x * P()) % $SB >= thresh() && v == (x * P()) / $SB }
/// every residue has the same number of accepted draws
pub proof fn thm_uniform(v: int)
    requires 0 <= v < P(), P() <= $SB
    ensures forall|x: int| #![trigger unif(x, v)] unif(x, v) <==> first(v) <= x < first(v) + $SB / P(), 0 <= first(v), first(v) + $SB / P() <= $SB
{
    let b: int = $SB; let p = P(); let t = b % p; let k = b / p;
    axiom_p();
    lemma_fundamental_div_mod(b, p); lemma_mod_bound(b, p);
    let f = first(v);
    // f = ceil((v b + t) / p)
    let y = v * b + t;
    lemma_fundamental_div_mod(y + p - 1, p); lemma_mod_bound(y + p - 1, p);
    assert(0 <= v * b) by (nonlinear_arith) requires v >= 0, b > 0;
    assert(p * f >= y && p * f < y + p);
    assert(f >= 0) by (nonlinear_arith) requires p * f >= y, y >= 0, p > 0;
    // (v + 1) b = v b + t + k p
    assert((v + 1) * b == v * b + b) by (nonlinear_arith);
    assert(b == k * p + t) by { assert(p * k == k * p) by (nonlinear_arith); }
    assert(k >= 0) by { lemma_div_pos_is_pos(b, p); }
    assert((v + 1) * b <= p * b) by (nonlinear_arith) requires v + 1 <= p, b > 0;
    assert(f + k <= b) by {
        // p (f + k) < y + p + k p = (v + 1) b + p <= p b + p
        assert(p * (f + k) == p * f + k * p) by (nonlinear_arith);
        assert(f + k < b + 1) by (nonlinear_arith) requires p * (f + k) < p * b + p, p > 0;
    }
    assert forall|x: int| #![trigger unif(x, v)] unif(x, v) <==> f <= x < f + k by {
        let z = x * p;
        assert(p * x == z && p * (f + k) == p * f + k * p) by (nonlinear_arith) requires z == x * p;
        if unif(x, v) {
            lemma_fundamental_div_mod(z, b); lemma_mod_bound(z, b);
            assert(b * v == v * b) by (nonlinear_arith);
            assert(z >= y && z < (v + 1) * b);
            assert(x > f - 1) by (nonlinear_arith) requires p * x >= y, p * f < y + p, p > 0;
            assert(x < f + k) by (nonlinear_arith) requires p * x < y + k * p, p * (f + k) == p * f + k * p, p * f >= y, p > 0;
        }
        if f <= x < f + k {
            assert(p * x >= p * f) by (nonlinear_arith) requires x >= f, p > 0;
            assert(p * x <= p * (f + k) - p) by (nonlinear_arith) requires x <= f + k - 1, p > 0;
            assert(z >= y && z < y + k * p);
            lemma_fundamental_div_mod_converse(z, b, v, z - v * b);
        }
    }
}
pub open spec fn first(v: int) -> int { (v * $SB + $SB % P() + P() - 1) / P() }
pub proof fn lemma_high(x: int) requires 0 <= x < $SB, P() <= $SB ensures 0 <= (x * P()) / $SB < P()
{
    axiom_p();
    assert(0 <= x * P() < P() * $SB) by (nonlinear_arith) requires 0 <= x < $SB, P() > 0;
    let z = x * P();
    lemma_fundamental_div_mod(z, $SB as int); lemma_div_pos_is_pos(z, $SB as int);
    let q = z / ($SB as int);
    assert(q < P()) by (nonlinear_arith) requires z == ($SB as int) * q + z % ($SB as int), z % ($SB as int) >= 0, z < P() * $SB;
}
pub uninterp spec fn lastw(r: Rn) -> $SW;
impl Rn {
    #[verifier::external_body]
    pub fn gen_w(&mut self) -> (r: $SW) ensures r == lastw(*final(self)) { unimplemented!() }
}
/// 2^n - P and 2^n agree modulo P
pub proof fn lemma_thresh() requires P() <= $MAX ensures ($SB - P()) % P() == thresh()
{ axiom_p(); lemma_mod_sub_multiples_vanish($SB as int, P()); }

// ---- a sampler drawn n times: `d.sample_iter(rng).take(n).collect()` (rand: one `sample` per entry) ----
pub trait Fsamp: Sized {
    spec fn pre(self) -> bool;
    spec fn ok(self, r: Fe) -> bool;
    fn vsample(&self, rng: &mut Rn) -> (r: Fe) requires self.pre() ensures self.ok(r);
    fn vtake(self, rng: &mut Rn, n: usize) -> (r: Vec<Fe>)
        requires self.pre()
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> self.ok(#[trigger] r@[i])
    {
        let mut v: Vec<Fe> = Vec::new();
        let mut i = 0;
        while i < n invariant i <= n, self.pre(), v@.len() == i, forall|j: int| 0 <= j < i ==> self.ok(#[trigger] v@[j]), decreases n - i
        { let x = self.vsample(rng); v.push(x); i += 1; }
        v
    }
}
impl Fsamp for FieldUniformSampler {
    open spec fn pre(self) -> bool { self.range == P() && self.thresh == thresh() }
    open spec fn ok(self, r: Fe) -> bool { uni(r) }
    fn vsample(&self, rng: &mut Rn) -> (r: Fe) { self.sample(rng) }
}
impl Fsamp for FieldBinarySampler {
    open spec fn pre(self) -> bool { true }
    open spec fn ok(self, r: Fe) -> bool { canon(r) && (fv(r) == 0 || fv(r) == 1) }
    fn vsample(&self, rng: &mut Rn) -> (r: Fe) { let r = self.bin_sample(rng); proof { lemma_shr0(draws(*rng).last()); lemma_and(draws(*rng).last()); } r }
}
impl Fsamp for FieldTernarySampler {
    open spec fn pre(self) -> bool { true }
    open spec fn ok(self, r: Fe) -> bool { canon(r) && (fv(r) == 0 || fv(r) == 1 || fv(r) == P() - 1) }
    fn vsample(&self, rng: &mut Rn) -> (r: Fe) { self.ter_sample(rng) }
}
impl Fsamp for FieldDiscreteGaussianSampler {
    open spec fn pre(self) -> bool { fits(nmean(self.gaussian), self.max_std_dev, P()) && P() <= $MAX }
    open spec fn ok(self, r: Fe) -> bool { canon(r) && noisy(fv(r), nmean(self.gaussian), self.max_std_dev, P()) }
    fn vsample(&self, rng: &mut Rn) -> (r: Fe) { self.dg_sample(rng) }
}
/// a canonical element some accepted draw gives (thm_uniform: all residues have equally many)
pub open spec fn uni(r: Fe) -> bool { canon(r) && exists|x: int| #[trigger] unif(x, fv(r)) }
