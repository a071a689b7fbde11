pub struct Ud_$T { pub lo: $T, pub hi: $T }
/// `Uniform::from(lo..=hi)`, any value of the range
pub fn vuni_$T(lo: $T, hi: $T) -> (r: Ud_$T) ensures r.lo == lo, r.hi == hi { Ud_$T { lo, hi } }
impl Ud_$T {
    #[verifier::external_body]
    pub fn sample(&self, rng: &mut Rn) -> (r: $T) ensures self.lo <= r <= self.hi, r as int == draw(rst(*old(rng)), self.lo as int, self.hi as int), rst(*final(rng)) == nexts(rst(*old(rng))) { unimplemented!() }
}
