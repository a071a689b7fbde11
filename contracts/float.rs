// ---- f64 as the extended real it denotes (IEEE-754 binary64, round to nearest) ----------------
pub enum Xr { Fin(real), Pinf, Ninf, Nan }
#[verifier::external_body]
#[derive(Copy)]
pub struct Fl { x: f64 }
impl Clone for Fl { #[verifier::external_body] fn clone(&self) -> (r: Fl) ensures r == *self { *self } }
pub uninterp spec fn fx(x: Fl) -> Xr;
pub uninterp spec fn fbits(x: Fl) -> u64;
pub open spec fn xlt(a: Xr, b: Xr) -> bool { match (a, b) { (Xr::Fin(x), Xr::Fin(y)) => x < y, (Xr::Fin(_), Xr::Pinf) => true, (Xr::Ninf, Xr::Fin(_)) => true, (Xr::Ninf, Xr::Pinf) => true, _ => false } }
pub open spec fn xeq(a: Xr, b: Xr) -> bool { match (a, b) { (Xr::Fin(x), Xr::Fin(y)) => x == y, (Xr::Pinf, Xr::Pinf) => true, (Xr::Ninf, Xr::Ninf) => true, _ => false } }
pub open spec fn xabs(x: Xr) -> Xr { match x { Xr::Fin(x) => Xr::Fin(if x < 0real { -x } else { x }), Xr::Nan => Xr::Nan, _ => Xr::Pinf } }
/// the integer an integral value is
pub uninterp spec fn fint(x: Fl) -> int;
pub open spec fn isint(x: Fl) -> bool { fx(x) == Xr::Fin(fint(x) as real) }
pub open spec fn isfin(x: Fl) -> bool { fx(x) is Fin }
pub open spec fn fr(x: Fl) -> real { fx(x)->Fin_0 }
impl PartialEq for Fl { #[verifier::external_body] fn eq(&self, o: &Fl) -> (r: bool) { self.x == o.x } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fl) -> bool { xeq(fx(*self), fx(*o)) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> {
        if xlt(fx(*self), fx(*o)) { Some(core::cmp::Ordering::Less) } else if xeq(fx(*self), fx(*o)) { Some(core::cmp::Ordering::Equal) } else if xlt(fx(*o), fx(*self)) { Some(core::cmp::Ordering::Greater) } else { None }
    }
}
impl PartialOrd for Fl { #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> (r: Option<core::cmp::Ordering>) { self.x.partial_cmp(&o.x) } }
/// the correctly rounded product, and the difference (rounding is monotone: it never crosses a binary64 number)
pub uninterp spec fn fmulr(x: Fl, y: Fl) -> Fl;
impl vstd::std_specs::ops::MulSpecImpl<Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: Fl) -> bool { true }
    open spec fn mul_spec(self, rhs: Fl) -> Fl { fmulr(self, rhs) }
}
impl core::ops::Mul<Fl> for Fl { type Output = Fl; #[verifier::external_body] fn mul(self, rhs: Fl) -> (r: Fl) { Fl { x: self.x * rhs.x } } }
pub uninterp spec fn fsubr(x: Fl, y: Fl) -> Fl;
#[verifier::external_body]
pub proof fn axiom_sub(a: Fl, b: Fl, c: Fl)
    ensures !isfin(a) || !isfin(b) ==> !isfin(fsubr(a, b)), isfin(a) && isfin(b) ==> !(fx(fsubr(a, b)) is Nan),
        isfin(a) && isfin(b) && isfin(c) && fr(a) - fr(b) >= fr(c) ==> !xlt(fx(fsubr(a, b)), fx(c)),
        isfin(a) && isfin(b) && isfin(c) && fr(a) - fr(b) <= -fr(c) ==> !xlt(Xr::Fin(-fr(c)), fx(fsubr(a, b)))
{ }
impl vstd::std_specs::ops::SubSpecImpl<Fl> for Fl {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: Fl) -> bool { true }
    open spec fn sub_spec(self, rhs: Fl) -> Fl { fsubr(self, rhs) }
}
impl core::ops::Sub<Fl> for Fl { type Output = Fl; #[verifier::external_body] fn sub(self, rhs: Fl) -> (r: Fl) { Fl { x: self.x - rhs.x } } }
/// an accepted value is finite and less than max from the mean
pub proof fn lemma_accept(v: Fl, mean: Fl, max: Fl)
    requires isfin(mean), isfin(max), xlt(xabs(fx(fsubr(v, mean))), fx(max))
    ensures isfin(v), fr(v) - fr(mean) < fr(max), fr(mean) - fr(v) < fr(max)
{ axiom_sub(v, mean, max); }
impl vstd::std_specs::ops::NegSpecImpl for Fl {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Fl { arbitrary() }
}
impl core::ops::Neg for Fl { type Output = Fl; #[verifier::external_body] fn neg(self) -> (r: Fl) ensures isfin(self) ==> fx(r) == Xr::Fin(-fr(self)), isint(self) ==> isint(r) && fint(r) == -fint(self) { Fl { x: -self.x } } }
impl Fl {
    #[verifier::external_body]
    pub fn abs(self) -> (r: Fl) ensures fx(r) == xabs(fx(self)) { Fl { x: self.x.abs() } }
    /// half away from zero
    #[verifier::external_body]
    pub fn round(self) -> (r: Fl) ensures isfin(self) ==> isint(r) && fint(r) == rnd(fr(self)) { Fl { x: self.x.round() } }
    #[verifier::external_body]
    pub fn to_bits(self) -> (r: u64) ensures r == fbits(self) { self.x.to_bits() }
}
#[verifier::opaque]
pub open spec fn rnd(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -(0.5real - x).floor() } }
pub proof fn lemma_rnd(x: real) ensures (rnd(x) as real) - x <= 0.5real, x - (rnd(x) as real) <= 0.5real, (rnd(x) as real) < 0real ==> rnd(x) <= -1, rnd(x) as real >= 0real ==> rnd(x) >= 0 { reveal(rnd); }
pub uninterp spec fn F0() -> Fl;
pub uninterp spec fn F6() -> Fl;
pub uninterp spec fn F32() -> Fl;
#[verifier::external_body]
pub fn f0() -> (r: Fl) ensures r == F0(), fx(r) == Xr::Fin(0real) { Fl { x: 0.0 } }
#[verifier::external_body]
pub fn f6() -> (r: Fl) ensures r == F6(), fx(r) == Xr::Fin(6real) { Fl { x: 6.0 } }
#[verifier::external_body]
pub fn f32_() -> (r: Fl) ensures r == F32() { Fl { x: 3.2 } }
/// rand_distr::Normal: any f64 may come out; construction refuses a deviation that is not finite
#[verifier::external_body]
#[derive(Copy)]
pub struct Nrm { x: u64 }
impl Clone for Nrm { #[verifier::external_body] fn clone(&self) -> (r: Nrm) ensures r == *self { *self } }
pub struct NErr {}
pub uninterp spec fn nmean(n: Nrm) -> Fl;
pub uninterp spec fn nsd(n: Nrm) -> Fl;
impl Nrm {
    #[verifier::external_body]
    pub fn new(mean: Fl, sd: Fl) -> (r: Result<Nrm, NErr>) ensures (r is Ok) == isfin(sd), r is Ok ==> nmean(r->Ok_0) == mean && nsd(r->Ok_0) == sd { unimplemented!() }
    #[verifier::external_body]
    pub fn mean(&self) -> (r: Fl) ensures r == nmean(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn std_dev(&self) -> (r: Fl) ensures r == nsd(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn sample(&self, rng: &mut Rn) -> (r: Fl) { unimplemented!() }
}
pub enum AlgErr { DistributionError }
/// the support fits the modulus: no magnitude reaches it
pub open spec fn fits(mean: Fl, max: Fl, m: int) -> bool { isfin(mean) && isfin(max) && (if fr(mean) < 0real { -fr(mean) } else { fr(mean) }) + fr(max) + 0.5real <= m as real }
/// r is an integer within max + 1/2 of the mean, negative ones as modulus minus magnitude
/// r is an integer within max + 1/2 of the mean, negative ones as modulus minus magnitude
pub open spec fn within(k: int, mean: Fl, max: Fl) -> bool { (k as real) - fr(mean) < fr(max) + 0.5real && fr(mean) - (k as real) < fr(max) + 0.5real }
pub open spec fn noisy(r: int, mean: Fl, max: Fl, m: int) -> bool { 0 <= r < m && (within(r, mean, max) || r > 0 && within(r - m, mean, max)) }
