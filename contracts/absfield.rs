// ---- a prime field with canonical values, as C10 proves of every derived field -------------
// (the modulus, the representation and the value range are left arbitrary)
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
pub mod absax { use vstd::prelude::*;
#[verifier::external_body]
#[derive(Copy)]
pub struct Fe { x: u64 }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> (r: Fe) ensures r == *self { *self } }
pub uninterp spec fn P() -> int;
/// the residue an element represents
pub uninterp spec fn fv(x: Fe) -> int;
/// canonical elements, and the range of the lazy operations
pub uninterp spec fn canon(x: Fe) -> bool;
pub uninterp spec fn lazy(x: Fe) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_fv(x: Fe) ensures 0 <= #[trigger] fv(x) < P(), { }
#[verifier::external_body]
pub broadcast proof fn axiom_lazy(x: Fe) ensures #[trigger] canon(x) ==> lazy(x), { }
#[verifier::external_body]
pub proof fn axiom_ext(x: Fe, y: Fe) ensures canon(x) && canon(y) && fv(x) == fv(y) ==> x == y, { }
#[verifier::external_body]
pub proof fn axiom_p() ensures P() >= 2, { }
}
pub use absax::*;
pub open spec fn fadd(a: int, b: int) -> int { (a + b) % P() }
pub open spec fn fsub(a: int, b: int) -> int { (a - b) % P() }
pub open spec fn fmul(a: int, b: int) -> int { (a * b) % P() }
pub open spec fn fneg(a: int) -> int { (-a) % P() }
pub open spec fn isinv(a: int, r: int) -> bool { (a * r) % P() == 1 }
impl Fe {
    #[verifier::external_body]
    pub fn zero() -> (r: Fe) ensures canon(r), fv(r) == 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Fe) ensures canon(r), fv(r) == 1, { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_one() -> (r: Fe) ensures canon(r), fv(r) == P() - 1, { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures canon(*self) ==> r == (fv(*self) == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn inv(self) -> (r: Fe) requires canon(self), fv(self) != 0, ensures canon(r), isinv(fv(self), fv(r)), { unimplemented!() }
    #[verifier::external_body]
    pub fn add_mul(self, a: Fe, b: Fe) -> (r: Fe) ensures canon(r), fv(r) == (fv(a) * fv(b) + fv(self)) % P(), { unimplemented!() }
    #[verifier::external_body]
    pub fn add_mul_assign(&mut self, a: Fe, b: Fe) ensures canon(*final(self)), fv(*final(self)) == (fv(a) * fv(b) + fv(*old(self))) % P(), { unimplemented!() }
    #[verifier::external_body]
    pub fn add_mul_assign_fast(&mut self, a: Fe, b: Fe) ensures lazy(*final(self)), fv(*final(self)) == (fv(a) * fv(b) + fv(*old(self))) % P(), { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_assign_fast(&mut self, b: Fe) ensures lazy(*final(self)), fv(*final(self)) == fmul(fv(*old(self)), fv(b)), { unimplemented!() }
}
pub open spec fn wf(s: Seq<Fe>) -> bool { forall|i: int| 0 <= i < s.len() ==> canon(#[trigger] s[i]) }
pub open spec fn pv(s: Seq<Fe>) -> Seq<int> { Seq::new(s.len(), |i: int| fv(s[i])) }
pub open spec fn padd(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| fadd(a[i], b[i])) }
pub open spec fn psub(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| fsub(a[i], b[i])) }
pub open spec fn pmul(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| fmul(a[i], b[i])) }
pub open spec fn pneg(a: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| fneg(a[i])) }
pub open spec fn pscale(a: Seq<int>, c: int) -> Seq<int> { Seq::new(a.len(), |i: int| fmul(a[i], c)) }
pub open spec fn paddmul(x: Seq<int>, y: Seq<int>, z: Seq<int>) -> Seq<int> { Seq::new(x.len(), |i: int| (y[i] * z[i] + x[i]) % P()) }
pub open spec fn pzero(n: nat) -> Seq<int> { Seq::new(n, |i: int| 0int) }
/// evaluation at x of the coefficients i, i+1, .. (Horner form is not assumed: sum of coefficients times powers)
pub open spec fn evalsum(a: Seq<int>, x: int, k: nat) -> int decreases k { if k == 0 { 0 } else { evalsum(a, x, (k - 1) as nat) + a[k - 1] * pow(x, (k - 1) as nat) } }
/// Horner's tail: a[k] + x*(a[k+1] + x*(..))
pub open spec fn horner(a: Seq<int>, x: int, k: nat) -> int decreases a.len() - k { if k >= a.len() { 0 } else { a[k as int] + horner(a, x, k + 1) * x } }
pub proof fn lemma_horner(a: Seq<int>, x: int, k: nat)
    requires k <= a.len(),
    ensures evalsum(a, x, k) + horner(a, x, k) * pow(x, k) == evalsum(a, x, a.len()),
    decreases a.len() - k,
{
    if k < a.len() {
        lemma_horner(a, x, k + 1);
        reveal(pow);
        assert(pow(x, k + 1) == x * pow(x, k));
        let (h, p, c) = (horner(a, x, k + 1), pow(x, k), a[k as int]);
        assert((c + h * x) * p == c * p + h * (x * p)) by (nonlinear_arith);
        assert(evalsum(a, x, k + 1) == evalsum(a, x, k) + c * p);
    } else {
        assert(0 * pow(x, k) == 0);
    }
}
pub proof fn lemma_horner0(a: Seq<int>, x: int)
    ensures horner(a, x, 0) == evalsum(a, x, a.len()),
{
    lemma_horner(a, x, 0);
    reveal(pow);
    assert(pow(x, 0) == 1);
    assert(horner(a, x, 0) * 1 == horner(a, x, 0));
}
pub proof fn lemma_horner_step(c: int, acc: int, h: int, x: int)
    requires acc == h % P(),
    ensures fadd(c, fmul(acc, x)) == (c + h * x) % P(),
{
    axiom_p();
    lemma_mul_mod_noop_left(h, x, P());
    lemma_add_mod_noop_right(c, h * x, P());
    assert(fmul(acc, x) == (h * x) % P());
}
pub proof fn lemma_pmul_comm(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len(),
    ensures pmul(a, b) == pmul(b, a),
{
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] pmul(a, b)[j] == pmul(b, a)[j] by { lemma_mul_is_commutative(a[j], b[j]); }
    assert(pmul(a, b) =~= pmul(b, a));
}
