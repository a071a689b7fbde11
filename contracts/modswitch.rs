/// f64 as the real it denotes; the contracts are those of IEEE-754 binary64 with round-to-nearest
#[verifier::external_body]
#[derive(Copy)]
pub struct Fl { x: f64 }
impl Clone for Fl { #[verifier::external_body] fn clone(&self) -> (r: Fl) ensures r == *self { *self } }
pub uninterp spec fn fr(x: Fl) -> real;
pub open spec fn two53() -> int { 0x20_0000_0000_0000 }
pub open spec fn isint(x: real, n: int) -> bool { x == n as real }
impl vstd::std_specs::ops::MulSpecImpl<Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Fl) -> bool { true }
    open spec fn mul_spec(self, rhs: Fl) -> Fl { arbitrary() }
}
impl core::ops::Mul<Fl> for Fl {
    type Output = Fl;
    /// a product that is an integer of at most 53 bits is exact
    #[verifier::external_body]
    fn mul(self, rhs: Fl) -> (r: Fl) ensures forall|a: int, b: int| #![trigger isint(fr(self), a), isint(fr(rhs), b)] isint(fr(self), a) && isint(fr(rhs), b) && 0 <= a * b <= two53() ==> isint(fr(r), a * b) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl<Fl> for Fl {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Fl) -> bool { true }
    open spec fn div_spec(self, rhs: Fl) -> Fl { arbitrary() }
}
pub open spec fn near(x: real, n: int, d: int) -> bool { let e = x * (d as real) - (n as real); x >= 0real && -(n as real) <= e * (two53() as real) && e * (two53() as real) <= n as real }
impl core::ops::Div<Fl> for Fl {
    type Output = Fl;
    /// a quotient of integers of at most 53 bits: relative error at most 2^-53, exact for a power-of-two divisor
    #[verifier::external_body]
    fn div(self, rhs: Fl) -> (r: Fl)
        ensures forall|n: int, d: int| #![trigger isint(fr(self), n), isint(fr(rhs), d)] isint(fr(self), n) && isint(fr(rhs), d) && 0 <= n <= two53() && 0 < d <= two53() ==> near(fr(r), n, d) && (is2_$T(d) ==> fr(r) * (d as real) == n as real)
    { unimplemented!() }
}
impl Fl {
    /// half away from zero
    #[verifier::external_body]
    pub fn round(self) -> (r: Fl) ensures fr(self) >= 0real ==> isint(fr(r), (fr(self) + 0.5real).floor()) { unimplemented!() }
}
/// a field's value word
#[verifier::external_body]
#[derive(Copy)]
pub struct Wv { x: u64 }
impl Clone for Wv { #[verifier::external_body] fn clone(&self) -> (r: Wv) ensures r == *self { *self } }
pub uninterp spec fn wv(x: Wv) -> int;
#[verifier::external_body]
#[derive(Copy)]
pub struct Fe { x: u64 }
impl Clone for Fe { #[verifier::external_body] fn clone(&self) -> (r: Fe) ensures r == *self { *self } }
pub uninterp spec fn fv(x: Fe) -> int;
/// the field's (odd) modulus
pub uninterp spec fn P() -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_fe(x: Fe) ensures 0 <= #[trigger] fv(x) < P() { }
#[verifier::external_body]
pub proof fn axiom_p() ensures P() % 2 == 1, P() > 2 { }
#[verifier::external_body]
pub fn modulus_value() -> (r: Wv) ensures wv(r) == P() { unimplemented!() }
impl Fe { #[verifier::external_body] pub fn value(self) -> (r: Wv) ensures wv(r) == fv(self) { unimplemented!() } }
pub trait AsInto<T>: Sized { spec fn goal(self, r: T) -> bool; fn as_into(self) -> (r: T) ensures self.goal(r); }
pub trait AsFrom<T>: Sized { spec fn from(x: T, r: Self) -> bool; fn as_from(x: T) -> (r: Self) ensures Self::from(x, r); }
/// an integer of at most 53 bits is a binary64
impl AsInto<Fl> for Wv { open spec fn goal(self, r: Fl) -> bool { 0 <= wv(self) <= two53() ==> isint(fr(r), wv(self)) } #[verifier::external_body] fn as_into(self) -> (r: Fl) { unimplemented!() } }
impl AsInto<Fl> for $T { open spec fn goal(self, r: Fl) -> bool { self as int <= two53() ==> isint(fr(r), self as int) } #[verifier::external_body] fn as_into(self) -> (r: Fl) { unimplemented!() } }
impl AsFrom<Fl> for $T { open spec fn from(x: Fl, r: $T) -> bool { forall|n: int| #[trigger] isint(fr(x), n) && 0 <= n <= $MAX ==> r as int == n } #[verifier::external_body] fn as_from(x: Fl) -> (r: $T) { unimplemented!() } }
/// round(v q / Q) mod q, halves up
pub open spec fn sw(v: int, q: int, d: int) -> int { ((2 * (v * q) + d) / (2 * d)) % q }
pub proof fn lemma_floor(x: real, k: int) requires (k as real) <= x, x < (k + 1) as real, ensures x.floor() == k { }
pub proof fn lemma_near_r(x: real, n: int, d: int, k: int, r: int, t: real, e: real)
    requires t > 2real, e * t <= n as real, -(n as real) <= e * t, 2real * (n as real) < t, d > 0, x * (d as real) == e + n as real, 2real * (n as real) + (d as real) == 2real * (d as real) * (k as real) + (r as real), 1 <= r, r + 1 <= 2 * d,
    ensures (k as real) <= x + 0.5real, x + 0.5real < (k + 1) as real,
{
    let dr = d as real; let kr = k as real; let nr = n as real; let rr = r as real;
    assert(2real * e < 1real && 2real * e > -1real) by (nonlinear_arith) requires t > 2real, e * t <= nr, -nr <= e * t, 2real * nr < t;
    assert(2real * (x * dr) == 2real * e + 2real * nr);
    let y = x + 0.5real - kr;
    assert(2real * dr * y == 2real * e + rr) by (nonlinear_arith) requires 2real * (x * dr) == 2real * e + 2real * nr, 2real * nr + dr == 2real * dr * kr + rr, y == x + 0.5real - kr;
    assert(y > 0real) by (nonlinear_arith) requires 2real * dr * y > 0real, dr > 0real;
    let z = 1real - y;
    assert(2real * dr * z == 2real * dr - 2real * e - rr) by (nonlinear_arith) requires 2real * dr * y == 2real * e + rr, z == 1real - y;
    assert(z > 0real) by (nonlinear_arith) requires 2real * dr * z > 0real, dr > 0real;
}
/// a quotient with relative error 2^-53 rounds to the exact nearest integer when the divisor is odd
pub proof fn lemma_near(x: real, n: int, d: int)
    requires near(x, n, d), d > 0, d % 2 == 1, 0 <= n, 2 * n < two53(),
    ensures (x + 0.5real).floor() == (2 * n + d) / (2 * d),
{
    let k = (2 * n + d) / (2 * d); let r = (2 * n + d) % (2 * d);
    lemma_fundamental_div_mod(2 * n + d, 2 * d);
    assert((2 * d) * k == 2 * (d * k)) by (nonlinear_arith);
    assert(r % 2 == 1) by { assert(2 * n + d == 2 * (d * k) + r); }
    assert(2real * (n as real) + (d as real) == 2real * (d as real) * (k as real) + (r as real)) by {
        assert((2 * n + d) as real == (2 * (d * k) + r) as real);
        assert((d * k) as real == (d as real) * (k as real)) by (nonlinear_arith);
        assert(2real * ((d as real) * (k as real)) == 2real * (d as real) * (k as real)) by (nonlinear_arith);
    }
    let e = x * (d as real) - (n as real);
    lemma_near_r(x, n, d, k, r, two53() as real, e);
    lemma_floor(x + 0.5real, k);
}
pub proof fn lemma_exact(x: real, n: int, d: int)
    requires x * (d as real) == n as real, d > 0, 0 <= n,
    ensures (x + 0.5real).floor() == (2 * n + d) / (2 * d),
{
    let k = (2 * n + d) / (2 * d); let r = (2 * n + d) % (2 * d);
    lemma_fundamental_div_mod(2 * n + d, 2 * d);
    assert((2 * d) * k == 2 * (d * k)) by (nonlinear_arith);
    let dr = d as real; let kr = k as real; let nr = n as real; let rr = r as real;
    assert(2real * nr + dr == 2real * (dr * kr) + rr) by {
        assert((2 * n + d) as real == (2 * (d * k) + r) as real);
        assert((d * k) as real == dr * kr) by (nonlinear_arith) requires dr == d as real, kr == k as real;
    }
    let y = x + 0.5real - kr;
    assert(2real * dr * y == rr) by (nonlinear_arith) requires x * dr == nr, 2real * nr + dr == 2real * (dr * kr) + rr, y == x + 0.5real - kr;
    assert(y >= 0real) by (nonlinear_arith) requires 2real * dr * y == rr, rr >= 0real, dr > 0real;
    assert(y < 1real) by (nonlinear_arith) requires 2real * dr * y == rr, rr < 2real * dr, dr > 0real;
    lemma_floor(x + 0.5real, k);
}
/// the rounded quotient never exceeds the target modulus
pub proof fn lemma_range(v: int, q: int, d: int) requires 0 <= v < d, q > 0, ensures 0 <= (2 * (v * q) + d) / (2 * d) <= q
{
    assert(0 <= v * q <= (d - 1) * q) by (nonlinear_arith) requires 0 <= v < d, q > 0;
    lemma_div_pos_is_pos(2 * (v * q) + d, 2 * d);
    assert(2 * (v * q) + d < (q + 1) * (2 * d)) by (nonlinear_arith) requires v * q <= (d - 1) * q, q > 0, d > 0;
    let x = 2 * (v * q) + d; let k = x / (2 * d); lemma_fundamental_div_mod(x, 2 * d);
    assert(k < q + 1) by (nonlinear_arith) requires x < (q + 1) * (2 * d), x == (2 * d) * k + x % (2 * d), x % (2 * d) >= 0, d > 0;
}
pub proof fn lemma_sw(v: int, q: int, d: int) requires 0 <= v < d, q > 0,
    ensures ({ let w = (2 * (v * q) + d) / (2 * d); 0 <= w <= q && sw(v, q, d) == (if w < q { w } else { w - q }) })
{
    lemma_range(v, q, d);
    let w = (2 * (v * q) + d) / (2 * d);
    if w < q { lemma_small_mod(w as nat, q as nat); } else { lemma_mod_self_0(q); }
}
pub open spec fn okq(q: int, d: int) -> bool { q > 0 && d > 0 && 2 * (d * q) <= two53() }
pub proof fn lemma_okq(v: int, q: int, d: int) requires okq(q, d), 0 <= v < d, ensures 0 <= v * q, 2 * (v * q) < two53(), d <= two53(), q <= two53()
{
    assert(0 <= v * q <= (d - 1) * q && d <= d * q && q <= d * q) by (nonlinear_arith) requires q > 0, 0 <= v < d;
    assert((d - 1) * q < d * q) by (nonlinear_arith) requires q > 0;
}
/// what the switched coefficient is, from the float computation: x is the quotient, y the rounded one
pub proof fn lemma_step(x: real, v: int, q: int, d: int)
    requires okq(q, d), 0 <= v < d, near(x, v * q, d), d % 2 == 1 || x * (d as real) == (v * q) as real,
    ensures (x + 0.5real).floor() == (2 * (v * q) + d) / (2 * d), 0 <= (2 * (v * q) + d) / (2 * d) <= q,
{
    lemma_okq(v, q, d);
    if d % 2 == 1 { lemma_near(x, v * q, d); } else { lemma_exact(x, v * q, d); }
    lemma_range(v, q, d);
}
