// ---- generation of gadget rows from an arbitrary random source ---------------------------------
/// the random source, and the error distribution of the ring with the residues it can yield (C23)
#[verifier::external_body]
pub struct Rn { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Gs { x: u64 }
pub uninterp spec fn gsup(d: Gs, e: int) -> bool;
/// the largest value of the representation type
pub uninterp spec fn VM() -> int;
#[verifier::external_body]
pub proof fn axiom_vm() ensures P() <= VM() { }
impl vstd::std_specs::ops::MulSpecImpl<Val> for Val {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Val) -> bool { 0 <= vv(self) * vv(rhs) <= VM() }
    open spec fn mul_spec(self, rhs: Val) -> Val { arbitrary() }
}
impl core::ops::Mul<Val> for Val {
    type Output = Val;
    #[verifier::external_body]
    fn mul(self, rhs: Val) -> (r: Val) ensures vv(r) == vv(self) * vv(rhs), { unimplemented!() }
}
impl Fe {
    /// C10
    #[verifier::external_body]
    pub fn value(self) -> (r: Val) requires canon(self) ensures vv(r) == fv(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn lazy_new(v: Val) -> (r: Fe) requires 0 <= vv(v) < P() ensures canon(r), fv(r) == vv(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: Val) -> (r: Fe) requires 0 <= vv(v) ensures canon(r), fv(r) == vv(v) % P() { unimplemented!() }
}
/// C23
impl Polynomial {
    #[verifier::external_body]
    pub fn random(n: usize, rng: &mut Rn) -> (r: Polynomial) ensures wf(r.data@), r.data@.len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn random_with_gaussian(n: usize, rng: &mut Rn, d: Gs) -> (r: Polynomial) ensures wf(r.data@), r.data@.len() == n, esup(d, pv(r.data@), n as nat) { unimplemented!() }
}
impl NTTPolynomial {
    #[verifier::external_body]
    pub fn random(n: usize, rng: &mut Rn) -> (r: NTTPolynomial) ensures wf(r.data@), r.data@.len() == n { unimplemented!() }
}
pub open spec fn esup(d: Gs, e: Seq<int>, n: nat) -> bool { isres(e) && e.len() == n && forall|i: int| 0 <= i < n ==> gsup(d, #[trigger] e[i]) }
pub open spec fn ones(n: nat) -> Seq<int> { Seq::new(n, |i: int| 1int) }
/// the row (a, b), transformed, has phase m plus the transform of an error of the distribution
pub open spec fn rowe(a: Seq<int>, b: Seq<int>, s: Seq<int>, m: Seq<int>, d: Gs) -> bool { a.len() == s.len() && b.len() == s.len() && exists|e: Seq<int>| #[trigger] esup(d, e, s.len()) && nphs(a, b, s) == padd(m, ntt(e)) }
/// row j encrypts m B^j, for every row
pub open spec fn gene(ra: Seq<Seq<int>>, rb: Seq<Seq<int>>, s: Seq<int>, m: Seq<int>, d: Gs, bits: nat) -> bool { forall|j: int| 0 <= j < ra.len() ==> rowe(#[trigger] ra[j], rb[j], s, bpow(m, bits, j as nat), d) }
pub open spec fn rsmp(c: RLWE, s: Seq<int>, m: Seq<int>, d: Gs) -> bool { rwf(c, s.len()) && rowe(ntt(pv(c.a.data@)), ntt(pv(c.b.data@)), s, m, d) }
pub open spec fn nsmp(c: NTTRLWE, s: Seq<int>, m: Seq<int>, d: Gs) -> bool { nwf(c, s.len()) && rowe(pv(c.a.data@), pv(c.b.data@), s, m, d) }
pub open spec fn rall(g: Seq<RLWE>, s: Seq<int>, m: Seq<int>, d: Gs, bits: nat) -> bool { forall|j: int| 0 <= j < g.len() ==> rsmp(#[trigger] g[j], s, bpow(m, bits, j as nat), d) }
pub open spec fn nall(g: Seq<NTTRLWE>, s: Seq<int>, m: Seq<int>, d: Gs, bits: nat) -> bool { forall|j: int| 0 <= j < g.len() ==> nsmp(#[trigger] g[j], s, bpow(m, bits, j as nat), d) }
pub proof fn lemma_rall(g: Seq<RLWE>, s: Seq<int>, m: Seq<int>, d: Gs, bits: nat) requires rall(g, s, m, d, bits) ensures gene(ra(g), rb(g), s, m, d, bits), grwf(g, s.len())
{ assert forall|j: int| 0 <= j < g.len() implies rowe(#[trigger] ra(g)[j], rb(g)[j], s, bpow(m, bits, j as nat), d) by { assert(rsmp(g[j], s, bpow(m, bits, j as nat), d)); } assert forall|j: int| 0 <= j < g.len() implies #[trigger] rwf(g[j], s.len()) by { assert(rsmp(g[j], s, bpow(m, bits, j as nat), d)); } }
pub proof fn lemma_nall(g: Seq<NTTRLWE>, s: Seq<int>, m: Seq<int>, d: Gs, bits: nat) requires nall(g, s, m, d, bits) ensures gene(na(g), nb(g), s, m, d, bits), gwf(g, s.len())
{ assert forall|j: int| 0 <= j < g.len() implies rowe(#[trigger] na(g)[j], nb(g)[j], s, bpow(m, bits, j as nat), d) by { assert(nsmp(g[j], s, bpow(m, bits, j as nat), d)); } assert forall|j: int| 0 <= j < g.len() implies #[trigger] nwf(g[j], s.len()) by { assert(nsmp(g[j], s, bpow(m, bits, j as nat), d)); } }
/// the transform of one is all ones
pub open spec fn p1(n: nat) -> Seq<int> { Seq::new(n, |i: int| if i == 0 { 1int } else { 0int }) }
proof fn lemma_nsum_one(a: Seq<int>, k: int, m: nat) requires 0 <= k < a.len(), m <= a.len() ensures nsum(a, p1(a.len()), k, m) == if k < m { a[k] } else { 0 } decreases m
{
    if m > 0 {
        lemma_nsum_one(a, k, (m - 1) as nat);
        let x = a[m - 1]; assert(x * 0 == 0); assert(x * 1 == x);
        if m - 1 > k { let i = a.len() + k - (m - 1); assert(0 < i < a.len()); assert(p1(a.len())[i] == 0); }
    }
}
pub proof fn lemma_ntt_one(n: nat) requires ringn(n) ensures ntt(p1(n)) == ones(n), isres(p1(n)), isres(ones(n))
{
    axiom_p();
    let o = ones(n); let q = p1(n);
    axiom_ntt(o, o); axiom_ntt(q, q);
    let u = intt(o);
    axiom_ntt(u, q);
    assert forall|k: int| 0 <= k < n implies #[trigger] negmul(u, q)[k] == u[k] by { lemma_nsum_one(u, k, n); lemma_small_mod(u[k] as nat, P() as nat); }
    assert(negmul(u, q) =~= u);
    let t = ntt(q);
    assert(pmul(o, t) == o);
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] == 1 by { assert(pmul(o, t)[i] == 1); assert(1 * t[i] == t[i]); lemma_small_mod(t[i] as nat, P() as nat); }
    assert(t =~= o);
}
pub proof fn lemma_bzero(n: nat, bits: nat, j: nat) ensures bpow(pzero(n), bits, j) == pzero(n)
{ axiom_p(); let c = pow2(bits * j) as int; assert(0 * c == 0); lemma_small_mod(0, P() as nat); assert(bpow(pzero(n), bits, j) =~= pzero(n)); }
/// powers of the basis stay below the modulus up to the last row
pub proof fn lemma_power(bits: nat, len: nat, j: nat)
    requires isdlen(P(), bits, len as int), bits >= 1,
    ensures len >= 1, pow2(bits * 0) == 1, pow2(bits * (j + 1)) == pow2(bits * j) * pow2(bits), j < len ==> 1 <= pow2(bits * j) < P(),
{
    let n = choose|n: nat| #[trigger] isnbits(P(), n) && len as int == (n + bits - 1) / (bits as int);
    lemma_fundamental_div_mod(n + bits - 1, bits as int); lemma_mod_bound(n + bits - 1, bits as int);
    let m = (n + bits - 1) % (bits as int);
    assert(bits * len + m == n + bits - 1);
    assert(bits * j + bits == bits * (j + 1)) by (nonlinear_arith);
    assert(len >= 1) by (nonlinear_arith) requires bits * len + m == n + bits - 1, m < bits, n >= 1;
    if j < len {
        assert(bits * (j + 1) <= bits * len) by (nonlinear_arith) requires j + 1 <= len;
        assert(bits * j <= n - 1);
        if bits * j < n - 1 { lemma_pow2_strictly_increases((bits * j) as nat, (n - 1) as nat); }
    }
    lemma_pow2_pos(bits * j);
    lemma_pow2_adds(bits * j, bits);
    assert(bits * 0 == 0); lemma2_to64();
}
proof fn idr(p: int, a: int, b: int, c: int, s: int, q1: int, q2: int, q3: int, q4: int, q5: int)
    ensures b - (a + c - p * q1) * s + p * q2 == (b - (a * s - p * q3) - p * q4) + ((-s - p * q5) * c) + p * (q1 * s + q2 - q3 + q4 + q5 * c)
{ assert(b - (a + c - p * q1) * s + p * q2 == (b - (a * s - p * q3) - p * q4) + ((-s - p * q5) * c) + p * (q1 * s + q2 - q3 + q4 + q5 * c)) by (nonlinear_arith); }
/// b - (a + c) s == (b - a s) + (-s) c
proof fn lemma_mask(a: int, b: int, c: int, s: int) ensures fsub(b, fmul(fadd(a, c), s)) == fadd(fsub(b, fmul(a, s)), fmul(fneg(s), c))
{
    axiom_p();
    let p = P(); let x = fadd(a, c);
    lemma_q(a + c); lemma_q(x * s); lemma_q(a * s); lemma_q(b - fmul(a, s)); lemma_q(-s); lemma_q(fneg(s) * c);
    let (q1, q2, q3, q4, q5, q6) = ((a + c) / p, (x * s) / p, (a * s) / p, (b - fmul(a, s)) / p, (-s) / p, (fneg(s) * c) / p);
    idr(p, a, b, c, s, q1, q2, q3, q4, q5);
    let t = q1 * s + q2 - q3 + q4 + q5 * c;
    let l = fsub(b, fmul(a, s)) + fmul(fneg(s), c);
    assert(p * (t + q6) == p * t + p * q6) by (nonlinear_arith);
    assert(b - fmul(x, s) == l + p * (t + q6));
    lemma_red(b - fmul(x, s), l, t + q6);
}
/// (b + c) - d == (b - d) + c
proof fn lemma_body(b: int, c: int, d: int) ensures fsub(fadd(b, c), d) == fadd(fsub(b, d), c)
{
    axiom_p();
    let p = P();
    lemma_q(b + c); lemma_q(b - d);
    let (q1, q2) = ((b + c) / p, (b - d) / p);
    assert((b + c - p * q1) - d == ((b - d - p * q2) + c) + p * (q2 - q1)) by (nonlinear_arith);
    lemma_red(fadd(b, c) - d, fsub(b, d) + c, q2 - q1);
}
proof fn lemma_addc(x: int, y: int) ensures fadd(x, y) == fadd(y, x) { }
/// a row that encrypts zero, with x added to the body (m = x) or c to the mask (m = -s c)
pub proof fn lemma_row_body(a: Seq<int>, b: Seq<int>, b2: Seq<int>, s: Seq<int>, m: Seq<int>, d: Gs)
    requires ringn(s.len()), rowe(a, b, s, pzero(s.len()), d), m.len() == s.len(), isres(m), b2 == padd(b, m),
    ensures rowe(a, b2, s, m, d),
{
    axiom_p();
    let n = s.len();
    let e = choose|e: Seq<int>| #[trigger] esup(d, e, n) && nphs(a, b, s) == padd(pzero(n), ntt(e));
    axiom_ntt(e, e);
    let (l, r) = (nphs(a, b2, s), padd(m, ntt(e)));
    assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == r[i] by {
        assert(nphs(a, b, s)[i] == padd(pzero(n), ntt(e))[i]);
        lemma_small_mod(ntt(e)[i] as nat, P() as nat);
        lemma_body(b[i], m[i], fmul(a[i], s[i]));
    }
    assert(l =~= r);
}
pub proof fn lemma_row_mask(a: Seq<int>, a2: Seq<int>, b: Seq<int>, s: Seq<int>, c: int, d: Gs)
    requires ringn(s.len()), rowe(a, b, s, pzero(s.len()), d), a2 == padd(a, pscale(ones(s.len()), c)), 0 <= c < P(),
    ensures rowe(a2, b, s, pscale(pneg(s), c), d),
{
    axiom_p();
    let n = s.len();
    let e = choose|e: Seq<int>| #[trigger] esup(d, e, n) && nphs(a, b, s) == padd(pzero(n), ntt(e));
    axiom_ntt(e, e);
    let (l, r) = (nphs(a2, b, s), padd(pscale(pneg(s), c), ntt(e)));
    assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == r[i] by {
        assert(nphs(a, b, s)[i] == padd(pzero(n), ntt(e))[i]);
        lemma_small_mod(ntt(e)[i] as nat, P() as nat);
        assert(1 * c == c); lemma_small_mod(c as nat, P() as nat);
        lemma_mask(a[i], b[i], c, s[i]);
    }
    assert(l =~= r);
}
/// c added to the constant coefficient adds c everywhere after the transform
pub open spec fn add0(x: Seq<int>, c: int) -> Seq<int> { Seq::new(x.len(), |i: int| if i == 0 { fadd(x[0], c) } else { x[i] }) }
pub proof fn lemma_add0(x: Seq<int>, c: int)
    requires ringn(x.len()), isres(x), 0 <= c < P(), x.len() >= 1,
    ensures ntt(add0(x, c)) == padd(ntt(x), pscale(ones(x.len()), c)), isres(add0(x, c)), isres(pscale(ones(x.len()), c)),
{
    axiom_p();
    let n = x.len();
    lemma_ntt_one(n);
    let u = pscale(p1(n), c);
    axiom_nttscale(p1(n), c);
    axiom_ntt(x, u);
    assert(1 * c == c); assert(0 * c == 0); lemma_small_mod(c as nat, P() as nat); lemma_small_mod(0, P() as nat);
    let y = padd(x, u);
    assert forall|i: int| 0 <= i < n implies #[trigger] y[i] == add0(x, c)[i] by { lemma_small_mod(x[i] as nat, P() as nat); }
    assert(y =~= add0(x, c));
}
pub open spec fn bump(x: Vec<Fe>, y: Vec<Fe>, c: int) -> bool { wf(y@) && y@.len() == x@.len() && x@.len() >= 1 && fv(y@[0]) == fadd(fv(x@[0]), c) && forall|i: int| 1 <= i < x@.len() ==> y@[i] == #[trigger] x@[i] }
pub proof fn lemma_bump(x: Vec<Fe>, y: Vec<Fe>, c: int) requires bump(x, y, c) ensures pv(y@) == add0(pv(x@), c)
{ assert(pv(y@) =~= add0(pv(x@), c)) by { assert forall|i: int| 0 <= i < x@.len() implies #[trigger] pv(y@)[i] == add0(pv(x@), c)[i] by { if i > 0 { let _ = x@[i]; } } } }
/// the rows of the two messages the library generates
pub proof fn lemma_rbody(x: RLWE, y: RLWE, s: Seq<int>, c: int, d: Gs)
    requires ringn(s.len()), rsmp(x, s, pzero(s.len()), d), y.a == x.a, bump(x.b.data, y.b.data, c), 0 <= c < P(),
    ensures rsmp(y, s, pscale(ones(s.len()), c), d),
{ lemma_bump(x.b.data, y.b.data, c); lemma_pv(x.b.data@); lemma_add0(pv(x.b.data@), c); lemma_row_body(ntt(pv(x.a.data@)), ntt(pv(x.b.data@)), ntt(pv(y.b.data@)), s, pscale(ones(s.len()), c), d); }
pub proof fn lemma_rmask(x: RLWE, y: RLWE, s: Seq<int>, c: int, d: Gs)
    requires ringn(s.len()), rsmp(x, s, pzero(s.len()), d), y.b == x.b, bump(x.a.data, y.a.data, c), 0 <= c < P(),
    ensures rsmp(y, s, pscale(pneg(s), c), d),
{ lemma_bump(x.a.data, y.a.data, c); lemma_pv(x.a.data@); lemma_add0(pv(x.a.data@), c); lemma_row_mask(ntt(pv(x.a.data@)), ntt(pv(y.a.data@)), ntt(pv(x.b.data@)), s, c, d); }
pub open spec fn shifted(x: Vec<Fe>, y: Vec<Fe>, c: int) -> bool { wf(y@) && y@.len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> fv(#[trigger] y@[i]) == fadd(fv(x@[i]), c) }
pub proof fn lemma_nmask(x: NTTRLWE, y: NTTRLWE, s: Seq<int>, c: int, d: Gs)
    requires ringn(s.len()), nsmp(x, s, pzero(s.len()), d), y.b == x.b, shifted(x.a.data, y.a.data, c), 0 <= c < P(),
    ensures nsmp(y, s, pscale(pneg(s), c), d),
{
    axiom_p();
    assert(1 * c == c); lemma_small_mod(c as nat, P() as nat);
    assert(pv(y.a.data@) =~= padd(pv(x.a.data@), pscale(ones(s.len()), c))) by { assert forall|i: int| 0 <= i < x.a.data@.len() implies #[trigger] pv(y.a.data@)[i] == fadd(pv(x.a.data@)[i], c) by { let _ = y.a.data@[i]; } }
    lemma_row_mask(pv(x.a.data@), pv(y.a.data@), pv(x.b.data@), s, c, d);
}
/// b = e + a s
pub proof fn lemma_zero_row(a: Seq<int>, e: Seq<int>, b: Seq<int>, s: Seq<int>, d: Gs)
    requires ringn(s.len()), a.len() == s.len(), esup(d, e, s.len()), isres(s), b.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] == (ntt(e)[i] + a[i] * s[i]) % P(),
    ensures rowe(a, b, s, pzero(s.len()), d),
{
    axiom_p();
    let n = s.len();
    axiom_ntt(e, e);
    let (l, r) = (nphs(a, b, s), padd(pzero(n), ntt(e)));
    assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == r[i] by {
        let x = ntt(e)[i]; let y = a[i] * s[i];
        assert(b[i] == (x + y) % P());
        lemma_q(x + y); lemma_q(y);
        let (q1, q2) = ((x + y) / P(), y / P());
        assert((x + y - P() * q1) - (y - P() * q2) == x + P() * (q2 - q1)) by (nonlinear_arith);
        lemma_red(b[i] - fmul(a[i], s[i]), x, q2 - q1);
    }
    assert(l =~= r);
}
pub proof fn lemma_rp(n: nat) requires ringn(n) ensures n >= 1 { let k = choose|k: nat| n == #[trigger] pow2(k) && supported(k); lemma_pow2_pos(k); }
pub proof fn lemma_rzero(c: RLWE, e: Seq<int>, s: Seq<int>, d: Gs)
    requires ringn(s.len()), isres(s), rwf(c, s.len()), esup(d, e, s.len()), pv(c.b.data@) == padd(e, intt(pmul(ntt(pv(c.a.data@)), s))),
    ensures rsmp(c, s, pzero(s.len()), d),
{
    axiom_p();
    let n = s.len(); let a = pv(c.a.data@);
    lemma_pv(c.a.data@); lemma_pv(c.b.data@);
    axiom_ntt(a, a); axiom_ntt(e, e);
    let m = pmul(ntt(a), s);
    assert(isres(m)) by { assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] m[i] < P() by { lemma_mod_bound(ntt(a)[i] * s[i], P()); } }
    axiom_ntt(m, m);
    let u = intt(m);
    axiom_ntt(e, u); axiom_ntt(pv(c.b.data@), u);
    let b = ntt(pv(c.b.data@));
    assert(b == padd(ntt(e), m));
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == (ntt(e)[i] + ntt(a)[i] * s[i]) % P() by { lemma_add_mod_noop_right(ntt(e)[i], ntt(a)[i] * s[i], P()); }
    lemma_zero_row(ntt(a), e, b, s, d);
}
/// c = (a, ntt(f) + a s): the errors f are e, or e with v added to the constant coefficient
pub proof fn lemma_nzero(c: NTTRLWE, e: Seq<int>, s: Seq<int>, d: Gs)
    requires ringn(s.len()), isres(s), nwf(c, s.len()), esup(d, e, s.len()), pv(c.b.data@) == paddmul(ntt(e), pv(c.a.data@), s),
    ensures nsmp(c, s, pzero(s.len()), d),
{
    let n = s.len(); let a = pv(c.a.data@); let b = pv(c.b.data@);
    lemma_pv(c.a.data@); lemma_pv(c.b.data@); axiom_ntt(e, e);
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == (ntt(e)[i] + a[i] * s[i]) % P() by { assert(paddmul(ntt(e), a, s)[i] == (a[i] * s[i] + ntt(e)[i]) % P()); }
    lemma_zero_row(a, e, b, s, d);
}
pub proof fn lemma_nvalue(c: NTTRLWE, e: Vec<Fe>, f: Vec<Fe>, s: Seq<int>, v: int, d: Gs)
    requires ringn(s.len()), isres(s), nwf(c, s.len()), wf(e@), e@.len() == s.len(), esup(d, pv(e@), s.len()), bump(e, f, v), 0 <= v < P(), pv(c.b.data@) == paddmul(ntt(pv(f@)), pv(c.a.data@), s),
    ensures nsmp(c, s, pscale(ones(s.len()), v), d),
{
    axiom_p();
    let n = s.len(); let a = pv(c.a.data@); let b = pv(c.b.data@); let x = pv(e@); let m = pscale(ones(n), v);
    lemma_bump(e, f, v); lemma_pv(e@); lemma_add0(x, v); lemma_pv(c.a.data@); axiom_ntt(x, x);
    let y = ntt(x); let z = paddmul(y, a, s);
    assert(isres(z)) by { assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] z[i] < P() by { lemma_mod_bound(a[i] * s[i] + y[i], P()); } }
    assert forall|i: int| 0 <= i < n implies #[trigger] z[i] == (y[i] + a[i] * s[i]) % P() by { }
    lemma_zero_row(a, x, z, s, d);
    let w = padd(z, m);
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == w[i] by {
        let t = a[i] * s[i];
        assert(b[i] == (t + fadd(y[i], m[i])) % P());
        lemma_add_mod_noop_right(t, y[i] + m[i], P());
        lemma_add_mod_noop_right(m[i], t + y[i], P());
        assert(w[i] == ((t + y[i]) % P() + m[i]) % P());
    }
    assert(b =~= w);
    lemma_row_body(a, z, b, s, m, d);
}
/// an error distribution that yields nothing but zero
pub open spec fn silent(d: Gs) -> bool { forall|e: int| #[trigger] gsup(d, e) ==> e == 0 }
pub proof fn lemma_silent(a: Seq<int>, b: Seq<int>, s: Seq<int>, m: Seq<int>, d: Gs)
    requires ringn(s.len()), rowe(a, b, s, m, d), silent(d), m.len() == s.len(),
    ensures nphs(a, b, s) == padd(m, pzero(s.len())),
{
    axiom_p();
    let n = s.len();
    let e = choose|e: Seq<int>| #[trigger] esup(d, e, n) && nphs(a, b, s) == padd(m, ntt(e));
    assert forall|i: int| 0 <= i < n implies #[trigger] e[i] == 0 by { assert(gsup(d, e[i])); }
    axiom_ntt(e, e); axiom_nttscale(e, 0);
    let z = pscale(e, 0);
    assert(z =~= e) by { assert forall|i: int| 0 <= i < n implies #[trigger] z[i] == e[i] by { lemma_small_mod(0, P() as nat); } }
    let y = ntt(e);
    assert(y =~= pzero(n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] y[i] == 0 by { assert(pscale(y, 0)[i] == fmul(y[i], 0)); assert(y[i] * 0 == 0); lemma_small_mod(0, P() as nat); } }
}
