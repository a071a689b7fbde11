// ---- the number theoretic transform: bit reversal, stages, evaluation ------------------------
pub uninterp spec fn P() -> int;
/// the Barrett constructor of every derived field rejects moduli of more than BITS - 2 bits (C02)
#[verifier::external_body]
pub proof fn axiom_p() ensures 2 <= P(), 4 * P() <= $B, { }
pub open spec fn rev(l: nat, x: int) -> int decreases l { if l == 0 { 0 } else { (x % 2) * pow2((l - 1) as nat) + rev((l - 1) as nat, x / 2) } }
pub proof fn lemma_p2(k: nat) ensures pow2((k + 1) as nat) == 2 * pow2(k), pow2(0) == 1, pow2(k) > 0
{ lemma_pow2_unfold((k + 1) as nat); lemma_pow2_pos(k); lemma2_to64(); }
pub proof fn lemma_rev_bound(l: nat, x: int)
    requires x >= 0, ensures 0 <= rev(l, x) < pow2(l), decreases l,
{
    lemma_p2(0);
    if l > 0 {
        lemma_rev_bound((l - 1) as nat, x / 2); lemma_p2((l - 1) as nat);
        let (q, b) = (pow2((l - 1) as nat) as int, x % 2);
        assert(0 <= b * q <= q) by (nonlinear_arith) requires 0 <= b <= 1, q >= 0;
    }
}
/// the reversal of l + 1 bits, split at the top bit
pub proof fn lemma_rev_top(l: nat, x: int)
    requires 0 <= x < pow2(l),
    ensures rev(l + 1, x) == 2 * rev(l, x), rev(l + 1, pow2(l) + x) == 2 * rev(l, x) + 1,
    decreases l,
{
    lemma_p2(0); lemma_p2(l);
    if l > 0 {
        let m = (l - 1) as nat;
        lemma_p2(m);
        lemma_rev_top(m, x / 2);
        let y = pow2(l) + x;
        assert(y % 2 == x % 2 && y / 2 == pow2(m) + x / 2);
        let (b, q) = (x % 2, pow2(m) as int);
        assert(b * (2 * q) == 2 * (b * q)) by (nonlinear_arith);
        assert(rev(l, x) == b * q + rev(m, x / 2));
        assert(rev(l + 1, x) == b * (2 * q) + rev(l, x / 2));
        assert(rev(l + 1, y) == b * (2 * q) + rev(l, q + x / 2));
    } else {
        assert(x == 0);
        assert(rev(1, 0) == (0int % 2) * pow2(0) + rev(0, 0int / 2)) by { reveal_with_fuel(rev, 2); }
        assert(rev(1, 1) == (1int % 2) * pow2(0) + rev(0, 1int / 2)) by { reveal_with_fuel(rev, 2); }
        assert((0int % 2) * pow2(0) == 0);
    }
}
pub proof fn lemma_rev_inv(l: nat, x: int)
    requires 0 <= x < pow2(l), ensures rev(l, rev(l, x)) == x, decreases l,
{
    lemma_p2(0);
    if l > 0 {
        let m = (l - 1) as nat;
        lemma_p2(m);
        lemma_rev_bound(m, x / 2);
        lemma_rev_inv(m, x / 2);
        lemma_rev_top(m, rev(m, x / 2));
        let b = x % 2;
        if b == 0 { assert(0 * pow2(m) == 0); } else { assert(b == 1); assert(1 * pow2(m) == pow2(m)); }
    }
}
pub proof fn lemma_rev_level(l: nat, s: nat, y: int)
    requires s <= l, 0 <= y < pow2(s), ensures rev(l, y) == pow2((l - s) as nat) * rev(s, y), decreases l,
{
    lemma_p2(0);
    if l > s {
        let m = (l - 1) as nat;
        lemma_pow2_le(s, m);
        lemma_rev_level(m, s, y);
        lemma_rev_top(m, y);
        lemma_p2((m - s) as nat);
        let (q, r) = (pow2((m - s) as nat) as int, rev(s, y));
        assert((2 * q) * r == 2 * (q * r)) by (nonlinear_arith);
    } else {
        assert(1 * rev(s, y) == rev(s, y));
    }
}
pub proof fn lemma_pow2_le(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) decreases b
{ if a < b { lemma_pow2_le(a, (b - 1) as nat); lemma_p2((b - 1) as nat); } }
pub proof fn lemma_rev_div(l: nat, b: nat, x: int)
    requires b <= l, x >= 0, ensures rev(l, x) / (pow2((l - b) as nat) as int) == rev(b, x), decreases b,
{
    lemma_p2(0); lemma_p2((l - b) as nat);
    let d = pow2((l - b) as nat) as int;
    lemma_rev_bound(l, x);
    if b == 0 { lemma_basic_div(rev(l, x), d); }
    else {
        let m = (l - 1) as nat;
        lemma_rev_div(m, (b - 1) as nat, x / 2);
        lemma_pow2_adds((b - 1) as nat, (l - b) as nat);
        let (u, q, r) = (x % 2, pow2((b - 1) as nat) as int, rev(m, x / 2));
        assert(u * pow2(m) + r == (u * q) * d + r) by (nonlinear_arith) requires pow2(m) == q * d;
        assert((u * q) * d == d * (u * q)) by (nonlinear_arith);
        lemma_hoist_over_denominator(r, u * q, d as nat);
    }
}
// ---- powers of the root ---------------------------------------------------------------------
pub open spec fn rp(x: int, e: int) -> int { pow(x, e as nat) % P() }
/// x is a root of X^n + 1
pub open spec fn isroot(x: int, n: int) -> bool { cg(pow(x, n as nat), -1) }
pub open spec fn cg(x: int, y: int) -> bool { (x - y) % P() == 0 }
pub proof fn lemma_cg(x: int, y: int) ensures cg(x, y) <==> x % P() == y % P(), cg(x, y) <==> cg(y, x)
{
    axiom_p();
    lemma_fundamental_div_mod(x, P()); lemma_fundamental_div_mod(y, P());
    lemma_mod_bound(x, P()); lemma_mod_bound(y, P());
    let (p, qx, qy, rx, ry) = (P(), x / P(), y / P(), x % P(), y % P());
    assert(x - y == p * (qx - qy) + (rx - ry)) by (nonlinear_arith) requires x == p * qx + rx, y == p * qy + ry;
    lemma_mod_multiples_vanish(qx - qy, rx - ry, p);
    assert(y - x == p * (qy - qx) + (ry - rx)) by (nonlinear_arith) requires x == p * qx + rx, y == p * qy + ry;
    lemma_mod_multiples_vanish(qy - qx, ry - rx, p);
    if rx - ry >= 0 { lemma_small_mod((rx - ry) as nat, p as nat); } else { lemma_mod_add_multiples_vanish(rx - ry, p); lemma_small_mod((rx - ry + p) as nat, p as nat); }
    if ry - rx >= 0 { lemma_small_mod((ry - rx) as nat, p as nat); } else { lemma_mod_add_multiples_vanish(ry - rx, p); lemma_small_mod((ry - rx + p) as nat, p as nat); }
}
pub proof fn cg_mod(x: int) ensures cg(x % P(), x), cg(x, x % P()), cg(x, x), 0 <= x % P() < P()
{ axiom_p(); lemma_mod_twice(x, P()); lemma_mod_bound(x, P()); lemma_cg(x % P(), x); lemma_cg(x, x); }
pub proof fn cg_trans(x: int, y: int, z: int) requires cg(x, y), cg(y, z) ensures cg(x, z)
{ lemma_cg(x, y); lemma_cg(y, z); lemma_cg(x, z); }
pub proof fn cg_add(x: int, y: int, u: int, v: int) requires cg(x, y), cg(u, v) ensures cg(x + u, y + v), cg(x - u, y - v)
{
    axiom_p();
    lemma_cg(x, y); lemma_cg(u, v);
    lemma_add_mod_noop(x, u, P()); lemma_add_mod_noop(y, v, P());
    lemma_sub_mod_noop(x, u, P()); lemma_sub_mod_noop(y, v, P());
    lemma_cg(x + u, y + v); lemma_cg(x - u, y - v);
}
pub proof fn cg_mul(x: int, y: int, c: int) requires cg(x, y) ensures cg(x * c, y * c), cg(c * x, c * y)
{
    axiom_p();
    lemma_cg(x, y);
    lemma_mul_mod_noop_left(x, c, P()); lemma_mul_mod_noop_left(y, c, P());
    lemma_mul_is_commutative(x, c); lemma_mul_is_commutative(y, c);
    lemma_cg(x * c, y * c);
}
pub proof fn cg_mul2(x: int, y: int, u: int, v: int) requires cg(x, y), cg(u, v) ensures cg(x * u, y * v)
{ cg_mul(x, y, u); cg_mul(u, v, y); cg_trans(x * u, y * u, y * v); }
/// a is a representative of the residue of x
pub proof fn cg_canon(a: int, x: int) requires 0 <= a < P(), cg(a, x) ensures a == x % P()
{ lemma_cg(a, x); lemma_small_mod(a as nat, P() as nat); }
pub proof fn lemma_rp(x: int, e: int, f: int)
    requires e >= 0, f >= 0,
    ensures 0 <= rp(x, e) < P(), rp(x, e + f) == (rp(x, e) * rp(x, f)) % P(), cg(rp(x, e), pow(x, e as nat)), cg(rp(x, e + f), rp(x, e) * rp(x, f)),
{
    lemma_pow_adds(x, e as nat, f as nat);
    cg_mod(pow(x, e as nat)); cg_mod(pow(x, f as nat)); cg_mod(pow(x, (e + f) as nat));
    cg_mul2(rp(x, e), pow(x, e as nat), rp(x, f), pow(x, f as nat));
    lemma_cg(rp(x, e) * rp(x, f), pow(x, e as nat) * pow(x, f as nat));
    cg_mod(rp(x, e) * rp(x, f));
    lemma_cg(rp(x, e + f), rp(x, e) * rp(x, f));
    lemma_mod_twice(pow(x, (e + f) as nat), P());
}
/// powers repeat with period 2n, with a sign change after n
pub proof fn lemma_rp_n(x: int, n: int, e: int)
    requires n > 0, e >= 0, isroot(x, n),
    ensures cg(rp(x, e + n), -rp(x, e)), rp(x, e + 2 * n) == rp(x, e), rp(x, 0) == 1,
{
    axiom_p();
    lemma_rp(x, e, n); lemma_rp(x, n, n); lemma_rp(x, e + n, n);
    let r = rp(x, e);
    cg_trans(rp(x, n), pow(x, n as nat), -1);
    cg_mul(rp(x, n), -1, r);
    assert(r * -1 == -r);
    cg_trans(rp(x, e + n), r * rp(x, n), -r);
    cg_mul2(rp(x, e + n), -r, rp(x, n), -1);
    assert((-r) * -1 == r) by (nonlinear_arith);
    cg_trans(rp(x, e + n + n), rp(x, e + n) * rp(x, n), r);
    lemma_rp(x, e + n + n, 0);
    cg_canon(rp(x, e + n + n), r);
    lemma_small_mod(r as nat, P() as nat);
    lemma_pow0(x); lemma_small_mod(1, P() as nat);
}
pub proof fn lemma_rp_per(x: int, n: int, e: int, k: nat)
    requires n > 0, e >= 0, isroot(x, n),
    ensures rp(x, e + (2 * n) * k) == rp(x, e), decreases k,
{
    if k > 0 {
        lemma_rp_per(x, n, e, (k - 1) as nat);
        assert((2 * n) * k == (2 * n) * (k - 1) + 2 * n) by (nonlinear_arith);
        assert((2 * n) * (k - 1) >= 0) by (nonlinear_arith) requires n > 0, k >= 1;
        lemma_rp_n(x, n, e + (2 * n) * (k - 1));
    } else { assert((2 * n) * 0 == 0); }
}
pub proof fn lemma_rp_mod(x: int, n: int, e: int)
    requires n > 0, e >= 0, isroot(x, n),
    ensures rp(x, e % (2 * n)) == rp(x, e),
{
    lemma_fundamental_div_mod(e, 2 * n); lemma_mod_bound(e, 2 * n); lemma_div_pos_is_pos(e, 2 * n);
    lemma_rp_per(x, n, e % (2 * n), (e / (2 * n)) as nat);
}
// ---- stages: level s holds the residues modulo X^(n/2^s) - c, one block per c ------------------
/// exponent of the twiddle factor that splits block b of level s
pub open spec fn tw(l: nat, s: nat, b: int) -> int { pow2((l - s - 1) as nat) * (2 * rev(s, b) + 1) }
/// exponent of c for block b of level s
pub open spec fn ex(l: nat, s: nat, b: int) -> int { pow2((l - s) as nat) * (2 * rev(s, b) + 1) }
pub open spec fn gp(l: nat, s: nat) -> int { pow2((l - s - 1) as nat) as int }
pub open spec fn stf(x: int, l: nat, s: nat, v: Seq<int>) -> Seq<int> {
    let g = gp(l, s);
    Seq::new(v.len(), |j: int| { let (b, k) = (j / (2 * g), j % (2 * g)); let r = rp(x, tw(l, s, b)); if k < g { (v[j] + v[j + g] * r) % P() } else { (v[j - g] - v[j] * r) % P() } })
}
pub open spec fn stg(x: int, l: nat, s: nat, v: Seq<int>) -> Seq<int> {
    let g = gp(l, s);
    Seq::new(v.len(), |j: int| { let (b, k) = (j / (2 * g), j % (2 * g)); let r = rp(x, 2 * pow2(l) - tw(l, s, b)); if k < g { (v[j] + v[j + g]) % P() } else { ((v[j - g] - v[j]) * r) % P() } })
}
pub open spec fn fwd(x: int, l: nat, s: nat, a: Seq<int>) -> Seq<int> decreases s { if s == 0 { a } else { stf(x, l, (s - 1) as nat, fwd(x, l, (s - 1) as nat, a)) } }
/// level s reached from level l
pub open spec fn bwd(x: int, l: nat, s: nat, y: Seq<int>) -> Seq<int> decreases l - s { if s >= l { y } else { stg(x, l, s, bwd(x, l, s + 1, y)) } }
pub open spec fn isres(a: Seq<int>) -> bool { forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < P() }
pub open spec fn scl(a: Seq<int>, c: int) -> Seq<int> { Seq::new(a.len(), |i: int| (a[i] * c) % P()) }
pub open spec fn nttx(x: int, l: nat, a: Seq<int>) -> Seq<int> { fwd(x, l, l, a) }
pub open spec fn inttx(x: int, l: nat, ninv: int, y: Seq<int>) -> Seq<int> { scl(bwd(x, l, 0, y), ninv) }
/// indices: block and offset
pub proof fn lemma_ix(l: nat, s: nat, j: int)
    requires s < l, 0 <= j < pow2(l),
    ensures ({ let g = gp(l, s); let (b, k) = (j / (2 * g), j % (2 * g));
        g > 0 && 2 * g * pow2(s) == pow2(l) && 0 <= b < pow2(s) && 0 <= k < 2 * g && j == (2 * g) * b + k && (k < g ==> j + g < pow2(l) && (j + g) / (2 * g) == b && (j + g) % (2 * g) == k + g)
        && (k >= g ==> j - g >= 0 && (j - g) / (2 * g) == b && (j - g) % (2 * g) == k - g) }),
{
    let g = gp(l, s);
    lemma_p2((l - s - 1) as nat); lemma_p2(s);
    lemma_pow2_adds((l - s) as nat, s);
    let m = pow2(s) as int;
    assert(2 * g * m == pow2(l));
    lemma_fundamental_div_mod(j, 2 * g); lemma_mod_bound(j, 2 * g); lemma_div_pos_is_pos(j, 2 * g);
    let (b, k) = (j / (2 * g), j % (2 * g));
    assert(b < m) by (nonlinear_arith) requires (2 * g) * b + k < 2 * g * m, k >= 0, g > 0;
    assert((2 * g) * (b + 1) <= 2 * g * m) by (nonlinear_arith) requires b + 1 <= m, g > 0;
    assert((2 * g) * (b + 1) == (2 * g) * b + 2 * g) by (nonlinear_arith);
    assert((2 * g) * b == b * (2 * g)) by (nonlinear_arith);
    assert((2 * g) * b >= 0) by (nonlinear_arith) requires b >= 0, g > 0;
    if k < g { lemma_fundamental_div_mod_converse(j + g, 2 * g, b, k + g); }
    else { lemma_fundamental_div_mod_converse(j - g, 2 * g, b, k - g); }
}
pub proof fn lemma_tw(l: nat, s: nat, b: int)
    requires s < l, 0 <= b < pow2(s),
    ensures 0 < tw(l, s, b) < pow2(l), ex(l, s, b) == 2 * tw(l, s, b), ex(l, s + 1, 2 * b) == tw(l, s, b), ex(l, s + 1, 2 * b + 1) == tw(l, s, b) + pow2(l),
{
    lemma_rev_bound(s, b); lemma_p2((l - s - 1) as nat); lemma_p2(s);
    let (q, r, m) = (pow2((l - s - 1) as nat) as int, rev(s, b), pow2(s) as int);
    lemma_pow2_adds((l - s - 1) as nat, s + 1);
    assert(q * (2 * m) == pow2(l));
    assert(0 < q * (2 * r + 1) < q * (2 * m)) by (nonlinear_arith) requires q > 0, 0 <= r < m;
    assert((2 * q) * (2 * r + 1) == 2 * (q * (2 * r + 1))) by (nonlinear_arith);
    assert((2 * b) % 2 == 0 && (2 * b) / 2 == b && (2 * b + 1) % 2 == 1 && (2 * b + 1) / 2 == b);
    assert(0 * pow2(s) == 0 && 1 * pow2(s) == pow2(s));
    assert(rev(s + 1, 2 * b) == r);
    assert(rev(s + 1, 2 * b + 1) == m + r);
    assert(q * (2 * (m + r) + 1) == q * (2 * r + 1) + q * (2 * m)) by (nonlinear_arith);
}
// ---- one butterfly ---------------------------------------------------------------------------
pub proof fn lemma_eqm(a: int, b: int) requires cg(a, b) ensures a % P() == b % P() { lemma_cg(a, b); }
pub proof fn lemma_bf(u: int, w: int, r: int, ri: int)
    requires cg(r * ri, 1),
    ensures ((u + w * r) % P() + (u - w * r) % P()) % P() == (u * 2) % P(), (((u + w * r) % P() - (u - w * r) % P()) * ri) % P() == (w * 2) % P(),
{
    let (a, b) = (u + w * r, u - w * r);
    cg_mod(a); cg_mod(b);
    cg_add(a % P(), a, b % P(), b);
    assert(a + b == u * 2);
    lemma_eqm(a % P() + b % P(), u * 2);
    cg_mul(a % P() - b % P(), a - b, ri);
    assert((a - b) * ri == (2 * w) * (r * ri)) by (nonlinear_arith) requires a == u + w * r, b == u - w * r;
    cg_mul(r * ri, 1, 2 * w);
    assert((2 * w) * 1 == w * 2);
    cg_trans((a % P() - b % P()) * ri, (a - b) * ri, w * 2);
    lemma_eqm((a % P() - b % P()) * ri, w * 2);
}
pub proof fn lemma_bg(u: int, w: int, r: int, ri: int)
    requires cg(r * ri, 1),
    ensures ((u + w) % P() + (((u - w) * ri) % P()) * r) % P() == (u * 2) % P(), ((u + w) % P() - (((u - w) * ri) % P()) * r) % P() == (w * 2) % P(),
{
    let (a, d) = (u + w, (u - w) * ri);
    cg_mod(a); cg_mod(d);
    cg_mul(d % P(), d, r);
    assert(d * r == (u - w) * (r * ri)) by (nonlinear_arith) requires d == (u - w) * ri;
    cg_mul(r * ri, 1, u - w);
    assert((u - w) * 1 == u - w);
    cg_trans((d % P()) * r, d * r, u - w);
    cg_add(a % P(), a, (d % P()) * r, u - w);
    lemma_eqm(a % P() + (d % P()) * r, u * 2);
    lemma_eqm(a % P() - (d % P()) * r, w * 2);
}
/// linearity of one butterfly: (v + c*z) on both inputs
pub proof fn lemma_bl(v0: int, z0: int, v1: int, z1: int, c: int, r: int)
    ensures ((v0 + c * z0) % P() + ((v1 + c * z1) % P()) * r) % P() == ((v0 + v1 * r) % P() + c * ((z0 + z1 * r) % P())) % P(),
        ((v0 + c * z0) % P() - ((v1 + c * z1) % P()) * r) % P() == ((v0 - v1 * r) % P() + c * ((z0 - z1 * r) % P())) % P(),
        (((v0 + c * z0) % P() - ((v1 + c * z1) % P())) * r) % P() == (((v0 - v1) * r) % P() + c * (((z0 - z1) * r) % P())) % P(),
{
    let (a, b) = (v0 + c * z0, v1 + c * z1);
    cg_mod(a); cg_mod(b); cg_mul(b % P(), b, r);
    let (e, f) = (v0 + v1 * r, z0 + z1 * r);
    let (g, h) = (v0 - v1 * r, z0 - z1 * r);
    let (i, k) = ((v0 - v1) * r, (z0 - z1) * r);
    cg_mod(e); cg_mod(f); cg_mod(g); cg_mod(h); cg_mod(i); cg_mod(k);
    cg_mul(f % P(), f, c); cg_mul(h % P(), h, c); cg_mul(k % P(), k, c);
    cg_add(a % P(), a, (b % P()) * r, b * r);
    cg_add(e % P(), e, c * (f % P()), c * f);
    cg_add(g % P(), g, c * (h % P()), c * h);
    cg_add(i % P(), i, c * (k % P()), c * k);
    cg_add(a % P(), a, b % P(), b); cg_mul(a % P() - b % P(), a - b, r);
    assert(a + b * r == e + c * f && a - b * r == g + c * h && (a - b) * r == i + c * k) by (nonlinear_arith)
        requires a == v0 + c * z0, b == v1 + c * z1, e == v0 + v1 * r, f == z0 + z1 * r, g == v0 - v1 * r, h == z0 - z1 * r, i == (v0 - v1) * r, k == (z0 - z1) * r;
    lemma_cg(a % P() + (b % P()) * r, a + b * r); lemma_cg(e % P() + c * (f % P()), e + c * f);
    lemma_cg(a % P() - (b % P()) * r, a - b * r); lemma_cg(g % P() + c * (h % P()), g + c * h);
    lemma_cg((a % P() - b % P()) * r, (a - b) * r); lemma_cg(i % P() + c * (k % P()), i + c * k);
}
// ---- stages are linear and undo each other -----------------------------------------------------
pub open spec fn lin(v: Seq<int>, z: Seq<int>, c: int) -> Seq<int> { Seq::new(v.len(), |i: int| (v[i] + c * z[i]) % P()) }
pub proof fn lemma_stres(x: int, l: nat, s: nat, v: Seq<int>) ensures isres(stf(x, l, s, v)), isres(stg(x, l, s, v)), stf(x, l, s, v).len() == v.len(), stg(x, l, s, v).len() == v.len()
{
    axiom_p();
    assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] stf(x, l, s, v)[i] < P() by { lemma_mod_all(); }
    assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] stg(x, l, s, v)[i] < P() by { lemma_mod_all(); }
}
pub proof fn lemma_mod_all() ensures forall|y: int| #![trigger y % P()] 0 <= y % P() < P()
{ axiom_p(); assert forall|y: int| #![trigger y % P()] 0 <= y % P() < P() by { lemma_mod_bound(y, P()); } }
pub proof fn lemma_st_lin(x: int, l: nat, s: nat, v: Seq<int>, z: Seq<int>, c: int)
    requires s < l, v.len() == pow2(l), z.len() == v.len(),
    ensures stf(x, l, s, lin(v, z, c)) == lin(stf(x, l, s, v), stf(x, l, s, z), c), stg(x, l, s, lin(v, z, c)) == lin(stg(x, l, s, v), stg(x, l, s, z), c),
{
    let g = gp(l, s);
    let y = lin(v, z, c);
    assert forall|j: int| #![trigger stf(x, l, s, y)[j]] #![trigger stg(x, l, s, y)[j]] 0 <= j < v.len() implies stf(x, l, s, y)[j] == lin(stf(x, l, s, v), stf(x, l, s, z), c)[j] && stg(x, l, s, y)[j] == lin(stg(x, l, s, v), stg(x, l, s, z), c)[j] by {
        lemma_ix(l, s, j);
        let (b, k) = (j / (2 * g), j % (2 * g));
        let (lo, hi) = if k < g { (j, j + g) } else { (j - g, j) };
        let r = rp(x, tw(l, s, b)); let ri = rp(x, 2 * pow2(l) - tw(l, s, b));
        lemma_bl(v[lo], z[lo], v[hi], z[hi], c, r);
        lemma_bl(v[lo], z[lo], v[hi], z[hi], c, ri);
        lemma_bl(v[lo], z[lo], v[hi], z[hi], c, 1);
        assert(v[hi] * 1 == v[hi] && z[hi] * 1 == z[hi] && y[hi] * 1 == y[hi]);
    }
    assert(stf(x, l, s, y) =~= lin(stf(x, l, s, v), stf(x, l, s, z), c));
    assert(stg(x, l, s, y) =~= lin(stg(x, l, s, v), stg(x, l, s, z), c));
}
pub proof fn lemma_twinv(x: int, l: nat, s: nat, b: int)
    requires s < l, 0 <= b < pow2(s), isroot(x, pow2(l) as int),
    ensures cg(rp(x, tw(l, s, b)) * rp(x, 2 * pow2(l) - tw(l, s, b)), 1),
{
    lemma_tw(l, s, b);
    let e = tw(l, s, b); let n = pow2(l) as int;
    lemma_rp(x, e, 2 * n - e);
    lemma_rp_n(x, n, 0);
    lemma_cg(rp(x, 2 * n), rp(x, e) * rp(x, 2 * n - e));
}
pub proof fn lemma_undo(x: int, l: nat, s: nat, v: Seq<int>)
    requires s < l, v.len() == pow2(l), isroot(x, pow2(l) as int),
    ensures stg(x, l, s, stf(x, l, s, v)) == scl(v, 2), stf(x, l, s, stg(x, l, s, v)) == scl(v, 2),
{
    let g = gp(l, s);
    let (f, h) = (stf(x, l, s, v), stg(x, l, s, v));
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] stg(x, l, s, f)[j] == scl(v, 2)[j] && stf(x, l, s, h)[j] == scl(v, 2)[j] by {
        lemma_ix(l, s, j);
        let (b, k) = (j / (2 * g), j % (2 * g));
        let (lo, hi) = if k < g { (j, j + g) } else { (j - g, j) };
        let r = rp(x, tw(l, s, b)); let ri = rp(x, 2 * pow2(l) - tw(l, s, b));
        lemma_twinv(x, l, s, b);
        lemma_ix(l, s, lo); lemma_ix(l, s, hi);
        assert(lo / (2 * g) == b && hi / (2 * g) == b && lo % (2 * g) < g && hi % (2 * g) >= g && hi == lo + g);
        assert(f[lo] == (v[lo] + v[hi] * r) % P() && f[hi] == (v[lo] - v[hi] * r) % P());
        assert(h[lo] == (v[lo] + v[hi]) % P() && h[hi] == ((v[lo] - v[hi]) * ri) % P());
        lemma_bf(v[lo], v[hi], r, ri); lemma_bg(v[lo], v[hi], r, ri);
    }
    assert(stg(x, l, s, f) =~= scl(v, 2));
    assert(stf(x, l, s, h) =~= scl(v, 2));
}
pub proof fn lemma_scl(a: Seq<int>, c: int, d: int)
    ensures scl(scl(a, c), d) == scl(a, c * d), isres(a) ==> scl(a, 1) == a, isres(scl(a, c)), cg(c, d) ==> scl(a, c) == scl(a, d), lin(scl(a, 0), a, c) == scl(a, c),
{
    axiom_p(); lemma_mod_all();
    assert forall|i: int| #![trigger scl(scl(a, c), d)[i]] #![trigger scl(a, c)[i]] #![trigger a[i]] #![trigger lin(scl(a, 0), a, c)[i]] 0 <= i < a.len() implies scl(scl(a, c), d)[i] == scl(a, c * d)[i] && (cg(c, d) ==> scl(a, c)[i] == scl(a, d)[i]) && (isres(a) ==> scl(a, 1)[i] == a[i]) && lin(scl(a, 0), a, c)[i] == scl(a, c)[i] by {
        lemma_mul_mod_noop_left(a[i] * c, d, P());
        let ai = a[i];
        assert((ai * c) * d == ai * (c * d)) by (nonlinear_arith);
        if cg(c, d) { cg_mul(c, d, ai); lemma_cg(ai * c, ai * d); }
        if isres(a) { assert(ai * 1 == ai); lemma_small_mod(ai as nat, P() as nat); }
        assert(scl(a, 0)[i] == (ai * 0) % P()); assert(ai * 0 == 0); lemma_small_mod(0, P() as nat);
        lemma_mul_is_commutative(ai, c);
    }
    assert(scl(scl(a, c), d) =~= scl(a, c * d));
    if cg(c, d) { assert(scl(a, c) =~= scl(a, d)); }
    if isres(a) { assert(scl(a, 1) =~= a); }
    assert(lin(scl(a, 0), a, c) =~= scl(a, c));
}
/// a stage of the zero vector, hence of a multiple
pub proof fn lemma_st_scl(x: int, l: nat, s: nat, v: Seq<int>, c: int)
    requires s < l, v.len() == pow2(l),
    ensures stf(x, l, s, scl(v, c)) == scl(stf(x, l, s, v), c), stg(x, l, s, scl(v, c)) == scl(stg(x, l, s, v), c),
{
    lemma_stres(x, l, s, v);
    lemma_scl(v, c, c); lemma_scl(stf(x, l, s, v), c, c); lemma_scl(stg(x, l, s, v), c, c);
    lemma_st_lin(x, l, s, scl(v, 0), v, c);
    let z = scl(v, 0);
    axiom_p();
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] z[j] == 0 by { assert(v[j] * 0 == 0); lemma_small_mod(0, P() as nat); }
    assert forall|j: int| #![trigger stf(x, l, s, z)[j]] #![trigger stg(x, l, s, z)[j]] 0 <= j < v.len() implies stf(x, l, s, z)[j] == scl(stf(x, l, s, v), 0)[j] && stg(x, l, s, z)[j] == scl(stg(x, l, s, v), 0)[j] by {
        lemma_ix(l, s, j);
        let g = gp(l, s);
        let (b, k) = (j / (2 * g), j % (2 * g));
        let (r, ri) = (rp(x, tw(l, s, b)), rp(x, 2 * pow2(l) - tw(l, s, b)));
        assert(0 * r == 0 && 0 * ri == 0);
        assert(stf(x, l, s, v)[j] * 0 == 0 && stg(x, l, s, v)[j] * 0 == 0);
        lemma_small_mod(0, P() as nat);
    }
    assert(stf(x, l, s, z) =~= scl(stf(x, l, s, v), 0));
    assert(stg(x, l, s, z) =~= scl(stg(x, l, s, v), 0));
}
pub proof fn lemma_fwd_res(x: int, l: nat, s: nat, a: Seq<int>) requires isres(a) ensures isres(fwd(x, l, s, a)), fwd(x, l, s, a).len() == a.len() decreases s
{ if s > 0 { lemma_fwd_res(x, l, (s - 1) as nat, a); lemma_stres(x, l, (s - 1) as nat, fwd(x, l, (s - 1) as nat, a)); } }
pub proof fn lemma_bwd_res(x: int, l: nat, s: nat, y: Seq<int>) requires isres(y) ensures isres(bwd(x, l, s, y)), bwd(x, l, s, y).len() == y.len() decreases l - s
{ if s < l { lemma_bwd_res(x, l, s + 1, y); lemma_stres(x, l, s, bwd(x, l, s + 1, y)); } }
pub proof fn lemma_fwd_lin(x: int, l: nat, s: nat, a: Seq<int>, z: Seq<int>, c: int)
    requires s <= l, a.len() == pow2(l), z.len() == a.len(), isres(a), isres(z),
    ensures fwd(x, l, s, lin(a, z, c)) == lin(fwd(x, l, s, a), fwd(x, l, s, z), c), decreases s,
{
    if s > 0 {
        let m = (s - 1) as nat;
        lemma_fwd_lin(x, l, m, a, z, c);
        lemma_fwd_res(x, l, m, a); lemma_fwd_res(x, l, m, z);
        lemma_st_lin(x, l, m, fwd(x, l, m, a), fwd(x, l, m, z), c);
    }
}
pub proof fn lemma_fwd_scl(x: int, l: nat, s: nat, a: Seq<int>, c: int)
    requires s <= l, a.len() == pow2(l), isres(a),
    ensures fwd(x, l, s, scl(a, c)) == scl(fwd(x, l, s, a), c), decreases s,
{
    if s > 0 {
        let m = (s - 1) as nat;
        lemma_fwd_scl(x, l, m, a, c);
        lemma_fwd_res(x, l, m, a);
        lemma_st_scl(x, l, m, fwd(x, l, m, a), c);
    }
}
pub proof fn lemma_round1(x: int, l: nat, s: nat, a: Seq<int>)
    requires s <= l, a.len() == pow2(l), isres(a), isroot(x, pow2(l) as int),
    ensures bwd(x, l, s, nttx(x, l, a)) == scl(fwd(x, l, s, a), pow2((l - s) as nat) as int), decreases l - s,
{
    lemma_p2(0);
    lemma_fwd_res(x, l, s, a);
    let v = fwd(x, l, s, a);
    lemma_scl(v, 1, 1);
    if s < l {
        let q = pow2((l - s - 1) as nat) as int;
        lemma_round1(x, l, s + 1, a);
        lemma_stres(x, l, s, v);
        lemma_st_scl(x, l, s, stf(x, l, s, v), q);
        lemma_undo(x, l, s, v);
        lemma_scl(v, 2, q);
        lemma_p2((l - s - 1) as nat);
    }
}
pub proof fn lemma_round2(x: int, l: nat, s: nat, y: Seq<int>)
    requires s <= l, y.len() == pow2(l), isres(y), isroot(x, pow2(l) as int),
    ensures fwd(x, l, s, bwd(x, l, 0, y)) == scl(bwd(x, l, s, y), pow2(s) as int), decreases s,
{
    lemma_p2(0);
    lemma_bwd_res(x, l, s, y);
    lemma_scl(bwd(x, l, 0, y), 1, 1); lemma_bwd_res(x, l, 0, y);
    if s > 0 {
        let m = (s - 1) as nat;
        lemma_round2(x, l, m, y);
        lemma_bwd_res(x, l, m, y);
        let v = bwd(x, l, s, y);
        lemma_st_scl(x, l, m, stg(x, l, m, v), pow2(m) as int);
        lemma_stres(x, l, m, v);
        lemma_undo(x, l, m, v);
        lemma_scl(v, 2, pow2(m) as int);
        lemma_p2(m);
    }
}
/// the inverse transform undoes the transform, and is undone by it
pub proof fn theorem_inverse(x: int, l: nat, ninv: int, a: Seq<int>)
    requires a.len() == pow2(l), isres(a), isroot(x, pow2(l) as int), cg(pow2(l) * ninv, 1),
    ensures inttx(x, l, ninv, nttx(x, l, a)) == a, nttx(x, l, inttx(x, l, ninv, a)) == a, nttx(x, l, a).len() == a.len(), isres(nttx(x, l, a)), inttx(x, l, ninv, a).len() == a.len(), isres(inttx(x, l, ninv, a)),
{
    let n = pow2(l) as int;
    lemma_fwd_res(x, l, l, a); lemma_fwd_res(x, l, 0, a);
    lemma_bwd_res(x, l, 0, a);
    lemma_round1(x, l, 0, a);
    lemma_scl(a, n, ninv); lemma_scl(a, n * ninv, 1); lemma_scl(a, 1, 1);
    let y = bwd(x, l, 0, a);
    lemma_round2(x, l, l, a);
    lemma_fwd_scl(x, l, l, y, ninv);
    lemma_scl(y, ninv, 1);
}
// ---- the transform evaluates at the odd powers of the root -------------------------------------
/// sum of a[k + q*t] * c^q over q < m
pub open spec fn es(a: Seq<int>, k: int, t: int, c: int, m: nat) -> int decreases m { if m == 0 { 0 } else { es(a, k, t, c, (m - 1) as nat) + a[k + (m - 1) * t] * pow(c, (m - 1) as nat) } }
pub proof fn lemma_powsq(c: int, j: nat) ensures pow(c, 2 * j) == pow(c * c, j), pow(c, 2 * j + 1) == c * pow(c * c, j), pow(c, 0) == 1
{
    lemma_pow0(c); lemma_pow1(c);
    lemma_pow_adds(c, 1, 1);
    lemma_pow_multiplies(c, 2, j);
    lemma_pow_adds(c, 1, 2 * j);
}
pub proof fn lemma_es_split(a: Seq<int>, k: int, g: int, c: int, m: nat)
    ensures es(a, k, g, c, 2 * m) == es(a, k, 2 * g, c * c, m) + c * es(a, k + g, 2 * g, c * c, m), decreases m,
{
    if m > 0 {
        let j = (m - 1) as nat;
        lemma_es_split(a, k, g, c, j);
        lemma_powsq(c, j);
        assert(2 * m == 2 * j + 2);
        assert((2 * j + 1) as int * g == g + j * (2 * g) && (2 * j) as int * g == j * (2 * g)) by (nonlinear_arith);
        let (p, a0, a1) = (pow(c * c, j), a[k + j * (2 * g)], a[k + g + j * (2 * g)]);
        assert(es(a, k, g, c, 2 * j + 1) == es(a, k, g, c, 2 * j) + a0 * p);
        assert(es(a, k, g, c, 2 * j + 2) == es(a, k, g, c, 2 * j + 1) + a1 * (c * p));
        let (e0, e1) = (es(a, k, 2 * g, c * c, j), es(a, k + g, 2 * g, c * c, j));
        assert(e0 + c * e1 + a0 * p + a1 * (c * p) == (e0 + a0 * p) + c * (e1 + a1 * p)) by (nonlinear_arith);
    } else { assert(c * 0 == 0); }
}
pub proof fn lemma_pow_cg(c: int, d: int, e: nat) requires cg(c, d) ensures cg(pow(c, e), pow(d, e)) decreases e
{
    reveal(pow);
    if e > 0 { lemma_pow_cg(c, d, (e - 1) as nat); cg_mul2(c, d, pow(c, (e - 1) as nat), pow(d, (e - 1) as nat)); } else { cg_mod(1); }
}
pub proof fn lemma_es_cg(a: Seq<int>, b: Seq<int>, k: int, t: int, c: int, d: int, m: nat)
    requires cg(c, d), forall|i: int| cg(#[trigger] a[i], b[i]), ensures cg(es(a, k, t, c, m), es(b, k, t, d, m)), decreases m,
{
    if m > 0 {
        let j = (m - 1) as nat;
        lemma_es_cg(a, b, k, t, c, d, j);
        lemma_pow_cg(c, d, j);
        let i = k + j * t;
        assert(cg(a[i], b[i]));
        cg_mul2(a[i], b[i], pow(c, j), pow(d, j));
        cg_add(es(a, k, t, c, j), es(b, k, t, d, j), a[i] * pow(c, j), b[i] * pow(d, j));
    } else { cg_mod(0); }
}
pub proof fn lemma_es_same(a: Seq<int>, k: int, t: int, c: int, d: int, m: nat) requires cg(c, d) ensures cg(es(a, k, t, c, m), es(a, k, t, d, m))
{ assert forall|i: int| cg(#[trigger] a[i], a[i]) by { cg_mod(a[i]); } lemma_es_cg(a, a, k, t, c, d, m); }
pub proof fn lemma_fwd_len(x: int, l: nat, s: nat, a: Seq<int>) ensures fwd(x, l, s, a).len() == a.len() decreases s { if s > 0 { lemma_fwd_len(x, l, (s - 1) as nat, a); } }
/// level s: block b holds the residue of a modulo X^t - x^ex
pub proof fn lemma_level(x: int, l: nat, s: nat, a: Seq<int>, b: int, k: int)
    requires s <= l, a.len() == pow2(l), isroot(x, pow2(l) as int), 0 <= b < pow2(s), 0 <= k < pow2((l - s) as nat),
    ensures 0 <= b * pow2((l - s) as nat) + k < pow2(l), cg(fwd(x, l, s, a)[b * pow2((l - s) as nat) + k], es(a, k, pow2((l - s) as nat) as int, pow(x, ex(l, s, b) as nat), pow2(s))),
    decreases s,
{
    lemma_p2(0); lemma_p2((l - s) as nat); lemma_p2(l);
    let t = pow2((l - s) as nat) as int;
    lemma_pow2_adds((l - s) as nat, s);
    assert(0 <= b * t + k < t * pow2(s)) by (nonlinear_arith) requires 0 <= b < pow2(s), 0 <= k < t;
    let c1 = pow(x, ex(l, s, b) as nat);
    if s == 0 {
        assert(b == 0 && 0 * t == 0);
        reveal_with_fuel(es, 2);
        lemma_pow0(c1);
        assert(0 * t == 0);
        assert(es(a, k, t, c1, 1) == es(a, k, t, c1, 0) + a[k + 0 * t] * pow(c1, 0));
        assert(a[k] * 1 == a[k]);
        cg_mod(a[k]);
    } else {
        let m = (s - 1) as nat;
        let g = gp(l, m);
        assert(g == t);
        lemma_p2((l - m - 1) as nat); lemma_p2(m);
        let (b0, h) = (b / 2, b % 2);
        let lo = b0 * (2 * g) + k;
        assert(b * g + k == lo + h * g) by (nonlinear_arith) requires b == 2 * b0 + h, lo == b0 * (2 * g) + k;
        lemma_level(x, l, m, a, b0, k); lemma_level(x, l, m, a, b0, k + g);
        lemma_ix(l, m, lo); lemma_mul_is_commutative(b0, 2 * g);
        lemma_fundamental_div_mod_converse(lo, 2 * g, b0, k);
        lemma_ix(l, m, lo + g);
        lemma_tw(l, m, b0);
        let e = tw(l, m, b0); let r = rp(x, e); let n = pow2(l) as int;
        let v = fwd(x, l, m, a);
        let (u, w) = (v[lo], v[lo + g]);
        let c0 = pow(x, ex(l, m, b0) as nat);
        let (eu, ew) = (es(a, k, 2 * g, c0, pow2(m)), es(a, k + g, 2 * g, c0, pow2(m)));
        assert(cg(u, eu) && cg(w, ew));
        lemma_rp(x, e, n); lemma_rp_n(x, n, e); lemma_rp(x, e, e); lemma_rp(x, 2 * e, 0);
        // c1 = x^e or x^(e + n), so c1 is r or -r
        let sg = if h == 0 { 1int } else { -1int };
        lemma_rp(x, e + n, 0);
        if h == 0 { assert(c1 == pow(x, e as nat)); assert(cg(c1, r)) by { lemma_cg(r, c1); } }
        else { assert(c1 == pow(x, (e + n) as nat)); lemma_cg(rp(x, e + n), c1); cg_trans(c1, rp(x, e + n), -r); }
        let sr = sg * r;
        assert(sr == if h == 0 { r } else { -r });
        assert(cg(c1, sr));
        cg_mul2(c1, sr, c1, sr);
        assert(sr * sr == r * r) by (nonlinear_arith) requires sr == r || sr == -r;
        lemma_rp(x, e, e);
        lemma_cg(rp(x, e + e), r * r);
        lemma_cg(r * r, rp(x, 2 * e));
        cg_trans(c1 * c1, r * r, rp(x, 2 * e)); cg_trans(c1 * c1, rp(x, 2 * e), c0);
        lemma_es_split(a, k, g, c1, pow2(m));
        let q = pow2(m);
        lemma_es_same(a, k, 2 * g, c1 * c1, c0, q); lemma_es_same(a, k + g, 2 * g, c1 * c1, c0, q);
        let (fu, fw) = (es(a, k, 2 * g, c1 * c1, q), es(a, k + g, 2 * g, c1 * c1, q));
        lemma_cg(u, eu); lemma_cg(w, ew);
        cg_trans(fu, eu, u); cg_trans(fw, ew, w);
        cg_mul2(c1, sr, fw, w);
        cg_add(fu, u, c1 * fw, sr * w);
        let z = u + sr * w;
        assert(z == if h == 0 { u + w * r } else { u - w * r }) by (nonlinear_arith) requires z == u + sr * w, sr == if h == 0 { r } else { -r };
        cg_mod(z);
        let res = fwd(x, l, s, a)[b * t + k];
        let jj = b * t + k;
        assert(jj == lo + h * g);
        assert(fwd(x, l, s, a) == stf(x, l, m, v));
        lemma_fwd_len(x, l, m, a);
        if h == 0 { assert(jj == lo) by { assert(0 * g == 0); } assert(jj / (2 * g) == b0 && jj % (2 * g) == k); assert(res == (v[jj] + v[jj + g] * r) % P()); }
        else { assert(h == 1); assert(jj == lo + g) by { assert(1 * g == g); } assert(jj / (2 * g) == b0 && jj % (2 * g) == k + g); assert(res == (v[jj - g] - v[jj] * r) % P()); }
        assert(res == z % P());
        lemma_cg(fu + c1 * fw, z);
        cg_trans(res, z, fu + c1 * fw);
    }
}
/// the point at which output j is taken
pub open spec fn pt(x: int, l: nat, j: int) -> int { pow(x, (2 * rev(l, j) + 1) as nat) }
pub open spec fn evp(a: Seq<int>, c: int) -> int { es(a, 0, 1, c, a.len()) }
pub proof fn theorem_eval(x: int, l: nat, a: Seq<int>, j: int)
    requires a.len() == pow2(l), isres(a), isroot(x, pow2(l) as int), 0 <= j < pow2(l),
    ensures nttx(x, l, a)[j] == evp(a, pt(x, l, j)) % P(), cg(pow(pt(x, l, j), pow2(l)), -1),
{
    lemma_p2(0); lemma_rev_bound(l, j);
    lemma_level(x, l, l, a, j, 0);
    assert(j * 1 == j);
    lemma_fwd_res(x, l, l, a);
    let r = 2 * rev(l, j) + 1;
    assert(ex(l, l, j) == r) by { assert(1 * r == r); }
    assert(nttx(x, l, a)[j] == fwd(x, l, l, a)[j * 1 + 0]);
    cg_canon(nttx(x, l, a)[j], evp(a, pt(x, l, j)));
    let n = pow2(l);
    lemma_pow_multiplies(x, r as nat, n); lemma_pow_multiplies(x, n, r as nat);
    lemma_mul_is_commutative(r, n as int);
    lemma_pow_cg(pow(x, n), -1, r as nat);
    lemma_negone(rev(l, j) as nat);
}
pub proof fn lemma_negone(k: nat) ensures pow(-1, 2 * k + 1) == -1
{ lemma_powsq(-1, k); lemma1_pow(k); assert(-1int * -1int == 1); }
pub proof fn lemma1_pow(k: nat) ensures pow(1, k) == 1 decreases k { reveal(pow); if k > 0 { lemma1_pow((k - 1) as nat); } }
// ---- products ----------------------------------------------------------------------------------
/// coefficient k of the product modulo X^n + 1, from the first m terms
pub open spec fn nsum(a: Seq<int>, b: Seq<int>, k: int, m: nat) -> int decreases m {
    if m == 0 { 0 } else { nsum(a, b, k, (m - 1) as nat) + (if m - 1 <= k { a[m - 1] * b[k - (m - 1)] } else { -(a[m - 1] * b[a.len() + k - (m - 1)]) }) }
}
pub open spec fn negmul(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| nsum(a, b, k, a.len()) % P()) }
pub open spec fn pmul(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| (a[i] * b[i]) % P()) }
/// X^m * b, and X * v
pub open spec fn rot(b: Seq<int>, m: int) -> Seq<int> { Seq::new(b.len(), |k: int| if m <= k { b[k - m] } else { -b[b.len() + k - m] }) }
pub open spec fn rot1(v: Seq<int>) -> Seq<int> { Seq::new(v.len(), |k: int| if k == 0 { -v[v.len() - 1] } else { v[k - 1] }) }
pub proof fn lemma_es_rot1(v: Seq<int>, c: int, k: nat)
    requires 1 <= k <= v.len(), ensures es(rot1(v), 0, 1, c, k) == c * es(v, 0, 1, c, (k - 1) as nat) - v[v.len() - 1], decreases k,
{
    lemma_pow0(c);
    let w = rot1(v);
    let j = (k - 1) as nat;
    assert(j * 1 == j);
    assert(es(w, 0, 1, c, k) == es(w, 0, 1, c, j) + w[0 + j as int * 1] * pow(c, j));
    if k == 1 {
        assert(w[0] * 1 == w[0]);
        assert(c * 0 == 0);
    } else {
        lemma_es_rot1(v, c, j);
        let i = (j - 1) as nat;
        assert(i * 1 == i);
        lemma_pow_adds(c, 1, i); lemma_pow1(c);
        assert(es(v, 0, 1, c, j) == es(v, 0, 1, c, i) + v[0 + i as int * 1] * pow(c, i));
        let (p, y, e) = (pow(c, i), v[i as int], es(v, 0, 1, c, i));
        assert(c * (e + y * p) == c * e + y * (c * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_es_rot(b: Seq<int>, c: int, m: nat)
    requires m < b.len(), cg(pow(c, b.len()), -1), ensures cg(evp(rot(b, m as int), c), pow(c, m) * evp(b, c)), decreases m,
{
    let n = b.len();
    if m == 0 {
        assert(rot(b, 0) =~= b); lemma_pow0(c);
        assert(1 * evp(b, c) == evp(b, c)); cg_mod(evp(b, c));
    } else {
        let i = (m - 1) as nat;
        lemma_es_rot(b, c, i);
        let v = rot(b, i as int);
        assert(rot(b, m as int) =~= rot1(v));
        lemma_es_rot1(v, c, n);
        let j = (n - 1) as nat;
        assert(j * 1 == j);
        let (e, y, p) = (es(v, 0, 1, c, j), v[j as int], pow(c, j));
        assert(evp(v, c) == e + v[0 + j as int * 1] * p);
        lemma_pow_adds(c, 1, j); lemma_pow1(c);
        assert(c * (e + y * p) == c * e + y * (c * p)) by (nonlinear_arith);
        cg_mul(pow(c, n), -1, y);
        assert(y * -1 == -y);
        cg_mod(c * e);
        cg_add(c * e, c * e, y * pow(c, n), -y);
        lemma_cg(c * evp(v, c), c * e - y);
        cg_mul(evp(v, c), pow(c, i) * evp(b, c), c);
        lemma_pow_adds(c, 1, i);
        let (q, eb) = (pow(c, i), evp(b, c));
        assert(c * (q * eb) == (c * q) * eb) by (nonlinear_arith);
        cg_trans(c * e - y, c * evp(v, c), pow(c, m) * evp(b, c));
    }
}
/// es is linear in the coefficients
pub proof fn lemma_es_add(u: Seq<int>, v: Seq<int>, w: Seq<int>, al: int, c: int, k: nat)
    requires k <= u.len(), forall|i: int| 0 <= i < k ==> #[trigger] w[i] == u[i] + al * v[i],
    ensures es(w, 0, 1, c, k) == es(u, 0, 1, c, k) + al * es(v, 0, 1, c, k), decreases k,
{
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_es_add(u, v, w, al, c, j);
        assert(j * 1 == j);
        let (a, b, p, e) = (u[j as int], v[j as int], pow(c, j), es(v, 0, 1, c, j));
        assert(w[j as int] == a + al * b);
        assert((a + al * b) * p + al * e == a * p + al * (e + b * p)) by (nonlinear_arith);
    } else { assert(al * 0 == 0); }
}
pub open spec fn nvec(a: Seq<int>, b: Seq<int>, m: nat) -> Seq<int> { Seq::new(a.len(), |k: int| nsum(a, b, k, m)) }
pub proof fn lemma_es_prod(a: Seq<int>, b: Seq<int>, c: int, m: nat)
    requires a.len() == b.len(), m <= a.len(), cg(pow(c, b.len()), -1), ensures cg(evp(nvec(a, b, m), c), es(a, 0, 1, c, m) * evp(b, c)), decreases m,
{
    let n = a.len();
    let w = nvec(a, b, m);
    if m == 0 {
        assert forall|i: int| 0 <= i < n implies #[trigger] w[i] == w[i] + -1 * w[i] by {}
        lemma_es_add(w, w, w, -1, c, n);
        assert(evp(w, c) == 0);
        assert(0 * evp(b, c) == 0); cg_mod(0);
    } else {
        let j = (m - 1) as nat;
        lemma_es_prod(a, b, c, j);
        let (u, v, al) = (nvec(a, b, j), rot(b, j as int), a[j as int]);
        assert forall|i: int| 0 <= i < n implies #[trigger] w[i] == u[i] + al * v[i] by {
            if j > i { let y = b[n + i - j]; assert(-(al * y) == al * (-y)) by (nonlinear_arith); }
        }
        lemma_es_add(u, v, w, al, c, n);
        lemma_es_rot(b, c, j);
        cg_mul(evp(v, c), pow(c, j) * evp(b, c), al);
        cg_add(evp(u, c), es(a, 0, 1, c, j) * evp(b, c), al * evp(v, c), al * (pow(c, j) * evp(b, c)));
        assert(j * 1 == j);
        let (p, e, f) = (pow(c, j), es(a, 0, 1, c, j), evp(b, c));
        assert(e * f + al * (p * f) == (e + al * p) * f) by (nonlinear_arith);
    }
}
/// pointwise products of transforms are transforms of negacyclic products
pub proof fn theorem_product(x: int, l: nat, a: Seq<int>, b: Seq<int>)
    requires a.len() == pow2(l), b.len() == a.len(), isres(a), isres(b), isroot(x, pow2(l) as int),
    ensures nttx(x, l, negmul(a, b)) == pmul(nttx(x, l, a), nttx(x, l, b)), isres(negmul(a, b)),
{
    let q = negmul(a, b); let n = a.len();
    axiom_p(); lemma_mod_all();
    assert(isres(q));
    lemma_fwd_res(x, l, l, a); lemma_fwd_res(x, l, l, b); lemma_fwd_res(x, l, l, q);
    assert forall|j: int| 0 <= j < n implies #[trigger] nttx(x, l, q)[j] == pmul(nttx(x, l, a), nttx(x, l, b))[j] by {
        theorem_eval(x, l, a, j); theorem_eval(x, l, b, j); theorem_eval(x, l, q, j);
        let c = pt(x, l, j);
        lemma_es_prod(a, b, c, n);
        let w = nvec(a, b, n);
        lemma_es_res(q, w, c, n);
        let (ea, eb) = (evp(a, c), evp(b, c));
        cg_trans(evp(q, c), evp(w, c), ea * eb);
        lemma_cg(evp(q, c), ea * eb);
        cg_mod(ea); cg_mod(eb);
        cg_mul2(ea % P(), ea, eb % P(), eb);
        lemma_cg((ea % P()) * (eb % P()), ea * eb);
    }
    assert(nttx(x, l, q) =~= pmul(nttx(x, l, a), nttx(x, l, b)));
}
pub proof fn lemma_es_res(q: Seq<int>, w: Seq<int>, c: int, m: nat)
    requires q.len() == w.len(), m <= w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] q[i] == w[i] % P(),
    ensures cg(es(q, 0, 1, c, m), es(w, 0, 1, c, m)), decreases m,
{
    if m > 0 {
        let j = (m - 1) as nat;
        lemma_es_res(q, w, c, j);
        assert(j * 1 == j);
        cg_mod(w[j as int]);
        assert(q[j as int] == w[j as int] % P());
        cg_mul(q[j as int], w[j as int], pow(c, j));
        cg_add(es(q, 0, 1, c, j), es(w, 0, 1, c, j), q[j as int] * pow(c, j), w[j as int] * pow(c, j));
    } else { cg_mod(0); }
}
pub proof fn lemma_guard(v: int)
    ensures cg(v, v - 2 * P()), cg(v - 2 * P(), v), 0 <= v < P() ==> v % P() == v, P() <= v < 2 * P() ==> v % P() == v - P(), 2 * P() <= v < 3 * P() ==> v % P() == v - 2 * P(), 3 * P() <= v < 4 * P() ==> v % P() == v - 3 * P(), cg(v, v),
{
    axiom_p();
    lemma_mod_multiples_vanish(2, 0, P()); lemma_small_mod(0, P() as nat);
    cg_mod(v); lemma_cg(v, v - 2 * P());
    if 0 <= v < P() { lemma_small_mod(v as nat, P() as nat); }
    if P() <= v < 2 * P() { lemma_fundamental_div_mod_converse(v, P(), 1, v - P()); }
    if 2 * P() <= v < 3 * P() { lemma_fundamental_div_mod_converse(v, P(), 2, v - 2 * P()); }
    if 3 * P() <= v < 4 * P() { lemma_fundamental_div_mod_converse(v, P(), 3, v - 3 * P()); }
}
// ---- monomials ---------------------------------------------------------------------------------
/// X^n is -1: after q turns the sign is (-1)^q
pub open spec fn sgn(q: int, v: int) -> int { if q % 2 == 0 { v } else { -v } }
pub proof fn lemma_rp_turn(x: int, n: int, e: int, q: nat)
    requires n > 0, e >= 0, isroot(x, n),
    ensures cg(rp(x, e + n * q), sgn(q as int, rp(x, e))), decreases q,
{
    if q == 0 { assert(n * 0 == 0); cg_mod(rp(x, e)); }
    else {
        let k = (q - 1) as nat;
        lemma_rp_turn(x, n, e, k);
        assert(n * q == n * k + n) by (nonlinear_arith) requires q == k + 1;
        assert(n * k >= 0) by (nonlinear_arith) requires n > 0, k >= 0;
        lemma_rp_n(x, n, e + n * k);
        cg_mul(rp(x, e + n * k), sgn(k as int, rp(x, e)), -1);
        let a = rp(x, e + n * k); let b = sgn(k as int, rp(x, e));
        assert(a * -1 == -a && b * -1 == -b);
        cg_trans(rp(x, e + n * q), -a, sgn(q as int, rp(x, e)));
    }
}
/// the coefficients of c X^d modulo X^n + 1
pub open spec fn monov(n: nat, c: int, d: int) -> Seq<int> { Seq::new(n, |i: int| if i == d % (n as int) { sgn(d / (n as int), c) % P() } else { 0 }) }
/// its values at the odd powers of the root, in the order of the transform
pub open spec fn monon(x: int, l: nat, c: int, d: int) -> Seq<int> { Seq::new(pow2(l), |j: int| (c * rp(x, (2 * rev(l, j) + 1) * d)) % P()) }
pub proof fn lemma_es_one(a: Seq<int>, c: int, k: int, m: nat)
    requires m <= a.len(), 0 <= k < a.len(), forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] a[i] == 0,
    ensures es(a, 0, 1, c, m) == if k < m { a[k] * pow(c, k as nat) } else { 0 }, decreases m,
{
    if m > 0 {
        lemma_es_one(a, c, k, (m - 1) as nat);
        let i = m - 1;
        assert(0 + i * 1 == i);
        if i != k { assert(a[i] * pow(c, i as nat) == 0) by (nonlinear_arith) requires a[i] == 0; }
    }
}
pub proof fn theorem_mono(x: int, l: nat, c: int, d: int)
    requires isroot(x, pow2(l) as int), d >= 0,
    ensures monon(x, l, c, d) == nttx(x, l, monov(pow2(l), c, d)), isres(monov(pow2(l), c, d)), monov(pow2(l), c, d).len() == pow2(l),
{
    let n = pow2(l) as int; let a = monov(pow2(l), c, d);
    lemma_p2(l); lemma_mod_all();
    let (q, k) = (d / n, d % n);
    lemma_fundamental_div_mod(d, n); lemma_mod_bound(d, n); lemma_div_pos_is_pos(d, n);
    assert(isres(a)) by { axiom_p(); assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < P() by { cg_mod(sgn(d / n, c)); } }
    lemma_fwd_len(x, l, l, a);
    assert forall|j: int| 0 <= j < n implies #[trigger] nttx(x, l, a)[j] == monon(x, l, c, d)[j] by {
        theorem_eval(x, l, a, j);
        lemma_rev_bound(l, j);
        let o = 2 * rev(l, j) + 1;
        let p = pt(x, l, j);
        lemma_es_one(a, p, k, pow2(l));
        // p^k = x^(o k)
        lemma_pow_multiplies(x, o as nat, k as nat);
        assert(o * k >= 0) by (nonlinear_arith) requires o >= 0, k >= 0;
        lemma_rp(x, o * k, 0);
        let w = rp(x, o * k);
        // o d = o k + n (o q)
        assert(o * q >= 0) by (nonlinear_arith) requires o >= 0, q >= 0;
        assert(o * d == o * k + n * (o * q)) by (nonlinear_arith) requires d == n * q + k;
        lemma_rp_turn(x, n, o * k, (o * q) as nat);
        assert((o * q) % 2 == q % 2) by { assert(o * q == 2 * (rev(l, j) * q) + q) by (nonlinear_arith) requires o == 2 * rev(l, j) + 1; }
        let r = rp(x, o * d);
        cg_mul(r, sgn(q, w), c);
        let s = sgn(q, c);
        assert(c * sgn(q, w) == s * w) by { assert(c * (-w) == (-c) * w) by (nonlinear_arith); }
        // a[k] p^k
        cg_mod(s); cg_mod(pow(p, k as nat));
        lemma_cg(w, pow(p, k as nat));
        cg_mul2(s % P(), s, pow(p, k as nat), w);
        lemma_cg(a[k] * pow(p, k as nat), s * w);
        lemma_cg(c * r, s * w);
    }
    assert(monon(x, l, c, d) =~= nttx(x, l, a));
}
pub proof fn lemma_rev0(l: nat) ensures rev(l, 0) == 0, rev(0, 0) == 0 decreases l
{ if l > 0 { lemma_rev0((l - 1) as nat); assert((0int % 2) * pow2((l - 1) as nat) == 0); } }
/// the largest index stays
pub proof fn lemma_rev_last(l: nat) ensures rev(l, pow2(l) - 1) == pow2(l) - 1 decreases l
{
    lemma_p2(0);
    if l > 0 { let m = (l - 1) as nat; lemma_rev_last(m); lemma_p2(m); lemma_rev_top(m, pow2(m) - 1); }
}
pub proof fn lemma_rev_inj(l: nat, a: int, b: int)
    requires 0 <= a < pow2(l), 0 <= b < pow2(l),
    ensures rev(l, a) == rev(l, b) ==> a == b, 0 <= rev(l, a) < pow2(l), rev(l, rev(l, a)) == a, a < pow2(l) - 1 ==> rev(l, a) < pow2(l) - 1,
{ lemma_rev_inv(l, a); lemma_rev_inv(l, b); lemma_rev_bound(l, a); lemma_rev_last(l); lemma_rev_inv(l, pow2(l) - 1); }
