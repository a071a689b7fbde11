// ---- Barrett mathematics (pure integers) --------------------------------------------------
pub open spec fn bratio(b: int, m: int, r0: int, r1: int) -> bool {
    2 <= m && 4 * m < b && 0 <= r0 < b && 0 <= r1 < b && r0 + r1 * b == (b * b) / m
}
/// floor(x*R / b^2) is the quotient or one less
proof fn lemma_q(b: int, m: int, rr: int, x: int)
    requires b >= 4, 2 <= m, rr == (b * b) / m, 0 <= x < b * b,
    ensures 0 <= x - ((x * rr) / (b * b)) * m < 2 * m, 0 <= (x * rr) / (b * b),
{
    let bb = b * b;
    let q = (x * rr) / bb;
    assert(bb > 0) by (nonlinear_arith) requires b >= 4, bb == b * b;
    lemma_fundamental_div_mod(bb, m);
    lemma_mod_bound(bb, m);
    assert(rr * m <= bb && rr * m > bb - m) by { assert(bb == m * rr + bb % m); assert(m * rr == rr * m) by (nonlinear_arith); }
    assert(rr >= 0) by { lemma_div_pos_is_pos(bb, m); }
    assert(x * rr >= 0) by (nonlinear_arith) requires x >= 0, rr >= 0;
    lemma_fundamental_div_mod(x * rr, bb);
    lemma_mod_bound(x * rr, bb);
    lemma_div_pos_is_pos(x * rr, bb);
    let s = (x * rr) % bb;
    assert(x * rr == bb * q + s);
    // q*m <= x
    assert(bb * q * m <= x * bb) by (nonlinear_arith) requires x * rr == bb * q + s, s >= 0, rr * m <= bb, x >= 0, m >= 2;
    assert(q * m <= x) by (nonlinear_arith) requires bb * q * m <= x * bb, bb > 0;
    // x - q m < 2 m
    assert((x - q * m) * bb < 2 * m * bb) by (nonlinear_arith)
        requires x * rr == bb * q + s, s < bb, rr * m > bb - m, 0 <= x < bb, m >= 2;
    assert(x - q * m < 2 * m) by (nonlinear_arith) requires (x - q * m) * bb < 2 * m * bb, bb > 0;
}
proof fn lemma_div_add(a: int, c: int, b: int)
    requires b > 0,
    ensures (a * b + c) / b == a + c / b,
{
    lemma_hoist_over_denominator(c, a, b as nat);
    assert(a * b == b * a) by (nonlinear_arith);
}
proof fn lemma_sum_ratio(b: int, m: int, r0: int, r1: int)
    requires bratio(b, m, r0, r1),
    ensures r0 + r1 <= b - 1,
{
    // b = r1*m + s
    lemma_div_denominator(b * b, m, b);
    lemma_div_denominator(b * b, b, m);
    assert(m * b == b * m) by (nonlinear_arith);
    lemma_div_multiples_vanish(b, b);
    assert((b * b) / b == b);
    assert((r0 + r1 * b) / b == r1) by { lemma_div_add(r1, r0, b); lemma_basic_div(r0, b); assert(r0 + r1 * b == r1 * b + r0); }
    assert(b / m == r1);
    lemma_fundamental_div_mod(b, m);
    lemma_mod_bound(b, m);
    let s = b % m;
    assert(b == m * r1 + s);
    lemma_fundamental_div_mod(b * b, m);
    lemma_mod_bound(b * b, m);
    assert(b * b == m * (r0 + r1 * b) + (b * b) % m);
    assert(m * r0 <= s * b) by (nonlinear_arith) requires b * b == m * (r0 + r1 * b) + (b * b) % m, (b * b) % m >= 0, b == m * r1 + s;
    if s == 0 {
        assert(r0 == 0) by (nonlinear_arith) requires m * r0 <= s * b, s == 0, m >= 2, r0 >= 0;
        assert(r1 < b) ;
    } else {
        assert((r0 + r1) * m < b * m) by (nonlinear_arith) requires m * r0 <= s * b, b == m * r1 + s, 1 <= s, s < m, b >= 4 * m, m >= 2;
        assert(r0 + r1 < b) by (nonlinear_arith) requires (r0 + r1) * m < b * m, m >= 2;
    }
}
/// one-word reduction
pub open spec fn q1(b: int, r0: int, r1: int, x: int) -> int { (x * r1 + (x * r0) / b) / b }
proof fn lemma_lazy1(b: int, m: int, r0: int, r1: int, x: int)
    requires bratio(b, m, r0, r1), 0 <= x < b,
    ensures 0 <= x - q1(b, r0, r1, x) * m < 2 * m, 0 <= q1(b, r0, r1, x) < b, 0 <= q1(b, r0, r1, x) * m < b, 0 <= (x * r0) / b < b,
        q1(b, r0, r1, x) * m <= x,
        (q1(b, r0, r1, x) * m) % b == q1(b, r0, r1, x) * m,
{
    let rr = r0 + r1 * b;
    assert(x < b * b) by (nonlinear_arith) requires 0 <= x < b, b >= 4;
    lemma_q(b, m, rr, x);
    assert(x * rr == (x * r1) * b + x * r0) by (nonlinear_arith) requires rr == r0 + r1 * b;
    lemma_div_denominator(x * rr, b, b);
    assert(x * rr >= 0) by (nonlinear_arith) requires x >= 0, r0 >= 0, r1 >= 0, b >= 0, rr == r0 + r1 * b;
    lemma_div_add(x * r1, x * r0, b);
    let q = q1(b, r0, r1, x);
    assert(q == (x * rr) / (b * b));
    assert(q * m >= 0) by (nonlinear_arith) requires q >= 0, m >= 2;
    assert(q * m <= x);
    assert(q < b) by (nonlinear_arith) requires q * m <= x, x < b, m >= 2, q >= 0;
    assert(0 <= x * r0 < b * b) by (nonlinear_arith) requires 0 <= x < b, 0 <= r0 < b;
    lemma_div_pos_is_pos(x * r0, b);
    lemma_div_is_strictly_smaller_bb(x * r0, b);
    lemma_small_mod((q * m) as nat, b as nat);
}
proof fn lemma_div_is_strictly_smaller_bb(x: int, b: int)
    requires 0 <= x < b * b, b > 0,
    ensures 0 <= x / b < b,
{
    lemma_div_pos_is_pos(x, b);
    lemma_fundamental_div_mod(x, b);
    lemma_mod_bound(x, b);
    assert(x / b < b) by (nonlinear_arith) requires x == b * (x / b) + x % b, x % b >= 0, x < b * b, b > 0;
}
/// a congruence: x = y + k*b implies equal residues
proof fn lemma_mod_shift(x: int, y: int, k: int, b: int)
    requires b > 0, x == y + k * b,
    ensures x % b == y % b,
{
    lemma_mod_multiples_vanish(k, y, b);
    assert(k * b == b * k) by (nonlinear_arith);
}
proof fn lemma_prod2(v0: int, v1: int, r0: int, r1: int, b: int)
    ensures (v0 + v1 * b) * (r0 + r1 * b) == ((v1 * r1) * b + (v0 * r1 + v1 * r0)) * b + v0 * r0,
{
    let y = r0 + r1 * b;
    assert((v0 + v1 * b) * y == v0 * y + (v1 * b) * y) by (nonlinear_arith);
    assert(v0 * y == v0 * r0 + (v0 * r1) * b) by (nonlinear_arith) requires y == r0 + r1 * b;
    assert((v1 * b) * y == (v1 * r0) * b + ((v1 * r1) * b) * b) by (nonlinear_arith) requires y == r0 + r1 * b;
    let p = (v1 * r1) * b; let q = v0 * r1; let s = v1 * r0;
    assert((p + (q + s)) * b == p * b + q * b + s * b) by (nonlinear_arith);
}
/// canonical residue of a lazy one
proof fn lemma_canon(m: int)
    requires m > 0,
    ensures forall|r: int| #![trigger r % m] 0 <= r < 2 * m ==> r % m == (if r >= m { r - m } else { r }),
{
    assert forall|r: int| #![trigger r % m] 0 <= r < 2 * m implies r % m == (if r >= m { r - m } else { r }) by {
        if r >= m { lemma_mod_shift(r, r - m, 1, m); lemma_small_mod((r - m) as nat, m as nat); } else { lemma_small_mod(r as nat, m as nat); }
    }
}
/// two-word reduction: everything the code computes, as integers
proof fn lemma_lazy2(b: int, m: int, r0: int, r1: int, v0: int, v1: int)
    requires bratio(b, m, r0, r1), 0 <= v0 < b, 0 <= v1 < b,
    ensures ({
        let ah = (v0 * r0) / b;
        let b0 = (v0 * r1 + ah) % b;
        let b1 = (v0 * r1 + ah) / b;
        let c0 = (v1 * r0) % b;
        let c1 = (v1 * r0) / b;
        let carry: int = if b0 + c0 >= b { 1 } else { 0 };
        let d = (v1 * r1) % b;
        let q = (d + b1 + c1 + carry) % b;
        let x = v0 + v1 * b;
        let t = (q * m) % b;
        let r = if v0 >= t { v0 - t } else { v0 - t + b };
        &&& 0 <= ah < b && 0 <= b1 && 0 <= c1 && b1 + c1 + carry < b
        &&& 0 <= q < b && 0 <= t < b
        &&& 0 <= r < 2 * m
        &&& r % m == x % m
        &&& r == x - m * ((x * (r0 + r1 * b)) / (b * b))
    }),
{
    let rr = r0 + r1 * b;
    let x = v0 + v1 * b;
    let ah = (v0 * r0) / b;
    let bv = v0 * r1 + ah;
    let b0 = bv % b;
    let b1 = bv / b;
    let cv = v1 * r0;
    let c0 = cv % b;
    let c1 = cv / b;
    let carry: int = if b0 + c0 >= b { 1 } else { 0 };
    let d = (v1 * r1) % b;
    let qs = d + b1 + c1 + carry;
    let q = qs % b;
    let fq = (x * rr) / (b * b);
    assert(0 <= x < b * b) by (nonlinear_arith) requires x == v0 + v1 * b, 0 <= v0 < b, 0 <= v1 < b;
    lemma_q(b, m, rr, x);
    assert(0 <= v0 * r0 < b * b) by (nonlinear_arith) requires 0 <= v0 < b, 0 <= r0 < b;
    lemma_div_is_strictly_smaller_bb(v0 * r0, b);
    lemma_fundamental_div_mod(v0 * r0, b);
    lemma_mod_bound(v0 * r0, b);
    assert(0 <= v0 * r1) by (nonlinear_arith) requires 0 <= v0, 0 <= r1;
    assert(0 <= v1 * r0) by (nonlinear_arith) requires 0 <= v1, 0 <= r0;
    assert(0 <= v1 * r1) by (nonlinear_arith) requires 0 <= v1, 0 <= r1;
    lemma_fundamental_div_mod(bv, b);
    lemma_mod_bound(bv, b);
    lemma_fundamental_div_mod(cv, b);
    lemma_mod_bound(cv, b);
    lemma_div_pos_is_pos(bv, b);
    lemma_div_pos_is_pos(cv, b);
    // (bv + cv)/b == b1 + c1 + carry
    assert(bv + cv == (b1 + c1) * b + (b0 + c0)) by (nonlinear_arith) requires bv == b * b1 + b0, cv == b * c1 + c0;
    lemma_div_add(b1 + c1, b0 + c0, b);
    assert((b0 + c0) / b == carry) by {
        if carry == 1 { lemma_div_add(1, b0 + c0 - b, b); lemma_basic_div(b0 + c0 - b, b); assert(1 * b + (b0 + c0 - b) == b0 + c0); } else { lemma_basic_div(b0 + c0, b); }
    }
    assert((bv + cv) / b == b1 + c1 + carry);
    // no overflow of the high sum
    lemma_sum_ratio(b, m, r0, r1);
    assert(ah <= b - 1);
    assert(bv + cv <= (b - 1) * (b - 1) + (b - 1)) by (nonlinear_arith)
        requires bv == v0 * r1 + ah, cv == v1 * r0, ah <= b - 1, 0 <= v0 <= b - 1, 0 <= v1 <= b - 1, 0 <= r0, 0 <= r1, r0 + r1 <= b - 1;
    assert((b - 1) * (b - 1) + (b - 1) == b * b - b) by (nonlinear_arith);
    assert(bv + cv < b * b);
    lemma_div_is_strictly_smaller_bb(bv + cv, b);
    // full quotient
    lemma_prod2(v0, v1, r0, r1, b);
    assert(x * rr >= 0) by (nonlinear_arith) requires x >= 0, r0 >= 0, r1 >= 0, b >= 0, rr == r0 + r1 * b;
    lemma_div_denominator(x * rr, b, b);
    lemma_div_add((v1 * r1) * b + (v0 * r1 + v1 * r0), v0 * r0, b);
    assert((x * rr) / b == (v1 * r1) * b + (bv + cv));
    lemma_div_add(v1 * r1, bv + cv, b);
    assert(fq == v1 * r1 + (b1 + c1 + carry));
    // q == fq mod b
    lemma_fundamental_div_mod(v1 * r1, b);
    lemma_fundamental_div_mod(qs, b);
    lemma_mod_bound(qs, b);
    lemma_mod_bound(v1 * r1, b);
    let k1 = (v1 * r1) / b;
    let k2 = qs / b;
    assert(fq == q + (k1 + k2) * b) by (nonlinear_arith) requires fq == v1 * r1 + (b1 + c1 + carry), v1 * r1 == b * k1 + d, qs == d + b1 + c1 + carry, qs == b * k2 + q;
    let t = (q * m) % b;
    lemma_fundamental_div_mod(q * m, b);
    lemma_mod_bound(q * m, b);
    let k3 = (q * m) / b;
    let r = if v0 >= t { v0 - t } else { v0 - t + b };
    let e: int = if v0 >= t { 0 } else { 1 };
    let full = x - fq * m;
    // r - full is a multiple of b, both in [0,b)
    let kk = v1 - (k1 + k2) * m - k3 - e;
    if v0 >= t { assert(e == 0); assert(0 * b == 0); assert(e * b == 0); } else { assert(e == 1); assert(1 * b == b); assert(e * b == b); }
    assert(b * k3 == k3 * b) by (nonlinear_arith);
    assert(full == r + kk * b) by (nonlinear_arith)
        requires full == x - fq * m, x == v0 + v1 * b, fq == q + (k1 + k2) * b, q * m == b * k3 + t, r == v0 - t + e * b, kk == v1 - (k1 + k2) * m - k3 - e;
    assert(0 <= r < b);
    assert(0 <= full < b);
    assert(kk == 0) by (nonlinear_arith) requires full == r + kk * b, 0 <= r < b, 0 <= full < b;
    assert(r == full);
    assert(fq * m == m * fq) by (nonlinear_arith);
    lemma_mod_shift(x, r, fq, m);
}

proof fn lemma_mod_comb(x: int, b: int, p: int, q: int, m: int)
    requires m > 0, p % m == q % m,
    ensures (x + p * b) % m == (x + b * q) % m,
{
    lemma_mul_mod_noop(p, b, m); lemma_mul_mod_noop(q, b, m);
    assert((p * b) % m == (q * b) % m);
    lemma_add_mod_noop(x, p * b, m); lemma_add_mod_noop(x, q * b, m);
    assert(q * b == b * q) by (nonlinear_arith);
}
/// two digits of a long division by d, radix b
proof fn lemma_two_digits(b: int, r0: int, d: int, hi: int, r1: int, lo: int, r2: int)
    requires d > 0, b > 0, 0 <= r0 < d, hi == (r0 * b) / d, r1 == (r0 * b) % d, lo == (r1 * b) / d, r2 == (r1 * b) % d,
    ensures (r0 * (b * b)) / d == hi * b + lo, (r0 * (b * b)) % d == r2, 0 <= hi < b, 0 <= lo < b, 0 <= r1 < d, 0 <= r2 < d,
{
    lemma_digit(b, r0, d);
    lemma_mod_bound(r0 * b, d);
    lemma_digit(b, r1, d);
    lemma_mod_bound(r1 * b, d);
    lemma_fundamental_div_mod(r0 * b, d);
    lemma_fundamental_div_mod(r1 * b, d);
    let x = r0 * (b * b);
    assert(x == (r0 * b) * b) by (nonlinear_arith) requires x == r0 * (b * b);
    assert((d * hi + r1) * b == d * (hi * b) + r1 * b) by (nonlinear_arith);
    assert(d * (hi * b) + d * lo == (hi * b + lo) * d) by (nonlinear_arith);
    assert(x == (hi * b + lo) * d + r2);
    lemma_fundamental_div_mod_converse(x, d, hi * b + lo, r2);
}
proof fn lemma_digit(b: int, r: int, d: int)
    requires d > 0, b > 0, 0 <= r < d,
    ensures 0 <= (r * b) / d < b,
{
    assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b > 0;
    assert(r * b < d * b) by (nonlinear_arith) requires r < d, b > 0;
    lemma_div_pos_is_pos(r * b, d);
    lemma_fundamental_div_mod(r * b, d);
    lemma_mod_bound(r * b, d);
    let q = (r * b) / d;
    assert(q < b) by (nonlinear_arith) requires d * q <= r * b, r * b < d * b, d > 0;
}
proof fn lemma_bratio(b: int, m: int, q1: int, r1: int, q0: int)
    requires b >= 4, 2 <= m, 4 * m < b, q1 == (1 * b) / m, r1 == (1 * b) % m, q0 == (r1 * b) / m,
    ensures bratio(b, m, q0, q1),
{
    lemma_two_digits(b, 1, m, q1, r1, q0, (r1 * b) % m);
    assert(1 * (b * b) == b * b);
}
