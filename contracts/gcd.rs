// ---- gcd ---------------------------------------------------------------------------------
pub open spec fn cdiv(d: int, a: int, b: int) -> bool { d > 0 && a % d == 0 && b % d == 0 }
/// g is the greatest common divisor: it divides both and every common divisor divides it
pub open spec fn isgcd(g: int, a: int, b: int) -> bool { cdiv(g, a, b) && forall|d: int| #[trigger] cdiv(d, a, b) ==> g % d == 0 }
proof fn lemma_dvd(a: int, d: int, k: int) requires d > 0, a == d * k, ensures a % d == 0, a / d == k
{ assert(k * d == d * k) by (nonlinear_arith); lemma_fundamental_div_mod_converse(a, d, k, 0); }
proof fn lemma_dvd_k(a: int, d: int) requires d > 0, a % d == 0, ensures a == d * (a / d) { lemma_fundamental_div_mod(a, d); }
proof fn lemma_dvd_lin(a: int, b: int, x: int, y: int, d: int)
    requires d > 0, a % d == 0, b % d == 0, ensures (x * a + y * b) % d == 0
{
    lemma_dvd_k(a, d); lemma_dvd_k(b, d);
    let p = a / d; let q = b / d;
    assert(x * (d * p) + y * (d * q) == d * (x * p + y * q)) by (nonlinear_arith);
    lemma_dvd(x * a + y * b, d, x * p + y * q);
}
proof fn lemma_dvd_half(m: int, d: int)
    requires d > 0, d % 2 == 1, (2 * m) % d == 0, ensures m % d == 0
{
    lemma_dvd_k(2 * m, d);
    let k = (2 * m) / d;
    if k % 2 == 1 { let e = d / 2; let f = k / 2; assert((2 * e + 1) * (2 * f + 1) == 2 * (2 * (e * f) + e + f) + 1) by (nonlinear_arith); assert(false); }
    let f = k / 2;
    assert(d * (2 * f) == 2 * (d * f)) by (nonlinear_arith);
    lemma_dvd(m, d, f);
}
proof fn lemma_odd_div(n: int, d: int) requires d > 0, n % 2 == 1, n % d == 0, ensures d % 2 == 1
{
    lemma_dvd_k(n, d);
    let k = n / d;
    if d % 2 == 0 { let e = d / 2; assert((2 * e) * k == 2 * (e * k)) by (nonlinear_arith); assert(false); }
}
/// removing a factor two when the other operand is odd
proof fn lemma_gcd_half(g: int, m: int, n: int)
    requires isgcd(g, m, n), n % 2 == 1, ensures isgcd(g, 2 * m, n)
{
    lemma_dvd_lin(m, n, 2, 0, g);
    assert(2 * m + 0 * n == 2 * m);
    assert forall|d: int| #[trigger] cdiv(d, 2 * m, n) implies g % d == 0 by { lemma_odd_div(n, d); lemma_dvd_half(m, d); assert(cdiv(d, m, n)); }
}
proof fn lemma_gcd_sym(g: int, m: int, n: int) requires isgcd(g, m, n), ensures isgcd(g, n, m)
{ assert forall|d: int| #[trigger] cdiv(d, n, m) implies g % d == 0 by { assert(cdiv(d, m, n)); } }
proof fn lemma_gcd_sub(g: int, m: int, n: int) requires isgcd(g, m - n, n), ensures isgcd(g, m, n)
{
    lemma_dvd_lin(m - n, n, 1, 1, g);
    assert(1 * (m - n) + 1 * n == m);
    assert forall|d: int| #[trigger] cdiv(d, m, n) implies g % d == 0 by { lemma_dvd_lin(m, n, 1, -1, d); assert(1 * m + (-1) * n == m - n); assert(cdiv(d, m - n, n)); }
}
proof fn lemma_gcd_double(g: int, m: int, n: int) requires isgcd(g, m, n), ensures isgcd(2 * g, 2 * m, 2 * n)
{
    lemma_dvd_k(m, g); lemma_dvd_k(n, g);
    assert(2 * (g * (m / g)) == (2 * g) * (m / g)) by (nonlinear_arith);
    assert(2 * (g * (n / g)) == (2 * g) * (n / g)) by (nonlinear_arith);
    lemma_dvd(2 * m, 2 * g, m / g); lemma_dvd(2 * n, 2 * g, n / g);
    assert forall|d: int| #[trigger] cdiv(d, 2 * m, 2 * n) implies (2 * g) % d == 0 by {
        if d % 2 == 0 {
            let e = d / 2;
            lemma_dvd_k(2 * m, d); lemma_dvd_k(2 * n, d);
            let p = (2 * m) / d; let q = (2 * n) / d;
            assert((2 * e) * p == 2 * (e * p)) by (nonlinear_arith);
            assert((2 * e) * q == 2 * (e * q)) by (nonlinear_arith);
            lemma_dvd(m, e, p); lemma_dvd(n, e, q);
            assert(cdiv(e, m, n));
            lemma_dvd_k(g, e);
            let r = g / e;
            assert(2 * (e * r) == (2 * e) * r) by (nonlinear_arith);
            lemma_dvd(2 * g, d, r);
        } else {
            lemma_dvd_half(m, d); lemma_dvd_half(n, d);
            assert(cdiv(d, m, n));
            lemma_dvd_lin(g, g, 2, 0, d);
            assert(2 * g + 0 * g == 2 * g);
        }
    }
}
proof fn lemma_gcd_shift(g: int, m: int, n: int, k: nat)
    requires isgcd(g, m, n), ensures isgcd(g * pow2(k), m * pow2(k), n * pow2(k)), decreases k
{
    lemma_pow2_step(0);
    if k == 0 { assert(pow2(k) == 1); assert(g * pow2(k) == g && m * pow2(k) == m && n * pow2(k) == n); }
    if k > 0 {
        lemma_gcd_shift(g, m, n, (k - 1) as nat);
        lemma_pow2_step((k - 1) as nat);
        let p = pow2((k - 1) as nat) as int;
        lemma_gcd_double(g * p, m * p, n * p);
        assert(2 * (g * p) == g * (2 * p)) by (nonlinear_arith);
        assert(2 * (m * p) == m * (2 * p)) by (nonlinear_arith);
        assert(2 * (n * p) == n * (2 * p)) by (nonlinear_arith);
    }
}
proof fn lemma_gcd_odd(g: int, m: int, n: int, k: nat)
    requires isgcd(g, m, n), n % 2 == 1, ensures isgcd(g, m * pow2(k), n), decreases k
{
    lemma_pow2_step(0);
    if k == 0 { assert(pow2(k) == 1); assert(m * 1 == m); }
    if k > 0 {
        lemma_gcd_odd(g, m, n, (k - 1) as nat);
        lemma_pow2_step((k - 1) as nat);
        let p = pow2((k - 1) as nat) as int;
        lemma_gcd_half(g, m * p, n);
        assert(2 * (m * p) == m * (2 * p)) by (nonlinear_arith);
    }
}
/// odd parts m, n with exponents s <= t
proof fn lemma_gcd_parts(g: int, m: int, n: int, s: nat, t: nat)
    requires isgcd(g, m, n), n % 2 == 1, m % 2 == 1, s <= t, ensures isgcd(g * pow2(s), m * pow2(t), n * pow2(s)), isgcd(g * pow2(s), n * pow2(s), m * pow2(t))
{
    let e = (t - s) as nat;
    lemma_gcd_odd(g, m, n, e);
    lemma_gcd_shift(g, m * pow2(e), n, s);
    lemma_pow2_adds(e, s);
    let x = pow2(e) as int; let y = pow2(s) as int;
    assert((m * x) * y == m * (x * y)) by (nonlinear_arith);
    assert(g * pow2(s) == g * y && n * pow2(s) == n * y);
    lemma_gcd_sym(g * pow2(s), m * pow2(t), n * pow2(s));
}
proof fn lemma_gcd_self(m: int) requires m > 0, ensures isgcd(m, m, m), isgcd(m, 0, m), isgcd(m, m, 0)
{ lemma_dvd(m, m, 1); lemma_dvd(0, m, 0); }
proof fn lemma_gcd_le(g: int, a: int, b: int) requires isgcd(g, a, b), a > 0, ensures 0 < g <= a
{ lemma_dvd_k(a, g); let k = a / g; assert(g <= a) by (nonlinear_arith) requires a == g * k, a > 0, g > 0; }
proof fn lemma_gcd_unique(g: int, h: int, a: int, b: int) requires isgcd(g, a, b), isgcd(h, a, b), ensures g == h
{
    assert(cdiv(g, a, b) && cdiv(h, a, b));
    lemma_dvd_k(g, h); lemma_dvd_k(h, g);
    let p = g / h; let q = h / g;
    assert(g <= h) by (nonlinear_arith) requires h == g * q, h > 0, g > 0;
    assert(h <= g) by (nonlinear_arith) requires g == h * p, h > 0, g > 0;
}
// ---- the halving step of the binary extended algorithm -----------------------------------------
proof fn lemma_par(a: int, b: int, x: int, y: int, u: int)
    requires a * x + b * y == 2 * u, x % 2 == 1 || y % 2 == 1,
    ensures (a % 2 == 0 && b % 2 == 0) || ((a + y) % 2 == 0 && (b + x) % 2 == 0 && (a - y) % 2 == 0 && (b - x) % 2 == 0)
{
    let (a1, a0, b1, b0, x1, x0, y1, y0) = (a / 2, a % 2, b / 2, b % 2, x / 2, x % 2, y / 2, y % 2);
    assert((2 * a1 + a0) * (2 * x1 + x0) == 2 * (2 * (a1 * x1) + a1 * x0 + a0 * x1) + a0 * x0) by (nonlinear_arith);
    assert((2 * b1 + b0) * (2 * y1 + y0) == 2 * (2 * (b1 * y1) + b1 * y0 + b0 * y1) + b0 * y0) by (nonlinear_arith);
    assert((a0 * x0 + b0 * y0) % 2 == 0);
    assert(a0 * x0 == (if a0 == 0 || x0 == 0 { 0int } else { 1 })) by (nonlinear_arith) requires a0 == 0 || a0 == 1, x0 == 0 || x0 == 1;
    assert(b0 * y0 == (if b0 == 0 || y0 == 0 { 0int } else { 1 })) by (nonlinear_arith) requires b0 == 0 || b0 == 1, y0 == 0 || y0 == 1;
}
/// (a, b) -> (a2, b2) with a2*x + b2*y == u where a*x + b*y == 2u
proof fn lemma_halve(a: int, b: int, x: int, y: int, u: int)
    requires a * x + b * y == 2 * u, x % 2 == 1 || y % 2 == 1, x > 0, y > 0, 0 <= u, 2 * u <= x || 2 * u <= y, -2 * x <= b <= 2 * x, -2 * y <= a <= 2 * y,
    ensures
        (a % 2 == 0 && b % 2 == 0) ==> (a / 2) * x + (b / 2) * y == u && -y <= a / 2 <= y && -x <= b / 2 <= x,
        !(a % 2 == 0 && b % 2 == 0) && b > x ==> (a + y) % 2 == 0 && (b - x) % 2 == 0 && ((a + y) / 2) * x + ((b - x) / 2) * y == u && -y <= (a + y) / 2 <= y && -x <= (b - x) / 2 <= x && -2 * y <= a + y <= 2 * y,
        !(a % 2 == 0 && b % 2 == 0) && b <= x ==> (a - y) % 2 == 0 && (b + x) % 2 == 0 && ((a - y) / 2) * x + ((b + x) / 2) * y == u && -y <= (a - y) / 2 <= y && -x <= (b + x) / 2 <= x && -2 * y <= a - y <= 2 * y && -2 * x <= b + x <= 2 * x,
{
    lemma_par(a, b, x, y, u);
    if a % 2 == 0 && b % 2 == 0 {
        let p = a / 2; let q = b / 2;
        assert((2 * p) * x + (2 * q) * y == 2 * (p * x + q * y)) by (nonlinear_arith);
    } else if b > x {
        let p = (a + y) / 2; let q = (b - x) / 2;
        assert((2 * p - y) * x + (2 * q + x) * y == 2 * (p * x + q * y)) by (nonlinear_arith);
        assert(a <= y) by (nonlinear_arith) requires a * x + b * y == 2 * u, b >= x + 1, 2 * u <= x || 2 * u <= y, x > 0, y > 0;
    } else {
        let p = (a - y) / 2; let q = (b + x) / 2;
        assert((2 * p + y) * x + (2 * q - x) * y == 2 * (p * x + q * y)) by (nonlinear_arith);
        assert(a >= -y) by (nonlinear_arith) requires a * x + b * y == 2 * u, b <= x, 0 <= u, x > 0, y > 0;
    }
}
proof fn lemma_diff(a: int, b: int, c: int, d: int, x: int, y: int, u: int, v: int)
    requires a * x + b * y == u, c * x + d * y == v, ensures (a - c) * x + (b - d) * y == u - v
{ assert((a - c) * x + (b - d) * y == (a * x + b * y) - (c * x + d * y)) by (nonlinear_arith); }

/// the two subtraction steps, and the exit
proof fn lemma_xstep(a: int, b: int, c: int, d: int, x: int, y: int, u: int, v: int, s: nat, g0: int, g1: int)
    requires a * x + b * y == u, c * x + d * y == v, 0 < u, 0 < v, x > 0, y > 0, g0 == x * pow2(s), g1 == y * pow2(s),
        forall|k: int| #[trigger] isgcd(k, u, v) ==> isgcd(k, x, y),
    ensures (a - c) * x + (b - d) * y == u - v, (c - a) * x + (d - b) * y == v - u,
        forall|k: int| #[trigger] isgcd(k, u - v, v) ==> isgcd(k, x, y), forall|k: int| #[trigger] isgcd(k, u, v - u) ==> isgcd(k, x, y),
        u == v ==> 0 < pow2(s) * v <= g0 && isgcd(pow2(s) * v, g0, g1) && c * g0 + d * g1 == pow2(s) * v,
{
    lemma_diff(a, b, c, d, x, y, u, v); lemma_diff(c, d, a, b, x, y, v, u);
    assert forall|k: int| #[trigger] isgcd(k, u - v, v) implies isgcd(k, x, y) by { lemma_gcd_sub(k, u, v); }
    assert forall|k: int| #[trigger] isgcd(k, u, v - u) implies isgcd(k, x, y) by { lemma_gcd_sym(k, u, v - u); lemma_gcd_sub(k, v, u); lemma_gcd_sym(k, v, u); }
    if u == v {
        lemma_gcd_self(v); assert(isgcd(v, u - v, v));
        lemma_gcd_le(v, x, y);
        lemma_gcd_shift(v, x, y, s); lemma_pow2_pos(s);
        let p = pow2(s) as int;
        assert(v * p == p * v) by (nonlinear_arith);
        assert(0 < p * v <= x * p) by (nonlinear_arith) requires 0 < v <= x, p > 0;
        assert(c * (x * p) + d * (y * p) == p * (c * x + d * y)) by (nonlinear_arith);
    }
}
proof fn lemma_inv(m: int, x: int, c: int, d: int)
    requires m >= 2, 0 <= x < m, c * m + d * x == 1, -m <= d <= m,
    ensures ({ let r = if d > 0 { d } else { d + m }; 0 < r < m && (r * x) % m == 1 && (x * r) % m == 1 }),
{
    if d == m { assert(c * m + m * x == m * (c + x)) by (nonlinear_arith); lemma_dvd(1, m, c + x); lemma_small_mod(1, m as nat); }
    if d == -m { assert(c * m + (-m) * x == m * (c - x)) by (nonlinear_arith); lemma_dvd(1, m, c - x); lemma_small_mod(1, m as nat); }
    if d == 0 { assert(0 * x == 0); assert(c * m == m * c) by (nonlinear_arith); lemma_dvd(1, m, c); lemma_small_mod(1, m as nat); }
    let r = if d > 0 { d } else { d + m };
    let k: int = if d > 0 { 0 } else { 1 };
    assert((d + k * m) * x == 1 + (k * x - c) * m) by (nonlinear_arith) requires c * m + d * x == 1;
    assert(k * m == if k == 1 { m } else { 0 }) by { assert(1 * m == m); assert(0 * m == 0); }
    lemma_mod_shift(r * x, 1, k * x - c, m);
    lemma_small_mod(1, m as nat);
    assert(r * x == x * r) by (nonlinear_arith);
}
proof fn lemma_gcd0(m: int) requires m >= 2, ensures !isgcd(1, m, 0)
{ lemma_dvd(m, m, 1); lemma_dvd(0, m, 0); assert(cdiv(m, m, 0)); lemma_small_mod(1, m as nat); }
/// dividing by b and multiplying by b again
proof fn lemma_div_undo(a: int, b: int, i: int, q: int, m: int)
    requires m >= 2, 0 <= a < m, (i * b) % m == 1, q == (a * i) % m,
    ensures (q * b) % m == a,
{
    lemma_mul_mod_noop_left(a * i, b, m);
    assert((a * i) * b == a * (i * b)) by (nonlinear_arith);
    lemma_mul_mod_noop_right(a, i * b, m);
    assert(a * 1 == a);
    lemma_small_mod(a as nat, m as nat);
}
pub struct AlgebraError;
