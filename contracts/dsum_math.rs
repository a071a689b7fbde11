proof fn lemma_sq16(x: int, y: int, m: int, b: int, j: int, s: int)
    requires 0 <= x < m, 0 <= y < m, 4 * m <= b, 0 <= j < 16, 0 <= s <= j * ((m - 1) * (m - 1)),
    ensures 0 <= s + x * y <= (j + 1) * ((m - 1) * (m - 1)), s + x * y < b * b,
{
    let q = (m - 1) * (m - 1);
    assert(0 <= x * y <= q) by (nonlinear_arith) requires 0 <= x <= m - 1, 0 <= y <= m - 1, q == (m - 1) * (m - 1);
    assert(j * q + q == (j + 1) * q) by (nonlinear_arith);
    assert((j + 1) * q <= 16 * q) by (nonlinear_arith) requires j + 1 <= 16, q >= 0;
    assert(16 * q < b * b) by (nonlinear_arith) requires 4 * m <= b, m >= 1, q == (m - 1) * (m - 1);
}
/// carry chain of c += a*b
proof fn lemma_madd(b: int, p: int, lw: int, hw: int, c0: int, c1: int)
    requires b > 0, p == lw + hw * b, 0 <= lw < b, 0 <= hw < b, 0 <= c0 < b, 0 <= c1 < b, c0 + c1 * b + p < b * b,
    ensures ({ let k: int = if c0 + lw >= b { 1 } else { 0 }; c1 + hw + k < b && (c0 + lw - k * b) + (c1 + hw + k) * b == c0 + c1 * b + p }),
{
    let k: int = if c0 + lw >= b { 1 } else { 0 };
    assert((c0 + lw - k * b) + (c1 + hw + k) * b == c0 + c1 * b + p) by (nonlinear_arith) requires p == lw + hw * b;
    assert(k * b == if k == 1 { b } else { 0 }) by { assert(1 * b == b); assert(0 * b == 0); }
    assert(c1 + hw + k < b) by (nonlinear_arith) requires (c0 + lw - k * b) + (c1 + hw + k) * b < b * b, c0 + lw - k * b >= 0, b > 0;
}
