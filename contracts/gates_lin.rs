// ---- phases of the gates' linear combinations ---------------------------------------------------
pub open spec fn meq(x: int, y: int, q: int) -> bool { x % q == y % q }
proof fn meq_lin(a: int, b: int, c: int, d: int, q: int) requires q > 0, meq(a, b, q), meq(c, d, q) ensures meq(a + c, b + d, q), meq(a - c, b - d, q)
{ lemma_add_mod_noop(a, c, q); lemma_add_mod_noop(b, d, q); lemma_sub_mod_noop(a, c, q); lemma_sub_mod_noop(b, d, q); }
proof fn meq_mul(a: int, b: int, c: int, q: int) requires q > 0, meq(a, b, q) ensures meq(a * c, b * c, q), meq(c * a, c * b, q)
{ lemma_mul_mod_noop(a, c, q); lemma_mul_mod_noop(b, c, q); assert(a * c == c * a && b * c == c * b) by (nonlinear_arith); }
proof fn lemma_dsum_lc(r: Seq<$T>, x: Seq<$T>, y: Seq<$T>, z: Seq<$T>, al: int, be: int, ga: int, s: Seq<$T>, k: int, q: int)
    requires q > 0, 0 <= k <= s.len(), r.len() == s.len(), x.len() == s.len(), y.len() == s.len(), z.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]) as int == (al * x[i] + be * y[i] + ga * z[i]) % q,
    ensures meq(dsum_$T(r, s, k), al * dsum_$T(x, s, k) + be * dsum_$T(y, s, k) + ga * dsum_$T(z, s, k), q), decreases k,
{
    if k > 0 {
        lemma_dsum_lc(r, x, y, z, al, be, ga, s, k - 1, q);
        let (a, b, c, d, t) = (r[k - 1] as int, x[k - 1] as int, y[k - 1] as int, z[k - 1] as int, s[k - 1] as int);
        let m = al * b + be * c + ga * d;
        lemma_mod_twice(m, q); meq_mul(a, m, t, q);
        let (dx, dy, dz) = (dsum_$T(x, s, k - 1), dsum_$T(y, s, k - 1), dsum_$T(z, s, k - 1));
        meq_lin(dsum_$T(r, s, k - 1), al * dx + be * dy + ga * dz, a * t, m * t, q);
        assert(al * dx + be * dy + ga * dz + m * t == al * (dx + b * t) + be * (dy + c * t) + ga * (dz + d * t)) by (nonlinear_arith) requires m == al * b + be * c + ga * d;
    } else { assert(al * 0 + be * 0 + ga * 0 == 0) by (nonlinear_arith); }
}
proof fn lemma_lcph(r: LWE, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int, s: Seq<$T>, q: int)
    requires q > 0, lc(r, x, y, z, al, be, ga, q), x.a@.len() == s.len(), y.a@.len() == s.len(), z.a@.len() == s.len(),
    ensures meq(phase(r, s, q), al * phase(x, s, q) + be * phase(y, s, q) + ga * phase(z, s, q), q),
{
    let n = s.len() as int;
    lemma_dsum_lc(r.a@, x.a@, y.a@, z.a@, al, be, ga, s, n, q);
    let (dr, dx, dy, dz) = (dsum_$T(r.a@, s, n), dsum_$T(x.a@, s, n), dsum_$T(y.a@, s, n), dsum_$T(z.a@, s, n));
    let b = al * x.b + be * y.b + ga * z.b;
    lemma_mod_twice(b, q); meq_lin(r.b as int, b, dr, al * dx + be * dy + ga * dz, q);
    assert(b - (al * dx + be * dy + ga * dz) == al * (x.b - dx) + be * (y.b - dy) + ga * (z.b - dz)) by (nonlinear_arith) requires b == al * x.b + be * y.b + ga * z.b;
    lemma_mod_twice(r.b - dr, q); lemma_mod_twice(x.b - dx, q); lemma_mod_twice(y.b - dy, q); lemma_mod_twice(z.b - dz, q);
    meq_mul(phase(x, s, q), x.b - dx, al, q); meq_mul(phase(y, s, q), y.b - dy, be, q); meq_mul(phase(z, s, q), z.b - dz, ga, q);
    meq_lin(al * phase(x, s, q), al * (x.b - dx), be * phase(y, s, q), be * (y.b - dy), q);
    meq_lin(al * phase(x, s, q) + be * phase(y, s, q), al * (x.b - dx) + be * (y.b - dy), ga * phase(z, s, q), ga * (z.b - dz), q);
}
/// C21: the phase a gate hands to the bootstrap: the combined bits times a quarter of the modulus, plus the combined errors
pub proof fn thm_gate_phase(r: LWE, x: LWE, y: LWE, z: LWE, al: int, be: int, ga: int, s: Seq<$T>, q: int, b: (int, int, int), e: (int, int, int))
    requires q > 0, lc(r, x, y, z, al, be, ga, q), x.a@.len() == s.len(), y.a@.len() == s.len(), z.a@.len() == s.len(),
        phase(x, s, q) == (b.0 * (q / 4) + e.0) % q, phase(y, s, q) == (b.1 * (q / 4) + e.1) % q, phase(z, s, q) == (b.2 * (q / 4) + e.2) % q,
    ensures phase(r, s, q) == ((al * b.0 + be * b.1 + ga * b.2) * (q / 4) + (al * e.0 + be * e.1 + ga * e.2)) % q,
{
    let u = q / 4; let (px, py, pz) = (phase(x, s, q), phase(y, s, q), phase(z, s, q)); let (fx, fy, fz) = (b.0 * u + e.0, b.1 * u + e.1, b.2 * u + e.2);
    lemma_lcph(r, x, y, z, al, be, ga, s, q);
    lemma_mod_twice(fx, q); lemma_mod_twice(fy, q); lemma_mod_twice(fz, q);
    meq_mul(px, fx, al, q); meq_mul(py, fy, be, q); meq_mul(pz, fz, ga, q);
    meq_lin(al * px, al * fx, be * py, be * fy, q); meq_lin(al * px + be * py, al * fx + be * fy, ga * pz, ga * fz, q);
    assert(al * fx + be * fy + ga * fz == (al * b.0 + be * b.1 + ga * b.2) * u + (al * e.0 + be * e.1 + ga * e.2)) by (nonlinear_arith) requires fx == b.0 * u + e.0, fy == b.1 * u + e.1, fz == b.2 * u + e.2;
    lemma_mod_twice(r.b - dsum_$T(r.a@, s, s.len() as int), q);
}
/// C21: negation maps the encoding of b with error e to that of 1 - b with error -e
pub proof fn thm_not_phase(r: LWE, c: LWE, s: Seq<$T>, q: int, b: int, e: int)
    requires q >= 8, q % 4 == 0, negq(r, c, q), c.a@.len() == s.len(), phase(c, s, q) == (b * (q / 4) + e) % q,
    ensures phase(r, s, q) == ((1 - b) * (q / 4) - e) % q,
{
    let n = s.len() as int; let u = q / 4; let f = b * u + e; let dc = dsum_$T(c.a@, s, n); let dr = dsum_$T(r.a@, s, n);
    lemma_dsum_lc(r.a@, c.a@, c.a@, c.a@, -1, 0, 0, s, n, q);
    lemma_mod_twice(u - c.b, q); meq_lin(r.b as int, u - c.b, dr, -1 * dc + 0 * dc + 0 * dc, q);
    lemma_mod_twice(f, q); assert(meq(c.b - dc, f, q));
    meq_lin(u, u, c.b - dc, f, q);
    assert(u - f == (1 - b) * u - e) by (nonlinear_arith) requires f == b * u + e;
}
