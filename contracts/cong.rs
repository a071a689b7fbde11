// ---- congruence modulo P and linear functionals ---------------------------------------------
pub open spec fn cg(x: int, y: int) -> bool { (x - y) % P() == 0 }
pub proof fn lemma_cg(x: int, y: int) ensures cg(x, y) <==> x % P() == y % P(), cg(x, y) <==> cg(y, x)
{
    axiom_p();
    lemma_fundamental_div_mod(x, P()); lemma_fundamental_div_mod(y, P());
    lemma_mod_bound(x, P()); lemma_mod_bound(y, P());
    let (p, qx, qy, rx, ry) = (P(), x / P(), y / P(), x % P(), y % P());
    assert(x - y == p * (qx - qy) + (rx - ry)) by (nonlinear_arith) requires x == p * qx + rx, y == p * qy + ry;
    lemma_mod_multiples_vanish(qx - qy, rx - ry, p);
    assert(y - x == p * (qy - qx) + (ry - rx)) by (nonlinear_arith) requires x == p * qx + rx, y == p * qy + ry;
    lemma_mod_multiples_vanish(qy - qx, ry - rx, p);
    if rx - ry >= 0 { lemma_small_mod((rx - ry) as nat, p as nat); } else { lemma_mod_add_multiples_vanish(rx - ry, p); lemma_small_mod((rx - ry + p) as nat, p as nat); }
    if ry - rx >= 0 { lemma_small_mod((ry - rx) as nat, p as nat); } else { lemma_mod_add_multiples_vanish(ry - rx, p); lemma_small_mod((ry - rx + p) as nat, p as nat); }
}
pub proof fn cg_mod(x: int) ensures cg(x % P(), x), cg(x, x % P()), cg(x, x), 0 <= x % P() < P()
{ axiom_p(); lemma_mod_twice(x, P()); lemma_mod_bound(x, P()); lemma_cg(x % P(), x); lemma_cg(x, x); }
pub proof fn cg_trans(x: int, y: int, z: int) requires cg(x, y), cg(y, z) ensures cg(x, z)
{ lemma_cg(x, y); lemma_cg(y, z); lemma_cg(x, z); }
pub proof fn cg_add(x: int, y: int, u: int, v: int) requires cg(x, y), cg(u, v) ensures cg(x + u, y + v), cg(x - u, y - v)
{
    axiom_p();
    lemma_cg(x, y); lemma_cg(u, v);
    lemma_add_mod_noop(x, u, P()); lemma_add_mod_noop(y, v, P());
    lemma_sub_mod_noop(x, u, P()); lemma_sub_mod_noop(y, v, P());
    lemma_cg(x + u, y + v); lemma_cg(x - u, y - v);
}
pub proof fn cg_mul(x: int, y: int, c: int) requires cg(x, y) ensures cg(x * c, y * c), cg(c * x, c * y)
{
    axiom_p();
    lemma_cg(x, y);
    lemma_mul_mod_noop_left(x, c, P()); lemma_mul_mod_noop_left(y, c, P());
    lemma_mul_is_commutative(x, c); lemma_mul_is_commutative(y, c);
    lemma_cg(x * c, y * c);
}
/// a is a representative of the residue of x
pub proof fn cg_canon(a: int, x: int) requires 0 <= a < P(), cg(a, x) ensures a == x % P()
{ lemma_cg(a, x); lemma_small_mod(a as nat, P() as nat); }
/// inner product of the first k entries
pub open spec fn dotp(a: Seq<int>, s: Seq<int>, k: nat) -> int decreases k { if k == 0 { 0 } else { dotp(a, s, (k - 1) as nat) + a[k - 1] * s[k - 1] } }
/// phase b - <a, s> of an LWE pair
pub open spec fn phase(a: Seq<int>, b: int, s: Seq<int>) -> int { (b - dotp(a, s, a.len())) % P() }
pub proof fn lemma_dot_lin(r: Seq<int>, x: Seq<int>, y: Seq<int>, al: int, be: int, s: Seq<int>, k: nat)
    requires forall|i: int| 0 <= i < k ==> cg(#[trigger] r[i], al * x[i] + be * y[i]),
    ensures cg(dotp(r, s, k), al * dotp(x, s, k) + be * dotp(y, s, k)),
    decreases k,
{
    if k == 0 {
        assert(al * 0 + be * 0 == 0); cg_mod(0);
    } else {
        lemma_dot_lin(r, x, y, al, be, s, (k - 1) as nat);
        let i = k - 1;
        assert(cg(r[i], al * x[i] + be * y[i]));
        cg_mul(r[i], al * x[i] + be * y[i], s[i]);
        let (dx, dy) = (dotp(x, s, (k - 1) as nat), dotp(y, s, (k - 1) as nat));
        cg_add(dotp(r, s, (k - 1) as nat), al * dx + be * dy, r[i] * s[i], (al * x[i] + be * y[i]) * s[i]);
        let (xi, yi, si) = (x[i], y[i], s[i]);
        assert(al * dx + be * dy + (al * xi + be * yi) * si == al * (dx + xi * si) + be * (dy + yi * si)) by (nonlinear_arith);
    }
}
pub proof fn lemma_phase_lin(ra: Seq<int>, rb: int, xa: Seq<int>, xb: int, ya: Seq<int>, yb: int, al: int, be: int, s: Seq<int>)
    requires ra.len() == xa.len(), ra.len() == ya.len(), forall|i: int| 0 <= i < ra.len() ==> cg(#[trigger] ra[i], al * xa[i] + be * ya[i]), cg(rb, al * xb + be * yb),
    ensures phase(ra, rb, s) == (al * phase(xa, xb, s) + be * phase(ya, yb, s)) % P(),
{
    let n = ra.len();
    lemma_dot_lin(ra, xa, ya, al, be, s, n);
    let (dr, dx, dy) = (dotp(ra, s, n), dotp(xa, s, n), dotp(ya, s, n));
    cg_add(rb, al * xb + be * yb, dr, al * dx + be * dy);
    assert(al * xb + be * yb - (al * dx + be * dy) == al * (xb - dx) + be * (yb - dy)) by (nonlinear_arith);
    cg_mod(xb - dx); cg_mod(yb - dy);
    cg_mul(xb - dx, (xb - dx) % P(), al); cg_mul(yb - dy, (yb - dy) % P(), be);
    cg_add(al * (xb - dx), al * ((xb - dx) % P()), be * (yb - dy), be * ((yb - dy) % P()));
    cg_trans(rb - dr, al * (xb - dx) + be * (yb - dy), al * phase(xa, xb, s) + be * phase(ya, yb, s));
    lemma_cg(rb - dr, al * phase(xa, xb, s) + be * phase(ya, yb, s));
}
