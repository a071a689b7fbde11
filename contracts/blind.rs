// ---- blind rotation ---------------------------------------------------------------------------
/// coefficients of an LWE ciphertext
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Cm { x: u64 }
pub uninterp spec fn cv(c: Cm) -> nat;
impl Cm {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (cv(*self) == 0) { unimplemented!() }
}
/// num conversions (`as`)
#[verifier::external_body]
pub fn vidx(c: Cm) -> (r: usize) requires cv(c) <= usize::MAX ensures r == cv(c) { unimplemented!() }
#[verifier::external_body]
pub fn vrotr(v: &mut Vec<Fe>, k: usize) requires k <= old(v)@.len() ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[if i < k { old(v)@.len() - k + i } else { i - k }], { v.rotate_right(k) }
/// residues of the coefficients of X^r
pub open spec fn mr(n: nat, r: int) -> Seq<int> { Seq::new(n, |i: int| mono(n, r)[i] % P()) }
proof fn lemma_nsum_cong(a: Seq<int>, a2: Seq<int>, b: Seq<int>, k: int, m: nat)
    requires a.len() == a2.len(), b.len() == a.len(), 0 <= k < a.len(), m <= a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a2[i] == a[i] % P(),
    ensures cg(nsum(a, b, k, m), nsum(a2, b, k, m)),
    decreases m,
{
    axiom_p();
    if m == 0 { cg_mod(0); }
    if m > 0 {
        lemma_nsum_cong(a, a2, b, k, (m - 1) as nat);
        let (x, x2) = (a[m - 1], a2[m - 1]);
        let t = if m - 1 <= k { b[k - (m - 1)] } else { b[a.len() + k - (m - 1)] };
        cg_mod(x); cg_mul(x, x2, t);
        let (u, u2) = (nsum(a, b, k, (m - 1) as nat), nsum(a2, b, k, (m - 1) as nat));
        cg_add(u, u2, x * t, x2 * t);
        assert(nsum(a, b, k, m) == if m - 1 <= k { u + x * t } else { u - x * t });
        assert(nsum(a2, b, k, m) == if m - 1 <= k { u2 + x2 * t } else { u2 - x2 * t });
    }
}
/// multiplication by X^r with residue coefficients
pub proof fn lemma_xmr(a: Seq<int>, r: int)
    requires isres(a), a.len() > 0, 0 <= r <= 2 * a.len(),
    ensures xmul(a, r) == negmul(mr(a.len(), r), a), isres(mr(a.len(), r)), mr(a.len(), r).len() == a.len(), isres(xmul(a, r)), xmul(a, r).len() == a.len(),
{
    axiom_p();
    lemma_xmul(a, r);
    let (x, y) = (mono(a.len(), r), mr(a.len(), r));
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] negmul(x, a)[k] == negmul(y, a)[k] by { lemma_nsum_cong(x, y, a, k, a.len()); lemma_cg(nsum(x, a, k, a.len()), nsum(y, a, k, a.len())); }
    assert(negmul(x, a) =~= negmul(y, a));
}
/// X^0 and X^2n are one; rotations compose
pub open spec fn radd(n: int, r: int, t: int) -> int { (r + t) % (2 * n) }
pub proof fn lemma_xcomp(a: Seq<int>, r: int, t: int)
    requires isres(a), a.len() > 0, 0 <= r < 2 * a.len(), 0 <= t < 2 * a.len(),
    ensures xmul(xmul(a, r), t) == xmul(a, radd(a.len() as int, r, t)), xmul(a, 0) == a, xmul(a, 2 * a.len() as int) == a,
{
    axiom_p();
    let n = a.len() as int;
    let w = radd(n, r, t);
    if r + t < 2 * n { lemma_small_mod((r + t) as nat, (2 * n) as nat); } else { lemma_mod_multiples_vanish(1, r + t - 2 * n, 2 * n); lemma_small_mod((r + t - 2 * n) as nat, (2 * n) as nat); assert(w == r + t - 2 * n); }
    assert forall|k: int| 0 <= k < n implies #[trigger] xmul(xmul(a, r), t)[k] == xmul(a, w)[k] by {
        assert forall|i: int| 0 <= i < n implies fneg(fneg(#[trigger] a[i])) == a[i] by { lemma_negneg(a[i]); }
        let b = xmul(a, r);
        if t <= n { if k < t { let j = n - t + k; assert(0 <= j < n); } else { let j = k - t; assert(0 <= j < n); } }
        else { if k < t - n { let j = 2 * n - t + k; assert(0 <= j < n); } else { let j = k - (t - n); assert(0 <= j < n); } }
    }
    assert(xmul(xmul(a, r), t) =~= xmul(a, w));
    assert forall|k: int| 0 <= k < n implies #[trigger] xmul(a, 2 * n)[k] == a[k] by { lemma_negneg(a[k]); }
    assert(xmul(a, 2 * n) =~= a);
    assert(xmul(a, 0) =~= a);
}
pub open spec fn pone(n: nat) -> Seq<int> { mr(n, 0) }
pub proof fn lemma_one(a: Seq<int>) requires isres(a), a.len() > 0 ensures negmul(pone(a.len()), a) == a, negmul(a, pone(a.len())) == a, isres(pone(a.len())), pone(a.len()).len() == a.len()
{ lemma_xmr(a, 0); lemma_xcomp(a, 0, 0); lemma_negmul_comm(pone(a.len()), a); }
proof fn lemma_nsum_zero(a: Seq<int>, b: Seq<int>, k: int, m: nat) requires b.len() == a.len(), 0 <= k < a.len(), m <= a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == 0 ensures nsum(a, b, k, m) == 0 decreases m
{ if m > 0 { lemma_nsum_zero(a, b, k, (m - 1) as nat); let x = a[m - 1]; assert(x * 0 == 0); let i = if m - 1 <= k { k - (m - 1) } else { a.len() + k - (m - 1) }; assert(b[i] == 0); } }
pub proof fn lemma_mulzero(a: Seq<int>) ensures negmul(a, pzero(a.len())) == pzero(a.len()), isres(pzero(a.len()))
{
    axiom_p();
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] negmul(a, pzero(a.len()))[k] == 0 by { lemma_nsum_zero(a, pzero(a.len()), k, a.len()); lemma_small_mod(0, P() as nat); }
    assert(negmul(a, pzero(a.len())) =~= pzero(a.len()));
}
// -- pointwise identities in the transform domain
proof fn idm(p: int, m: int, a: int, b: int, s: int, q1: int, q2: int, q3: int, q4: int, q5: int, q6: int, q7: int, q8: int)
    ensures ((m * b - p * q1) - b - p * q2) - (((m * a - p * q3) - a - p * q4) * s - p * q5) == ((m * ((b - (a * s - p * q6)) - p * q7) - p * q8) - ((b - (a * s - p * q6)) - p * q7)) + p * (-q1 - q2 + (q3 + q4) * s + q5 - (q6 - q7) * m + q8 + q6 - q7)
{ assert(((m * b - p * q1) - b - p * q2) - (((m * a - p * q3) - a - p * q4) * s - p * q5) == ((m * ((b - (a * s - p * q6)) - p * q7) - p * q8) - ((b - (a * s - p * q6)) - p * q7)) + p * (-q1 - q2 + (q3 + q4) * s + q5 - (q6 - q7) * m + q8 + q6 - q7)) by (nonlinear_arith); }
proof fn lemma_rot_step(m: int, a: int, b: int, s: int)
    ensures fsub(fsub(fmul(m, b), b), fmul(fsub(fmul(m, a), a), s)) == fsub(fmul(m, fsub(b, fmul(a, s))), fsub(b, fmul(a, s))),
{
    let p = P();
    let (x, y) = (fmul(m, b), fmul(m, a)); let f = fsub(b, fmul(a, s)); let v = fsub(y, a);
    lemma_q(m * b); lemma_q(x - b); lemma_q(m * a); lemma_q(y - a); lemma_q(v * s); lemma_q(a * s); lemma_q(b - fmul(a, s)); lemma_q(m * f);
    let (q1, q2, q3, q4, q5, q6, q7, q8) = ((m * b) / p, (x - b) / p, (m * a) / p, (y - a) / p, (v * s) / p, (a * s) / p, (b - fmul(a, s)) / p, (m * f) / p);
    idm(p, m, a, b, s, q1, q2, q3, q4, q5, q6, q7, q8);
    lemma_red(fsub(x, b) - fmul(v, s), fmul(m, f) - f, -q1 - q2 + (q3 + q4) * s + q5 - (q6 - q7) * m + q8 + q6 - q7);
}
pub open spec fn phs(a: Seq<int>, b: Seq<int>, s: Seq<int>) -> Seq<int> { psub(b, negmul(a, s)) }
/// phase of (X^r - 1) times a ciphertext
pub proof fn lemma_rot_phase(a: Seq<int>, b: Seq<int>, s: Seq<int>, r: int)
    requires isres(a), isres(b), isres(s), ringn(a.len()), b.len() == a.len(), s.len() == a.len(), 0 <= r <= 2 * a.len(),
    ensures phs(psub(xmul(a, r), a), psub(xmul(b, r), b), s) == psub(xmul(phs(a, b, s), r), phs(a, b, s)), isres(phs(a, b, s)), isres(psub(xmul(a, r), a)), isres(psub(xmul(b, r), b)),
{
    axiom_p();
    let n = a.len();
    lemma_ringpos(n);
    lemma_xmr(a, r); lemma_xmr(b, r);
    let m = mr(n, r); let ph = phs(a, b, s);
    let (xa, xb) = (xmul(a, r), xmul(b, r));
    let (ta, tb) = (psub(xa, a), psub(xb, b));
    lemma_rph(a, b, s); lemma_rph(ta, tb, s);
    lemma_xmr(ph, r);
    axiom_ntt(m, a); axiom_ntt(m, b); axiom_ntt(m, ph); axiom_ntt(xa, a); axiom_ntt(xb, b);
    axiom_ntt(a, s); axiom_ntt(b, s); axiom_ntt(ph, s);
    let rhs = psub(xmul(ph, r), ph);
    axiom_ntt(xmul(ph, r), ph);
    let (M, A, B, S) = (ntt(m), ntt(a), ntt(b), ntt(s));
    let l = nphs(ntt(ta), ntt(tb), S); let q = psub(pmul(M, ntt(ph)), ntt(ph));
    assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == q[i] by { lemma_rot_step(M[i], A[i], B[i], S[i]); }
    assert(l =~= q);
    let lhs = phs(ta, tb, s);
    axiom_ntt(lhs, rhs); axiom_ntt(rhs, lhs);
}
pub proof fn lemma_ringpos(n: nat) requires ringn(n) ensures n > 0 { let k = choose|k: nat| n == #[trigger] pow2(k) && supported(k); lemma_pow2_pos(k); }
/// phases add up
pub proof fn lemma_phase_add(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>, s: Seq<int>)
    requires isres(a), isres(b), isres(c), isres(d), isres(s), ringn(a.len()), b.len() == a.len(), s.len() == a.len(), c.len() == a.len(), d.len() == a.len(),
    ensures phs(padd(a, c), padd(b, d), s) == padd(phs(a, b, s), phs(c, d, s)),
{
    axiom_p();
    lemma_rph(a, b, s); lemma_rph(c, d, s); lemma_rph(padd(a, c), padd(b, d), s);
    axiom_ntt(a, c); axiom_ntt(b, d); axiom_ntt(c, a); axiom_ntt(d, b); axiom_ntt(s, s);
    let (p1, p2) = (phs(a, b, s), phs(c, d, s));
    axiom_ntt(p1, p2); axiom_ntt(p2, p1);
    let (A, B, C, D, S) = (ntt(a), ntt(b), ntt(c), ntt(d), ntt(s));
    let lhs = phs(padd(a, c), padd(b, d), s); let rhs = padd(p1, p2);
    let l = nphs(ntt(padd(a, c)), ntt(padd(b, d)), S); let q = padd(nphs(A, B, S), nphs(C, D, S));
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] l[i] == q[i] by { lemma_addph(A[i], B[i], C[i], D[i], S[i]); assert(ntt(padd(a, c))[i] == fadd(A[i], C[i])); assert(ntt(padd(b, d))[i] == fadd(B[i], D[i])); assert(l[i] == fsub(fadd(B[i], D[i]), fmul(fadd(A[i], C[i]), S[i]))); assert(nphs(A, B, S)[i] == fsub(B[i], fmul(A[i], S[i]))); assert(nphs(C, D, S)[i] == fsub(D[i], fmul(C[i], S[i]))); }
    assert(l =~= q);
    axiom_ntt(lhs, rhs); axiom_ntt(rhs, lhs);
}
proof fn ida(p: int, a: int, b: int, c: int, d: int, s: int, q1: int, q2: int, q3: int, q4: int, q5: int, q6: int, q7: int)
    ensures (b + d - p * q1) - ((a + c - p * q2) * s - p * q3) == ((b - (a * s - p * q4) - p * q5) + (d - (c * s - p * q6) - p * q7)) + p * (-q1 + q2 * s + q3 - q4 + q5 - q6 + q7)
{ assert((b + d - p * q1) - ((a + c - p * q2) * s - p * q3) == ((b - (a * s - p * q4) - p * q5) + (d - (c * s - p * q6) - p * q7)) + p * (-q1 + q2 * s + q3 - q4 + q5 - q6 + q7)) by (nonlinear_arith); }
proof fn lemma_addph(a: int, b: int, c: int, d: int, s: int)
    ensures fsub(fadd(b, d), fmul(fadd(a, c), s)) == fadd(fsub(b, fmul(a, s)), fsub(d, fmul(c, s))),
{
    let p = P();
    lemma_q(b + d); lemma_q(a + c); lemma_q(fadd(a, c) * s); lemma_q(a * s); lemma_q(b - fmul(a, s)); lemma_q(c * s); lemma_q(d - fmul(c, s));
    let (q1, q2, q3, q4, q5, q6, q7) = ((b + d) / p, (a + c) / p, (fadd(a, c) * s) / p, (a * s) / p, (b - fmul(a, s)) / p, (c * s) / p, (d - fmul(c, s)) / p);
    ida(p, a, b, c, d, s, q1, q2, q3, q4, q5, q6, q7);
    lemma_red(fadd(b, d) - fmul(fadd(a, c), s), fsub(b, fmul(a, s)) + fsub(d, fmul(c, s)), -q1 + q2 * s + q3 - q4 + q5 - q6 + q7);
}
/// g encrypts m under s without row errors
pub open spec fn zeros(e: Seq<Seq<int>>, k: nat, n: nat) -> bool { e.len() == k && forall|j: int| 0 <= j < k ==> #[trigger] e[j] == pzero(n) }
pub open spec fn zs(k: nat, n: nat) -> Seq<Seq<int>> { Seq::new(k, |j: int| pzero(n)) }
pub open spec fn encx(g: NTTRGSW, s: Seq<int>, m: Seq<int>) -> bool {
    let n = s.len();
    enc(na(g.c_neg_s_m.data@), nb(g.c_neg_s_m.data@), ntt(s), pneg(pmul(ntt(s), ntt(m))), zs(g.c_neg_s_m.data@.len(), n), g.c_neg_s_m.basis.bits as nat)
    && enc(na(g.c_m.data@), nb(g.c_m.data@), ntt(s), ntt(m), zs(g.c_m.data@.len(), n), g.c_m.basis.bits as nat)
}
/// one step: the accumulator gains m * (X^r - 1) times its phase
pub open spec fn stepv(ph: Seq<int>, m: Seq<int>, r: int) -> Seq<int> { padd(ph, negmul(psub(xmul(ph, r), ph), m)) }
pub open spec fn rot1(a: Seq<int>, r: int) -> Seq<int> { psub(negmul(mono(a.len(), r), a), a) }
/// external product of (ta, tb) with g
pub open spec fn xtp(ta: Seq<int>, tb: Seq<int>, g1: Seq<Seq<int>>, g2: Seq<Seq<int>>, g: NTTRGSW) -> Seq<int> {
    intt(gacc(gacc(pzero(ta.len()), g1, ta, g.c_neg_s_m.basis.bits as nat, g.c_neg_s_m.data@.len()), g2, tb, g.c_m.basis.bits as nat, g.c_m.data@.len()))
}
pub open spec fn xa(ta: Seq<int>, tb: Seq<int>, g: NTTRGSW) -> Seq<int> { xtp(ta, tb, na(g.c_neg_s_m.data@), na(g.c_m.data@), g) }
pub open spec fn xb(ta: Seq<int>, tb: Seq<int>, g: NTTRGSW) -> Seq<int> { xtp(ta, tb, nb(g.c_neg_s_m.data@), nb(g.c_m.data@), g) }
pub open spec fn stepped(o: RLWE, acc: RLWE, g: NTTRGSW, r: int) -> bool {
    let (a, b) = (pv(acc.a.data@), pv(acc.b.data@));
    pv(o.a.data@) == padd(a, xa(rot1(a, r), rot1(b, r), g)) && pv(o.b.data@) == padd(b, xb(rot1(a, r), rot1(b, r), g))
}
pub proof fn lemma_step(acc: RLWE, o: RLWE, g: NTTRGSW, s: Seq<int>, m: Seq<int>, r: int)
    requires ringn(rn(acc)), rwf(acc, rn(acc)), nttrgsww(g, rn(acc)), isres(s), s.len() == rn(acc), isres(m), m.len() == rn(acc), encx(g, s, m), 0 <= r <= 2 * rn(acc), stepped(o, acc, g, r),
    ensures rph(o, s) == stepv(rph(acc, s), m, r), isres(rph(acc, s)), rph(acc, s).len() == rn(acc),
{
    axiom_p();
    let n = rn(acc);
    lemma_ringpos(n);
    lemma_pv(acc.a.data@); lemma_pv(acc.b.data@);
    let (a, b) = (pv(acc.a.data@), pv(acc.b.data@)); let (ta, tb) = (rot1(a, r), rot1(b, r));
    lemma_xmul(a, r); lemma_xmul(b, r);
    lemma_rot_phase(a, b, s, r);
    let (k1, k2) = (g.c_neg_s_m.data@.len(), g.c_m.data@.len()); let (w1, w2) = (g.c_neg_s_m.basis.bits as nat, g.c_m.basis.bits as nat);
    lemma_external_exact(ta, tb, na(g.c_neg_s_m.data@), nb(g.c_neg_s_m.data@), na(g.c_m.data@), nb(g.c_m.data@), s, m, zs(k1, n), zs(k2, n), w1, w2);
    let (u, v) = (gacc(pzero(n), na(g.c_neg_s_m.data@), ta, w1, k1), gacc(pzero(n), nb(g.c_neg_s_m.data@), ta, w1, k1));
    lemma_gacc_res(pzero(n), na(g.c_neg_s_m.data@), ta, w1, k1); lemma_gacc_res(pzero(n), nb(g.c_neg_s_m.data@), ta, w1, k1);
    lemma_gacc_res(u, na(g.c_m.data@), tb, w2, k2); lemma_gacc_res(v, nb(g.c_m.data@), tb, w2, k2);
    axiom_ntt(gacc(u, na(g.c_m.data@), tb, w2, k2), gacc(v, nb(g.c_m.data@), tb, w2, k2)); axiom_ntt(gacc(v, nb(g.c_m.data@), tb, w2, k2), gacc(u, na(g.c_m.data@), tb, w2, k2));
    lemma_phase_add(a, b, xa(ta, tb, g), xb(ta, tb, g), s);
}
pub proof fn lemma_step_one(ph: Seq<int>, r: int) requires isres(ph), ph.len() > 0, 0 <= r <= 2 * ph.len() ensures stepv(ph, pone(ph.len()), r) == xmul(ph, r)
{
    axiom_p();
    lemma_xmr(ph, r);
    let x = xmul(ph, r); let d = psub(x, ph);
    lemma_one(d);
    assert forall|i: int| 0 <= i < ph.len() implies #[trigger] padd(ph, d)[i] == x[i] by { lemma_add_mod_noop_right(ph[i], x[i] - ph[i], P()); lemma_small_mod(x[i] as nat, P() as nat); }
    assert(padd(ph, d) =~= x);
}
pub proof fn lemma_step_zero(ph: Seq<int>, r: int) requires isres(ph), ph.len() > 0, 0 <= r <= 2 * ph.len() ensures stepv(ph, pzero(ph.len()), r) == ph
{
    axiom_p();
    lemma_mulzero(psub(xmul(ph, r), ph));
    assert forall|i: int| 0 <= i < ph.len() implies #[trigger] padd(ph, pzero(ph.len()))[i] == ph[i] by { lemma_small_mod(ph[i] as nat, P() as nat); }
    assert(padd(ph, pzero(ph.len())) =~= ph);
}
/// secret coefficient z in {-1, 0, 1}: total rotation after k coefficients, starting from X^(2n - b)
pub open spec fn rot(n: int, b: int, a: Seq<Cm>, z: Seq<int>, k: nat) -> int decreases k
{ if k == 0 { (2 * n - b) % (2 * n) } else { (rot(n, b, a, z, (k - 1) as nat) + z[k - 1] * cv(a[k - 1])) % (2 * n) } }
/// LWE phase b - <a, z>
pub open spec fn idot(a: Seq<Cm>, z: Seq<int>, k: nat) -> int decreases k { if k == 0 { 0 } else { idot(a, z, (k - 1) as nat) + z[k - 1] * cv(a[k - 1]) } }
pub proof fn lemma_rot(n: int, b: int, a: Seq<Cm>, z: Seq<int>, k: nat)
    requires n > 0, k <= a.len(), k <= z.len(),
    ensures rot(n, b, a, z, k) == (idot(a, z, k) - b) % (2 * n), 0 <= rot(n, b, a, z, k) < 2 * n, decreases k,
{
    let m = 2 * n;
    if k == 0 { lemma_mod_multiples_vanish(1, -b, m); }
    else { lemma_rot(n, b, a, z, (k - 1) as nat); let w = z[k - 1] * cv(a[k - 1]); let d = idot(a, z, (k - 1) as nat) - b; lemma_add_mod_noop_right(w, d, m); }
    lemma_mod_bound(if k == 0 { 2 * n - b } else { rot(n, b, a, z, (k - 1) as nat) + z[k - 1] * cv(a[k - 1]) }, m);
}
pub proof fn lemma_rotstep(n: int, b: int, a: Seq<Cm>, z: Seq<int>, k: nat)
    requires n > 0, k < a.len(), k < z.len(), cv(a[k as int]) < 2 * n,
    ensures ({ let r = rot(n, b, a, z, k); let c = cv(a[k as int]) as int; let o = rot(n, b, a, z, k + 1); 0 <= r < 2 * n && (z[k as int] == 0 ==> o == r) && (c == 0 ==> o == r) && (z[k as int] == 1 ==> o == radd(n, r, c)) && (z[k as int] == -1 && c > 0 ==> o == radd(n, r, 2 * n - c)) }),
{
    lemma_rot(n, b, a, z, k);
    let r = rot(n, b, a, z, k); let c = cv(a[k as int]) as int; let w = z[k as int];
    assert(0 * c == 0); assert(w * 0 == 0); assert(1 * c == c); assert(-1 * c == -c);
    lemma_small_mod(r as nat, (2 * n) as nat);
    lemma_mod_multiples_vanish(1, r - c, 2 * n);
    assert(r + (2 * n - c) == 2 * n + (r - c));
}
/// the constant coefficient of the rotated look-up table is the entry the phase addresses, negated in the upper half
pub proof fn lemma_const_coeff(lut: Seq<int>, b: int, a: Seq<Cm>, z: Seq<int>)
    requires isres(lut), lut.len() > 0, z.len() == a.len(),
    ensures ({ let n = lut.len() as int; let ph = (b - idot(a, z, a.len())) % (2 * n); 0 <= ph < 2 * n && xmul(lut, rot(n, b, a, z, a.len()))[0] == (if ph < n { lut[ph] } else { fneg(lut[ph - n]) }) }),
{
    axiom_p();
    let n = lut.len() as int; let m = 2 * n;
    let d = b - idot(a, z, a.len());
    lemma_rot(n, b, a, z, a.len());
    let r = rot(n, b, a, z, a.len()); let ph = d % m;
    lemma_mod_bound(d, m);
    assert(r == (-d) % m);
    lemma_fundamental_div_mod(d, m);
    let q = d / m;
    if ph == 0 { assert(-d == (-q) * m) by (nonlinear_arith) requires d == m * q; lemma_fundamental_div_mod_converse(-d, m, -q, 0); }
    else { assert(-d == (-q - 1) * m + (m - ph)) by (nonlinear_arith) requires d == m * q + ph; lemma_fundamental_div_mod_converse(-d, m, -q - 1, m - ph); assert(r == m - ph); }
    if ph > 0 && ph < n { lemma_negneg(lut[ph]); }
}

/// every row set encrypts its secret coefficient
pub open spec fn bkey(key: Seq<NTTRGSW>, s: Seq<int>, z: Seq<int>, n: nat) -> bool {
    isres(s) && s.len() == n && z.len() == key.len() && forall|i: int| 0 <= i < key.len() ==> (z[i] == 0 || z[i] == 1) && encx(#[trigger] key[i], s, if z[i] == 1 { pone(n) } else { pzero(n) })
}
pub proof fn lemma_start(acc: RLWE, s: Seq<int>)
    requires pv(acc.a.data@) == pzero(rn(acc)), rwf(acc, rn(acc)), s.len() == rn(acc),
    ensures rph(acc, s) == pv(acc.b.data@),
{
    axiom_p(); lemma_pv(acc.b.data@);
    let n = rn(acc);
    lemma_negmul_comm(pzero(n), s); lemma_mulzero(s);
    assert forall|i: int| 0 <= i < n implies #[trigger] psub(pv(acc.b.data@), pzero(n))[i] == pv(acc.b.data@)[i] by { lemma_small_mod(pv(acc.b.data@)[i] as nat, P() as nat); }
    assert(psub(pv(acc.b.data@), pzero(n)) =~= pv(acc.b.data@));
}
/// one secret coefficient of a binary key
pub proof fn lemma_bin(lut: Seq<int>, acc: RLWE, o: RLWE, key: Seq<NTTRGSW>, s: Seq<int>, z: Seq<int>, b: int, a: Seq<Cm>, k: nat)
    requires isres(lut), rn(acc) == lut.len(), ringn(rn(acc)), rwf(acc, rn(acc)), k < key.len(), a.len() == key.len(), nttrgsww(key[k as int], rn(acc)), bkey(key, s, z, rn(acc)), cv(a[k as int]) < 2 * rn(acc),
        rph(acc, s) == xmul(lut, rot(lut.len() as int, b, a, z, k)), if cv(a[k as int]) == 0 { o == acc } else { stepped(o, acc, key[k as int], cv(a[k as int]) as int) },
    ensures rph(o, s) == xmul(lut, rot(lut.len() as int, b, a, z, k + 1)),
{
    let n = rn(acc); let g = key[k as int]; let r = cv(a[k as int]) as int;
    lemma_ringpos(n);
    assert(encx(g, s, if z[k as int] == 1 { pone(n) } else { pzero(n) }));
    lemma_rotstep(n as int, b, a, z, k);
    if r > 0 {
        let m = if z[k as int] == 1 { pone(n) } else { pzero(n) };
        lemma_one(lut); lemma_mulzero(lut);
        lemma_step(acc, o, g, s, m, r);
        lemma_step_one(rph(acc, s), r); lemma_step_zero(rph(acc, s), r);
        lemma_xcomp(lut, rot(n as int, b, a, z, k), r);
    }
}

impl NttTable {
    /// C12: the transform of -X^degree
    #[verifier::external_body]
    pub fn transform_coeff_neg_one_monomial(&self, degree: usize, values: &mut [Fe])
        requires old(values)@.len() == pow2(tlog(*self)), degree <= 2 * old(values)@.len(),
        ensures wf(final(values)@), final(values)@.len() == old(values)@.len(), pv(final(values)@) == ntt(pneg(mr(old(values)@.len(), degree as int))),
    { unimplemented!() }
}
// ---- ternary keys
proof fn lemma_combine(x: int, y: int, q: int, c: int)
    ensures (fadd(fmul(x, c), 0) + fadd(fmul(y, c), 0) * q) % P() == fadd(fmul(fadd(x, fmul(y, q)), c), 0),
{
    axiom_p();
    let p = P();
    let (u, v) = (fmul(x, c), fmul(y, c)); let t = fmul(y, q); let w = fadd(x, t);
    lemma_q(x * c); lemma_q(y * c); lemma_q(y * q); lemma_q(x + t); lemma_q(w * c);
    lemma_mod_bound(x * c, p); lemma_mod_bound(y * c, p); lemma_mod_bound(w * c, p);
    lemma_small_mod(u as nat, p as nat); lemma_small_mod(v as nat, p as nat); lemma_small_mod(fmul(w, c) as nat, p as nat);
    let (q1, q2, q3, q4, q5) = ((x * c) / p, (y * c) / p, (y * q) / p, (x + t) / p, (w * c) / p);
    idc(p, x, y, q, c, q1, q2, q3, q4, q5);
    lemma_red(u + v * q, fmul(w, c), -q1 - q2 * q + (q3 + q4) * c + q5);
    lemma_mod_twice(w * c, p);
}
proof fn idc(p: int, x: int, y: int, q: int, c: int, q1: int, q2: int, q3: int, q4: int, q5: int)
    ensures (x * c - p * q1) + (y * c - p * q2) * q == (((x + (y * q - p * q3)) - p * q4) * c - p * q5) + p * (-q1 - q2 * q + (q3 + q4) * c + q5)
{ assert((x * c - p * q1) + (y * c - p * q2) * q == (((x + (y * q - p * q3)) - p * q4) * c - p * q5) + p * (-q1 - q2 * q + (q3 + q4) * c + q5)) by (nonlinear_arith); }
proof fn idn(p: int, s: int, x: int, y: int, q: int, q1: int, q2: int, q3: int, q4: int, q5: int, q6: int, q7: int, q8: int)
    ensures (-(s * x - p * q1) - p * q2) + ((-(s * y - p * q3) - p * q4) * q - p * q5) == -(s * ((x + (y * q - p * q6)) - p * q7) - p * q8) + p * (q1 - q2 + (q3 - q4) * q - q5 - (q6 + q7) * s - q8)
{ assert((-(s * x - p * q1) - p * q2) + ((-(s * y - p * q3) - p * q4) * q - p * q5) == -(s * ((x + (y * q - p * q6)) - p * q7) - p * q8) + p * (q1 - q2 + (q3 - q4) * q - q5 - (q6 + q7) * s - q8)) by (nonlinear_arith); }
proof fn lemma_combine_neg(s: int, x: int, y: int, q: int)
    ensures fadd(fneg(fmul(s, x)), fmul(fneg(fmul(s, y)), q)) == fneg(fmul(s, fadd(x, fmul(y, q)))),
{
    let p = P();
    let (u, v) = (fneg(fmul(s, x)), fneg(fmul(s, y))); let w = fadd(x, fmul(y, q));
    lemma_q(s * x); lemma_q(-fmul(s, x)); lemma_q(s * y); lemma_q(-fmul(s, y)); lemma_q(v * q); lemma_q(y * q); lemma_q(x + fmul(y, q)); lemma_q(s * w);
    let (q1, q2, q3, q4, q5, q6, q7, q8) = ((s * x) / p, (-fmul(s, x)) / p, (s * y) / p, (-fmul(s, y)) / p, (v * q) / p, (y * q) / p, (x + fmul(y, q)) / p, (s * w) / p);
    idn(p, s, x, y, q, q1, q2, q3, q4, q5, q6, q7, q8);
    lemma_red(u + fmul(v, q), -fmul(s, w), q1 - q2 + (q3 - q4) * q - q5 - (q6 + q7) * s - q8);
}
/// d = l + r * q row by row
pub open spec fn mrows(d: Seq<NTTRLWE>, l: Seq<NTTRLWE>, r: Seq<NTTRLWE>, q: Seq<int>) -> bool { d.len() == l.len() && r.len() == l.len() && forall|j: int| 0 <= j < l.len() ==> mrow(#[trigger] d[j], l[j], r[j], q) }
proof fn lemma_enc_comb(d: Seq<NTTRLWE>, l: Seq<NTTRLWE>, r: Seq<NTTRLWE>, q: Seq<int>, s: Seq<int>, m0: Seq<int>, m1: Seq<int>, m: Seq<int>, bits: nat)
    requires mrows(d, l, r, q), gwf(l, s.len()), gwf(r, s.len()), q.len() == s.len(), m0.len() == s.len(), m1.len() == s.len(), m == padd(m0, pmul(m1, q)),
        enc(na(l), nb(l), s, m0, zs(l.len(), s.len()), bits), enc(na(r), nb(r), s, m1, zs(r.len(), s.len()), bits),
    ensures enc(na(d), nb(d), s, m, zs(d.len(), s.len()), bits),
{
    let n = s.len(); let e = zs(d.len(), n);
    assert forall|j: int| 0 <= j < na(d).len() implies #[trigger] na(d)[j].len() == n && nb(d)[j].len() == n && e[j].len() == n && nphs(na(d)[j], nb(d)[j], s) == padd(bpow(m, bits, j as nat), e[j]) by {
        assert(mrow(d[j], l[j], r[j], q)); assert(nwf(l[j], n)); assert(nwf(r[j], n));
        let c = pow2(bits * (j as nat)) as int;
        assert(na(l)[j].len() == n); assert(na(r)[j].len() == n);
        let (a, b, x, y) = (pv(l[j].a.data@), pv(l[j].b.data@), pv(r[j].a.data@), pv(r[j].b.data@));
        assert(nphs(a, b, s) == padd(bpow(m0, bits, j as nat), pzero(n)));
        assert(nphs(x, y, s) == padd(bpow(m1, bits, j as nat), pzero(n)));
        let (da, db) = (pv(d[j].a.data@), pv(d[j].b.data@));
        let lhs = nphs(da, db, s); let rhs = padd(bpow(m, bits, j as nat), pzero(n));
        assert forall|i: int| 0 <= i < n implies #[trigger] lhs[i] == rhs[i] by {
            lemma_phase_step(a[i], b[i], x[i], y[i], q[i], s[i]);
            lemma_combine(m0[i], m1[i], q[i], c);
            assert(nphs(a, b, s)[i] == fadd(fmul(m0[i], c), 0));
            assert(nphs(x, y, s)[i] == fadd(fmul(m1[i], c), 0));
            assert(da[i] == (x[i] * q[i] + a[i]) % P()); assert(db[i] == (y[i] * q[i] + b[i]) % P());
        }
        assert(lhs =~= rhs);
    }
}
/// the evaluation key of one ternary coefficient encrypts m0 + m1 * w
pub open spec fn mkey(d: NTTRGSW, l: NTTRGSW, r: NTTRGSW, q: Seq<int>) -> bool {
    mrows(d.c_m.data@, l.c_m.data@, r.c_m.data@, q) && mrows(d.c_neg_s_m.data@, l.c_neg_s_m.data@, r.c_neg_s_m.data@, q) && d.c_m.basis == l.c_m.basis && r.c_m.basis == l.c_m.basis && d.c_neg_s_m.basis == l.c_neg_s_m.basis && r.c_neg_s_m.basis == l.c_neg_s_m.basis
}
pub proof fn lemma_mkey(d: NTTRGSW, l: NTTRGSW, r: NTTRGSW, w: Seq<int>, s: Seq<int>, m0: Seq<int>, m1: Seq<int>)
    requires mkey(d, l, r, ntt(w)), isres(w), isres(s), isres(m0), isres(m1), w.len() == s.len(), m0.len() == s.len(), m1.len() == s.len(), ringn(s.len()), nttrgsww(l, s.len()), nttrgsww(r, s.len()), encx(l, s, m0), encx(r, s, m1),
    ensures encx(d, s, padd(m0, negmul(m1, w))), nttrgsww(d, s.len()), isres(padd(m0, negmul(m1, w))),
{
    axiom_p();
    let n = s.len(); let q = ntt(w);
    axiom_ntt(w, s); axiom_ntt(s, w); axiom_ntt(m1, w); axiom_ntt(m0, w);
    let u = negmul(m1, w);
    axiom_ntt(m0, u);
    let m = padd(m0, u);
    let (S, M0, M1) = (ntt(s), ntt(m0), ntt(m1));
    assert(ntt(m) == padd(M0, pmul(M1, q)));
    lemma_enc_comb(d.c_m.data@, l.c_m.data@, r.c_m.data@, q, S, M0, M1, ntt(m), l.c_m.basis.bits as nat);
    let (n0, n1) = (pneg(pmul(S, M0)), pneg(pmul(S, M1))); let nm = pneg(pmul(S, ntt(m)));
    let x = padd(n0, pmul(n1, q));
    assert forall|i: int| 0 <= i < n implies #[trigger] x[i] == nm[i] by { lemma_combine_neg(S[i], M0[i], M1[i], q[i]); }
    assert(x =~= nm);
    lemma_enc_comb(d.c_neg_s_m.data@, l.c_neg_s_m.data@, r.c_neg_s_m.data@, q, S, n0, n1, nm, l.c_neg_s_m.basis.bits as nat);
    assert forall|j: int| 0 <= j < d.c_m.data@.len() implies #[trigger] nwf(d.c_m.data@[j], n) by { assert(mrow(d.c_m.data@[j], l.c_m.data@[j], r.c_m.data@[j], q)); assert(nwf(l.c_m.data@[j], n)); }
    assert forall|j: int| 0 <= j < d.c_neg_s_m.data@.len() implies #[trigger] nwf(d.c_neg_s_m.data@[j], n) by { assert(mrow(d.c_neg_s_m.data@[j], l.c_neg_s_m.data@[j], r.c_neg_s_m.data@[j], q)); assert(nwf(l.c_neg_s_m.data@[j], n)); }
}
/// X^t (a - b)
proof fn lemma_xsub(a: Seq<int>, b: Seq<int>, t: int)
    requires isres(a), isres(b), a.len() == b.len(), 0 <= t <= 2 * a.len(),
    ensures xmul(psub(a, b), t) == psub(xmul(a, t), xmul(b, t)),
{
    axiom_p();
    let n = a.len() as int;
    let (l, r) = (xmul(psub(a, b), t), psub(xmul(a, t), xmul(b, t)));
    assert forall|k: int| 0 <= k < n implies #[trigger] l[k] == r[k] by {
        let j = if t <= n { if k < t { n - t + k } else { k - t } } else { if k < t - n { 2 * n - t + k } else { k - (t - n) } };
        assert(0 <= j < n);
        lemma_negsub(a[j], b[j]);
    }
    assert(l =~= r);
}
proof fn lemma_negsub(x: int, y: int) ensures fneg(fsub(x, y)) == fsub(fneg(x), fneg(y))
{
    axiom_p();
    let p = P();
    lemma_q(x - y); lemma_q(-x); lemma_q(-y);
    let (a, b, c) = ((x - y) / p, (-x) / p, (-y) / p);
    assert(-((x - y) - p * a) == (((-x) - p * b) - ((-y) - p * c)) + p * (a + b - c)) by (nonlinear_arith);
    lemma_red(-fsub(x, y), fneg(x) - fneg(y), a + b - c);
}
/// a secret coefficient -1: the phase is rotated by X^(2n - r)
proof fn lemma_step_neg(ph: Seq<int>, r: int)
    requires isres(ph), ringn(ph.len()), 0 < r < 2 * ph.len(),
    ensures stepv(ph, pneg(mr(ph.len(), 2 * ph.len() - r)), r) == xmul(ph, 2 * ph.len() - r), isres(pneg(mr(ph.len(), 2 * ph.len() - r))),
{
    axiom_p();
    let n = ph.len(); let t = 2 * n - r;
    lemma_ringpos(n);
    lemma_xmr(ph, r); lemma_xmr(ph, t);
    let x = xmul(ph, r); let d = psub(x, ph); let y = mr(n, t); let w = pneg(y);
    lemma_xmr(d, t); lemma_xmr(x, t);
    lemma_xsub(x, ph, t);
    lemma_xcomp(ph, r, t);
    lemma_mod_self_0(2 * n as int);
    let z = xmul(ph, t);
    assert(xmul(d, t) == psub(ph, z));
    // d * (-y) = -(y * d)
    axiom_ntt(d, w); axiom_ntt(w, d); axiom_ntt(y, d); axiom_ntt(d, y);
    let yd = negmul(y, d);
    axiom_ntt(yd, d); axiom_ntt(pneg(yd), d); axiom_ntt(negmul(d, w), d);
    let (D, Y) = (ntt(d), ntt(y));
    let l = pmul(D, pneg(Y)); let q = pneg(pmul(Y, D));
    assert forall|i: int| 0 <= i < n implies #[trigger] l[i] == q[i] by { lemma_mulneg(D[i], Y[i]); }
    assert(l =~= q);
    assert(negmul(d, w) == pneg(yd));
    let o = padd(ph, pneg(psub(ph, z)));
    assert forall|i: int| 0 <= i < n implies #[trigger] o[i] == z[i] by { lemma_subback(ph[i], z[i]); }
    assert(o =~= z);
}
proof fn lemma_mulneg(d: int, y: int) ensures fmul(d, fneg(y)) == fneg(fmul(y, d))
{
    axiom_p();
    let p = P();
    lemma_q(-y); lemma_q(y * d);
    let (a, b) = ((-y) / p, (y * d) / p);
    assert(d * ((-y) - p * a) == -((y * d) - p * b) + p * (-(d * a) - b)) by (nonlinear_arith);
    lemma_red(d * fneg(y), -fmul(y, d), -(d * a) - b);
}
proof fn lemma_subback(x: int, z: int) requires 0 <= z < P() ensures fadd(x, fneg(fsub(x, z))) == z
{
    axiom_p();
    let p = P();
    lemma_q(x - z); lemma_q(-fsub(x, z));
    let (a, b) = ((x - z) / p, (-fsub(x, z)) / p);
    assert(x + (-((x - z) - p * a) - p * b) == z + p * (a - b)) by (nonlinear_arith);
    lemma_red(x + fneg(fsub(x, z)), z, a - b);
    lemma_small_mod(z as nat, p as nat);
}
pub open spec fn pm(n: nat, on: bool) -> Seq<int> { if on { pone(n) } else { pzero(n) } }
pub open spec fn tkey(key: Seq<(NTTRGSW, NTTRGSW)>, s: Seq<int>, z: Seq<int>, n: nat) -> bool {
    isres(s) && s.len() == n && z.len() == key.len() && forall|i: int| 0 <= i < key.len() ==> -1 <= z[i] <= 1 && encx((#[trigger] key[i]).0, s, pm(n, z[i] == 1)) && encx(key[i].1, s, pm(n, z[i] == -1))
}
pub open spec fn tok(key: Seq<(NTTRGSW, NTTRGSW)>, n: nat, b: Basis) -> bool { forall|i: int| 0 <= i < key.len() ==> nttrgsww((#[trigger] key[i]).0, n) && nttrgsww(key[i].1, n) && key[i].0.c_m.basis == b && key[i].0.c_neg_s_m.basis == b && key[i].1.c_m.basis == b && key[i].1.c_neg_s_m.basis == b }
pub open spec fn ekdim(g: NTTRGSW, n: nat, b: Basis) -> bool { eklen(g.c_m, n, b) && eklen(g.c_neg_s_m, n, b) }
pub open spec fn eklen(g: NTTGadgetRLWE, n: nat, b: Basis) -> bool { g.basis == b && g.data@.len() == b.decompose_len && forall|j: int| 0 <= j < g.data@.len() ==> (#[trigger] g.data@[j]).a.data@.len() == n && g.data@[j].b.data@.len() == n }
/// one secret coefficient of a ternary key
pub proof fn lemma_tern(lut: Seq<int>, acc: RLWE, o: RLWE, ek: NTTRGSW, key: Seq<(NTTRGSW, NTTRGSW)>, s: Seq<int>, z: Seq<int>, b: int, a: Seq<Cm>, k: nat, bs: Basis)
    requires isres(lut), rn(acc) == lut.len(), ringn(rn(acc)), rwf(acc, rn(acc)), k < key.len(), a.len() == key.len(), tok(key, rn(acc), bs), tkey(key, s, z, rn(acc)), cv(a[k as int]) < 2 * rn(acc),
        rph(acc, s) == xmul(lut, rot(lut.len() as int, b, a, z, k)),
        if cv(a[k as int]) == 0 { o == acc } else { stepped(o, acc, ek, cv(a[k as int]) as int) && mkey(ek, key[k as int].0, key[k as int].1, ntt(pneg(mr(rn(acc), 2 * rn(acc) - cv(a[k as int]))))) },
    ensures rph(o, s) == xmul(lut, rot(lut.len() as int, b, a, z, k + 1)),
{
    axiom_p();
    let n = rn(acc); let r = cv(a[k as int]) as int; let zk = z[k as int];
    lemma_ringpos(n);
    assert(encx(key[k as int].0, s, pm(n, zk == 1)) && encx(key[k as int].1, s, pm(n, zk == -1)));
    assert(nttrgsww(key[k as int].0, n) && nttrgsww(key[k as int].1, n));
    lemma_rotstep(n as int, b, a, z, k);
    if r > 0 {
        let (m0, m1) = (pm(n, zk == 1), pm(n, zk == -1)); let t = 2 * n - r; let w = pneg(mr(n, t));
        lemma_one(lut); lemma_mulzero(lut); lemma_xmr(lut, t);
        assert(isres(w));
        lemma_mkey(ek, key[k as int].0, key[k as int].1, w, s, m0, m1);
        let m = padd(m0, negmul(m1, w));
        lemma_step(acc, o, ek, s, m, r);
        let ph = rph(acc, s);
        lemma_one(w); lemma_mulzero(w); lemma_negmul_comm(m1, w);
        assert(m =~= (if zk == -1 { w } else { m0 })) by {
            assert forall|i: int| 0 <= i < n implies fadd(m0[i], 0) == m0[i] && fadd(0, w[i]) == w[i] by { assert(isres(m0)); lemma_small_mod(m0[i] as nat, P() as nat); lemma_small_mod(w[i] as nat, P() as nat); }
        }
        lemma_step_one(ph, r); lemma_step_zero(ph, r); lemma_step_neg(ph, r);
        lemma_xcomp(lut, rot(n as int, b, a, z, k), r);
        lemma_xcomp(lut, rot(n as int, b, a, z, k), t as int);
    }
}
/// constant coefficient of the look-up polynomial rotated by the phase m
pub proof fn lemma_const(a: Seq<int>, m: int)
    requires isres(a), a.len() > 0, 0 <= m < 2 * a.len(),
    ensures xmul(a, (2 * a.len() - m) % (2 * a.len() as int))[0] == if m < a.len() { a[m] } else { fneg(a[m - a.len()]) },
{
    let n = a.len() as int;
    if m == 0 { lemma_mod_self_0(2 * n); } else { lemma_small_mod((2 * n - m) as nat, (2 * n) as nat); }
    if m == n { lemma_negneg(a[0]); }
}
