pub open spec fn rwf(c: RLWE, n: nat) -> bool { wf(c.a.data@) && wf(c.b.data@) && c.a.data@.len() == n && c.b.data@.len() == n }
pub open spec fn nwf(c: NTTRLWE, n: nat) -> bool { wf(c.a.data@) && wf(c.b.data@) && c.a.data@.len() == n && c.b.data@.len() == n }
pub open spec fn nlz(c: NTTRLWE, n: nat) -> bool { lz(c.a.data@) && lz(c.b.data@) && c.a.data@.len() == n && c.b.data@.len() == n }
pub open spec fn rn(c: RLWE) -> nat { c.a.data@.len() }
pub open spec fn nn(c: NTTRLWE) -> nat { c.a.data@.len() }
/// phase b - a s of a ring ciphertext
pub open spec fn rph(c: RLWE, s: Seq<int>) -> Seq<int> { psub(pv(c.b.data@), negmul(pv(c.a.data@), s)) }
/// the secret seen by the reverse extraction: s_0, -s_(n-1), ..., -s_1
pub open spec fn srev(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| if i == 0 { s[0] } else { -s[s.len() - i] }) }
/// l is the LWE form of coefficient 0 of c: mask a_0, -a_(n-1), ...
pub open spec fn exmask(l: Seq<Fe>, a: Seq<Fe>) -> bool {
    l.len() == a.len() && forall|i: int| 0 <= i < l.len() ==> fv(#[trigger] l[i]) == (if i == 0 { fv(a[0]) } else { fneg(fv(a[a.len() - i])) })
}
proof fn lemma_ex_dot(l: Seq<int>, a: Seq<int>, s: Seq<int>, m: nat)
    requires a.len() == s.len(), l.len() == a.len(), 0 < a.len(), m <= a.len(), forall|i: int| 0 <= i < l.len() ==> cg(#[trigger] l[i], if i == 0 { a[0] } else { -a[a.len() - i] }),
    ensures cg(dotp(l, s, m), nsum(s, a, 0, m)), decreases m,
{
    if m == 0 { cg_mod(0); } else {
        lemma_ex_dot(l, a, s, (m - 1) as nat);
        let i = m - 1;
        let v = if i == 0 { a[0] } else { -a[a.len() - i] };
        assert(cg(l[i], v));
        cg_mul(l[i], v, s[i]);
        cg_add(dotp(l, s, (m - 1) as nat), nsum(s, a, 0, (m - 1) as nat), l[i] * s[i], v * s[i]);
        if i == 0 { assert(v * s[i] == s[i] * a[0]) by (nonlinear_arith) requires v == a[0]; }
        else { let (x, y) = (s[i], a[a.len() - i]); assert((-y) * x == -(x * y)) by (nonlinear_arith); assert(s.len() + 0 - i == a.len() - i); }
    }
}
pub proof fn lemma_extract(l: LWE, c: RLWE, s: Seq<int>)
    requires exmask(l.a@, c.a.data@), l.b == c.b.data@[0], rwf(c, s.len()), s.len() > 0,
    ensures ph(l, s) == rph(c, s)[0],
{
    let (la, a) = (pv(l.a@), pv(c.a.data@));
    axiom_p();
    assert forall|i: int| 0 <= i < la.len() implies cg(#[trigger] la[i], if i == 0 { a[0] } else { -a[a.len() - i] }) by {
        assert(la[i] == fv(l.a@[i])); cg_mod(a[0]); if i > 0 { assert(a[a.len() - i] == fv(c.a.data@[c.a.data@.len() - i])); cg_mod(-a[a.len() - i]); }
    }
    lemma_ex_dot(la, a, s, a.len());
    lemma_nsum_comm(a, s, 0);
    fin(fv(l.b), dotp(la, s, a.len()), nsum(a, s, 0, a.len()));
}
proof fn fin(b: int, d: int, m: int) requires cg(d, m) ensures (b - d) % P() == fsub(b, m % P())
{ cg_mod(m); cg_mod(b); cg_trans(d, m, m % P()); cg_add(b, b, d, m % P()); lemma_cg(b - d, b - m % P()); }
/// the reversed secret pairs a_i with s_(n-i)
proof fn lemma_exr_dot(a: Seq<int>, s: Seq<int>, m: nat)
    requires a.len() == s.len(), 0 < a.len(), m <= a.len(),
    ensures dotp(a, srev(s), m) == nsum(a, s, 0, m), decreases m,
{
    if m > 0 {
        lemma_exr_dot(a, s, (m - 1) as nat);
        let i = m - 1;
        let (x, y) = (a[i], if i == 0 { s[0] } else { s[s.len() - i] });
        assert(x * (-y) == -(x * y)) by (nonlinear_arith);
    }
}
pub proof fn lemma_extract_rev(l: LWE, c: RLWE, s: Seq<int>)
    requires l.a@ == c.a.data@, l.b == c.b.data@[0], rwf(c, s.len()), s.len() > 0,
    ensures ph(l, srev(s)) == rph(c, s)[0],
{
    let a = pv(c.a.data@);
    lemma_exr_dot(a, s, a.len());
    cg_mod(nsum(a, s, 0, a.len()));
    fin(fv(l.b), dotp(a, srev(s), a.len()), nsum(a, s, 0, a.len()));
}
/// entries of the secret beyond d vanish: so does their part of the inner product
pub proof fn lemma_dot_trunc(a: Seq<int>, s: Seq<int>, d: nat, m: nat)
    requires d <= m <= s.len(), m <= a.len(), forall|i: int| d <= i < s.len() ==> #[trigger] s[i] == 0,
    ensures dotp(a, s, m) == dotp(a.take(d as int), s.take(d as int), d), decreases m,
{
    if m == d { lemma_dot_take(a, s, d, d); } else {
        lemma_dot_trunc(a, s, d, (m - 1) as nat);
        let x = a[m - 1];
        assert(s[m - 1] == 0); assert(x * 0 == 0);
    }
}
proof fn lemma_dot_take(a: Seq<int>, s: Seq<int>, d: nat, m: nat) requires m <= d <= a.len(), d <= s.len() ensures dotp(a, s, m) == dotp(a.take(d as int), s.take(d as int), m) decreases m
{ if m > 0 { lemma_dot_take(a, s, d, (m - 1) as nat); } }
/// truncation to d entries keeps the phase under secrets supported on the first d
pub proof fn lemma_trunc(l: LWE, f: LWE, s: Seq<int>, d: nat)
    requires l.a@ == f.a@.take(d as int), d <= f.a@.len(), l.b == f.b, s.len() == f.a@.len(), forall|i: int| d <= i < s.len() ==> #[trigger] s[i] == 0,
    ensures ph(l, s.take(d as int)) == ph(f, s),
{
    lemma_dot_trunc(pv(f.a@), s, d, s.len());
    assert(pv(l.a@) =~= pv(f.a@).take(d as int));
}
/// std: v[k..].reverse()
#[verifier::external_body]
pub fn vrev_from(v: &mut Vec<Fe>, k: usize) requires k <= old(v)@.len() ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if i < k { old(v)@[i] } else { old(v)@[old(v)@.len() - 1 - (i - k)] }), { v[k..].reverse() }
