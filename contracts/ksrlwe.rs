/// std: chunks_exact, next_power_of_two, reversal of a tail
#[verifier::external_body]
fn vchunks0<'a>(x: &'a [Fe], n: usize) -> (r: Vec<&'a [Fe]>) requires n > 0 ensures r@.len() == x@.len() / (n as nat), forall|c: int| 0 <= c < r@.len() ==> (#[trigger] r@[c])@ == x@.subrange(c * n, (c + 1) * n) { x.chunks_exact(n).collect() }
pub fn vchunks<'a>(x: &'a [Fe], n: usize) -> (r: Vec<&'a [Fe]>)
    requires n > 0
    ensures r@.len() == x@.len() / (n as nat), forall|c: int| 0 <= c < r@.len() ==> (#[trigger] r@[c])@ == x@.subrange(c * n, (c + 1) * n) && r@[c]@.len() == n && (wf(x@) ==> wf(r@[c]@)),
{
    let r = vchunks0(x, n);
    proof {
        lemma_fundamental_div_mod(x@.len() as int, n as int); lemma_mod_bound(x@.len() as int, n as int);
        assert forall|c: int| 0 <= c < r@.len() implies (#[trigger] r@[c])@ == x@.subrange(c * n, (c + 1) * n) && r@[c]@.len() == n && (wf(x@) ==> wf(r@[c]@)) by { lemma_chunkin(c, r@.len() as int, n as int); assert((n as int) * (r@.len() as int) == (r@.len() as int) * (n as int)) by (nonlinear_arith); }
    }
    r
}
/// the values of the chunks
pub open spec fn its(x: Seq<&[Fe]>) -> Seq<Seq<int>> { Seq::new(x.len(), |c: int| pv(x[c]@)) }
pub open spec fn itw(x: Seq<&[Fe]>, m: nat) -> bool { forall|c: int| 0 <= c < x.len() ==> wf((#[trigger] x[c])@) && x[c]@.len() == m }
/// chunk c of the prepared mask is the polynomial of chunk c of the LWE mask x
pub open spec fn chk(a: Seq<Fe>, x: Seq<int>, m: nat, c: int) -> bool { wf(a.subrange(c * m, (c + 1) * m)) && pv(a.subrange(c * m, (c + 1) * m)) == pch(x, m, c) }
pub open spec fn same(a: Seq<Fe>, b: Seq<Fe>, m: nat, c: int) -> bool { a.subrange(c * m, (c + 1) * m) == b.subrange(c * m, (c + 1) * m) }
/// replacing chunk i leaves the other chunks alone
pub proof fn lemma_chunkset(a: Seq<Fe>, f: Seq<Fe>, b: Seq<Fe>, m: nat, n: nat, i: int)
    requires 0 <= i < n, m >= 1, a.len() == n * m, f.len() == m, b == a.subrange(0, i * m) + f + a.subrange((i + 1) * m, a.len() as int),
    ensures b.len() == a.len(), b.subrange(i * m, (i + 1) * m) == f, forall|c: int| 0 <= c < n && c != i ==> #[trigger] b.subrange(c * m, (c + 1) * m) == a.subrange(c * m, (c + 1) * m),
{
    lemma_chunkin(i, n as int, m as int);
    assert(b.subrange(i * m, (i + 1) * m) =~= f);
    assert forall|c: int| 0 <= c < n && c != i implies #[trigger] b.subrange(c * m, (c + 1) * m) == a.subrange(c * m, (c + 1) * m) by {
        lemma_chunkin(c, n as int, m as int);
        if c < i { lemma_chunkin(c, i, m as int); } else { lemma_chunkin(i, c, m as int); }
        assert(b.subrange(c * m, (c + 1) * m) =~= a.subrange(c * m, (c + 1) * m));
    }
}
pub proof fn lemma_allchk(a: Seq<Fe>, x: Seq<int>, m: nat, n: nat, it: Seq<&[Fe]>)
    requires forall|c: int| 0 <= c < n ==> #[trigger] chk(a, x, m, c), it.len() == n, forall|c: int| 0 <= c < n ==> (#[trigger] it[c])@ == a.subrange(c * m, (c + 1) * m),
    ensures its(it) == pchs(x, m, n),
{ assert forall|c: int| 0 <= c < n implies #[trigger] its(it)[c] == pchs(x, m, n)[c] by { assert(chk(a, x, m, c)); } assert(its(it) =~= pchs(x, m, n)); }
pub proof fn lemma_allwf(a: Seq<Fe>, x: Seq<int>, m: nat, n: nat) requires m >= 1, a.len() == n * m, forall|c: int| 0 <= c < n ==> #[trigger] chk(a, x, m, c) ensures wf(a)
{
    assert forall|i: int| 0 <= i < a.len() implies canon(#[trigger] a[i]) by {
        let c = i / (m as int); let j = i % (m as int);
        lemma_fundamental_div_mod(i, m as int); lemma_mod_bound(i, m as int); lemma_div_pos_is_pos(i, m as int);
        assert(c < n) by (nonlinear_arith) requires i == (m as int) * c + j, 0 <= j, i < (n as int) * (m as int), m >= 1;
        lemma_chunkin(c, n as int, m as int); assert(chk(a, x, m, c)); assert(a.subrange(c * m, (c + 1) * m)[j] == a[i]) by { assert((m as int) * c == c * (m as int)) by (nonlinear_arith); }
    }
}
/// chunk i of the mask after the ring preparation (leading negation and reversal done)
pub proof fn lemma_ringchunk(a: Seq<Fe>, f: Seq<Fe>, x: Seq<int>, m: nat, n: nat, i: int)
    requires 0 <= i < n, m >= 1, a.len() == n * m, x.len() == n * m, isres(x), wf(a), forall|j: int| 0 <= j < a.len() ==> fv(#[trigger] a[j]) == fneg(x[j]), f.len() == m, canon(f[0]), fv(f[0]) == fneg(fv(a[i * m])), forall|j: int| 1 <= j < m ==> #[trigger] f[j] == a[i * m + m - j],
    ensures wf(f), pv(f) == pch(x, m, i),
{
    lemma_chunkin(i, n as int, m as int);
    lemma_fnn(x[i * m]);
    assert forall|j: int| 0 <= j < m implies canon(#[trigger] f[j]) && fv(f[j]) == pch(x, m, i)[j] by { if j > 0 { assert(f[j] == a[i * m + m - j]); } }
    assert(pv(f) =~= pch(x, m, i));
}
pub proof fn lemma_exm1(a: Seq<Fe>, b: Seq<Fe>) requires wf(a), a.len() == b.len(), a.len() > 0, canon(b[0]), fv(b[0]) == fneg(fv(a[0])), forall|j: int| 1 <= j < a.len() ==> #[trigger] b[j] == a[a.len() - j]
    ensures wf(b), isres(exm(pv(a))), forall|j: int| 0 <= j < b.len() ==> fv(#[trigger] b[j]) == fneg(exm(pv(a))[j])
{
    lemma_pv(a); axiom_p();
    assert forall|j: int| 0 <= j < b.len() implies canon(#[trigger] b[j]) && fv(b[j]) == fneg(exm(pv(a))[j]) by { if j > 0 { assert(b[j] == a[a.len() - j]); lemma_fnn(pv(a)[a.len() - j]); } }
    lemma_exmres(a);
}
pub proof fn lemma_exmres(a: Seq<Fe>) requires wf(a) ensures isres(exm(pv(a)))
{ lemma_pv(a); axiom_p(); assert forall|j: int| 0 <= j < a.len() implies 0 <= #[trigger] exm(pv(a))[j] < P() by { if j > 0 { lemma_mod_bound(-pv(a)[a.len() - j], P()); } } }
pub proof fn lemma_exm0(a: Seq<Fe>) requires wf(a), a.len() > 0 ensures isres(exm(pv(a))), chk(a, exm(pv(a)), a.len(), 0)
{
    lemma_pv(a); lemma_exmres(a); let x = exm(pv(a)); let m = a.len();
    assert(0 * m == 0 && 1 * m == m);
    assert(a.subrange(0, m as int) =~= a);
    assert forall|j: int| 0 <= j < m implies #[trigger] pv(a)[j] == pch(x, m, 0)[j] by { if j > 0 { lemma_fnn(pv(a)[j]); } }
    assert(pv(a) =~= pch(x, m, 0));
}
pub proof fn lemma_lwechunk(a: Seq<Fe>, f: Seq<Fe>, m: nat, n: nat, i: int)
    requires 0 <= i < n, m >= 1, a.len() == n * m, wf(a), f.len() == m, f[0] == a[i * m], forall|j: int| 1 <= j < m ==> canon(#[trigger] f[j]) && fv(f[j]) == fneg(fv(a[i * m + m - j])),
    ensures wf(f), pv(f) == pch(pv(a), m, i),
{
    lemma_chunkin(i, n as int, m as int);
    assert forall|j: int| 0 <= j < m implies canon(#[trigger] f[j]) && fv(f[j]) == pch(pv(a), m, i)[j] by { }
    assert(pv(f) =~= pch(pv(a), m, i));
}
#[verifier::external_body]
pub fn vchunk_mut(v: &mut [Fe], i: usize, n: usize) -> (r: &mut [Fe])
    requires n > 0, (i + 1) * n <= old(v)@.len(),
    ensures r@ == old(v)@.subrange(i * n, (i + 1) * n), final(r)@.len() == n, final(v)@ == old(v)@.subrange(0, i * n) + final(r)@ + old(v)@.subrange((i + 1) * n, old(v)@.len() as int),
{ &mut v[i * n..(i + 1) * n] }
/// the least power of two not below n
pub uninterp spec fn np2(n: nat) -> nat;
#[verifier::external_body]
pub fn vnp2(n: usize) -> (r: usize) ensures r == np2(n as nat) { n.next_power_of_two() }
#[verifier::external_body]
pub fn vrevs(x: &mut [Fe], k: usize) requires k <= old(x)@.len() ensures final(x)@.len() == old(x)@.len(), forall|i: int| 0 <= i < old(x)@.len() ==> #[trigger] final(x)@[i] == old(x)@[if i < k { i } else { old(x)@.len() + k - 1 - i }] { x[k..].reverse() }
// ---- key switching with ring rows --------------------------------------------------------------
/// dimension of the destination ring, number of chunks
pub open spec fn kdim(k: KeySwitchingRLWEKey) -> nat { np2(k.lwe_dimension as nat) }
pub open spec fn kwf(k: KeySwitchingRLWEKey) -> bool { ringn(kdim(k)) && kdim(k) >= 1 && k.lwe_dimension <= kdim(k) && forall|c: int| 0 <= c < k.key@.len() ==> ng(#[trigger] k.key@[c], kdim(k)) }
/// the two components after the first c chunks ps of the mask have been subtracted
pub open spec fn kacca(k: KeySwitchingRLWEKey, a: Seq<int>, ps: Seq<Seq<int>>, c: nat) -> Seq<int> decreases c
{ if c == 0 { a } else { ngp(kacca(k, a, ps, (c - 1) as nat), a, k.key@[c - 1], pneg(ps[c - 1])).0 } }
pub open spec fn kaccb(k: KeySwitchingRLWEKey, b: Seq<int>, ps: Seq<Seq<int>>, c: nat) -> Seq<int> decreases c
{ if c == 0 { b } else { ngp(b, kaccb(k, b, ps, (c - 1) as nat), k.key@[c - 1], pneg(ps[c - 1])).1 } }
/// the rows of the key encrypt, under s, the chunks of the extended secret zz times powers of the base, with row errors e
pub open spec fn kenc(k: KeySwitchingRLWEKey, s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>) -> bool {
    s.len() == kdim(k) && isres(s) && (forall|i: int| k.lwe_dimension <= i < s.len() ==> #[trigger] s[i] == 0) && isres(zz) && zz.len() == k.key@.len() * kdim(k) && e.len() == k.key@.len()
        && forall|c: int| 0 <= c < k.key@.len() ==> cenc(#[trigger] k.key@[c], s, zz.subrange(c * kdim(k), (c + 1) * kdim(k)), e[c])
}
pub open spec fn cenc(g: NTTGadgetRLWE, s: Seq<int>, z: Seq<int>, e: Seq<Seq<int>>) -> bool { enc(na(g.data@), nb(g.data@), ntt(s), ntt(z), e, g.basis.bits as nat) }
/// what chunk c adds to the constant coefficient of the phase through the row errors: sum over digits of digit polynomial times row error
pub open spec fn cnoise(g: NTTGadgetRLWE, p: Seq<int>, e: Seq<Seq<int>>) -> int { intt(gnoise(e, pneg(p), g.basis.bits as nat, g.data@.len()))[0] }
pub open spec fn knoise(k: KeySwitchingRLWEKey, ps: Seq<Seq<int>>, e: Seq<Seq<Seq<int>>>, c: nat) -> int decreases c
{ if c == 0 { 0 } else { knoise(k, ps, e, (c - 1) as nat) + cnoise(k.key@[c - 1], ps[c - 1], e[c - 1]) } }
/// chunk c of an LWE mask as a polynomial: x_0, -x_(m-1), ..., -x_1
pub open spec fn pch(a: Seq<int>, m: nat, c: int) -> Seq<int> { Seq::new(m, |j: int| if j == 0 { a[c * m] } else { fneg(a[c * m + m - j]) }) }
pub open spec fn pchs(a: Seq<int>, m: nat, k: nat) -> Seq<Seq<int>> { Seq::new(k, |c: int| pch(a, m, c)) }
/// the mask of the LWE form of coefficient 0
pub open spec fn exm(a: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| if i == 0 { a[0] } else { fneg(a[a.len() - i]) }) }
pub open spec fn chunks_are(ps: Seq<Seq<int>>, m: nat) -> bool { forall|c: int| 0 <= c < ps.len() ==> isres(#[trigger] ps[c]) && ps[c].len() == m }
proof fn lemma_pneg(p: Seq<int>) ensures isres(pneg(p)), pneg(p).len() == p.len() { axiom_p(); assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] pneg(p)[i] < P() by { lemma_mod_bound(-p[i], P()); } }
proof fn lemma_psum(x: Seq<int>, y: Seq<int>) requires x.len() == y.len() ensures isres(padd(x, y)), padd(x, y).len() == x.len() { axiom_p(); assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] padd(x, y)[i] < P() by { lemma_mod_bound(x[i] + y[i], P()); } }
proof fn lemma_nph(a: Seq<int>, b: Seq<int>, s: Seq<int>) ensures isres(nphs(a, b, s)), nphs(a, b, s).len() == b.len() { axiom_p(); assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] nphs(a, b, s)[i] < P() by { lemma_mod_bound(b[i] - pmul(a, s)[i], P()); } }
proof fn lemma_negmul_res(x: Seq<int>, y: Seq<int>) ensures isres(negmul(x, y)), negmul(x, y).len() == x.len() { axiom_p(); assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] negmul(x, y)[i] < P() by { lemma_mod_bound(nsum(x, y, i, x.len()), P()); } }
pub proof fn lemma_kacc_len(k: KeySwitchingRLWEKey, a: Seq<int>, b: Seq<int>, ps: Seq<Seq<int>>, c: nat) ensures kacca(k, a, ps, c).len() == a.len(), kaccb(k, b, ps, c).len() == b.len() decreases c
{
    if c > 0 {
        lemma_kacc_len(k, a, b, ps, (c - 1) as nat);
        let g = k.key@[c - 1];
        lemma_gacc_len(kacca(k, a, ps, (c - 1) as nat), na(g.data@), pneg(ps[c - 1]), g.basis.bits as nat, g.data@.len());
        lemma_gacc_len(kaccb(k, b, ps, (c - 1) as nat), nb(g.data@), pneg(ps[c - 1]), g.basis.bits as nat, g.data@.len());
    }
}
/// constant coefficient of the phase after c chunks
pub open spec fn ksum(k: KeySwitchingRLWEKey, t: int, zz: Seq<int>, ps: Seq<Seq<int>>, c: nat) -> int decreases c
{ if c == 0 { t } else { ksum(k, t, zz, ps, (c - 1) as nat) + negmul(pneg(ps[c - 1]), zz.subrange((c - 1) * kdim(k), (c * kdim(k)) as int))[0] } }
proof fn lemma_chunkin(c: int, n: int, m: int) requires 0 <= c < n, m >= 0 ensures 0 <= c * m, (c + 1) * m == c * m + m, (c + 1) * m <= n * m
{ assert(0 <= c * m && (c + 1) * m == c * m + m && (c + 1) * m <= n * m) by (nonlinear_arith) requires 0 <= c < n, m >= 0; }
proof fn lemma_kphase(k: KeySwitchingRLWEKey, a: Seq<int>, b: Seq<int>, ps: Seq<Seq<int>>, s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>, t: Seq<int>, c: nat) -> (r: Seq<int>)
    requires kwf(k), kenc(k, s, zz, e), chunks_are(ps, kdim(k)), c <= k.key@.len(), c <= ps.len(), a.len() == kdim(k), b.len() == kdim(k), isres(t), t.len() == kdim(k), nphs(a, b, ntt(s)) == ntt(t),
    ensures isres(r), r.len() == kdim(k), nphs(kacca(k, a, ps, c), kaccb(k, b, ps, c), ntt(s)) == ntt(r), cg(r[0], ksum(k, t[0], zz, ps, c) + knoise(k, ps, e, c)),
    decreases c,
{
    let m = kdim(k);
    if c == 0 { cg_mod(t[0]); t } else {
        let d = (c - 1) as nat;
        let r0 = lemma_kphase(k, a, b, ps, s, zz, e, t, d);
        let g = k.key@[d as int]; let p = pneg(ps[d as int]); let z = zz.subrange((d * m) as int, ((d + 1) * m) as int);
        let bits = g.basis.bits as nat; let len = g.data@.len();
        lemma_chunkin(d as int, k.key@.len() as int, m as int);
        assert(ng(g, m)); assert(cenc(g, s, z, e[d as int]));
        lemma_pneg(ps[d as int]); lemma_kacc_len(k, a, b, ps, d); axiom_ntt(s, s);
        assert(isres(z));
        axiom_ntt(z, z);
        let (a0, b0) = (kacca(k, a, ps, d), kaccb(k, b, ps, d));
        lemma_gadget_phase(a0, b0, na(g.data@), nb(g.data@), p, ntt(s), ntt(z), e[d as int], bits);
        let n = gnoise(e[d as int], p, bits, len);
        assert(isres(pzero(m))) by { axiom_p(); }
        lemma_gacc_res(pzero(m), e[d as int], p, bits, len);
        axiom_ntt(n, n);
        let u = negmul(p, z); let w = intt(n); let q = padd(u, w); let r = padd(r0, q);
        lemma_negmul_res(p, z); lemma_psum(u, w); lemma_psum(r0, q);
        axiom_ntt(p, z); axiom_ntt(u, w); axiom_ntt(r0, q);
        assert(ntt(r) == padd(ntt(r0), padd(pmul(ntt(p), ntt(z)), n)));
        cg_mod(u[0] + w[0]); cg_mod(r0[0] + q[0]); cg_mod(r0[0]);
        cg_add(r0[0], r0[0], q[0], u[0] + w[0]); cg_trans(r[0], r0[0] + q[0], r0[0] + (u[0] + w[0]));
        cg_mod(u[0] + w[0]);
        cg_add(r0[0], ksum(k, t[0], zz, ps, d) + knoise(k, ps, e, d), u[0] + w[0], u[0] + w[0]);
        cg_trans(r[0], r0[0] + (u[0] + w[0]), ksum(k, t[0], zz, ps, d) + knoise(k, ps, e, d) + (u[0] + w[0]));
        assert(w[0] == cnoise(g, ps[d as int], e[d as int]));
        r
    }
}
/// a chunk of the mask against a chunk of the secret
proof fn lemma_chunkdot(a: Seq<int>, zz: Seq<int>, m: nat, c: int)
    requires isres(a), isres(zz), m >= 1, c >= 0, (c + 1) * m <= a.len(), a.len() == zz.len(), ringn(m),
    ensures cg(negmul(pneg(pch(a, m, c)), zz.subrange(c * m, (c + 1) * m))[0], -dotp(a.subrange(c * m, (c + 1) * m), zz.subrange(c * m, (c + 1) * m), m)),
{
    axiom_p();
    lemma_chunkin(c, c + 1, m as int);
    let x = a.subrange(c * m, (c + 1) * m); let z = zz.subrange(c * m, (c + 1) * m); let p = pch(a, m, c); let q = pneg(p);
    assert forall|i: int| 0 <= i < m implies cg(#[trigger] x[i], if i == 0 { p[0] } else { -p[m - i] }) by {
        if i == 0 { cg_mod(x[0]); } else {
            assert(p[m - i] == fneg(x[i]));
            cg_mod(-x[i]); cg_mod(0); cg_mod(-p[m - i]);
            cg_add(0, 0, -x[i], p[m - i]);
            lemma_cg(-x[i], p[m - i]); cg_add(0, 0, p[m - i], -x[i]); lemma_cg(-p[m - i], x[i]); assert(0 - (-x[i]) == x[i]); assert(0 - p[m - i] == -p[m - i]);
        }
    }
    lemma_ex_dot(x, p, z, m);
    lemma_negdot(z, p, m);
    let (d, n1, n2) = (dotp(x, z, m), nsum(z, p, 0, m), nsum(z, q, 0, m));
    cg_mod(0); cg_add(0, 0, d, n1); lemma_cg(-d, -n1);
    assert(0 - d == -d && 0 - n1 == -n1);
    cg_trans(n2, -n1, -d);
    lemma_negmul_comm(q, z);
    cg_mod(n2); cg_trans(n2 % P(), n2, -d);
    assert(negmul(z, q)[0] == n2 % P());
}
proof fn lemma_negdot(z: Seq<int>, p: Seq<int>, m: nat)
    requires z.len() == p.len(), m <= z.len(), p.len() > 0,
    ensures cg(nsum(z, pneg(p), 0, m), -nsum(z, p, 0, m)), decreases m,
{
    cg_mod(0);
    if m > 0 {
        lemma_negdot(z, p, (m - 1) as nat);
        let i = m - 1; let q = pneg(p);
        let j = if i == 0 { 0 } else { p.len() - i };
        cg_mod(-p[j]); cg_mul(q[j], -p[j], z[i]);
        let (zi, pj) = (z[i], p[j]);
        assert(zi * (-pj) == -(zi * pj)) by (nonlinear_arith);
        let (n1, n2) = (nsum(z, q, 0, (m - 1) as nat), -nsum(z, p, 0, (m - 1) as nat));
        cg_add(n1, n2, z[i] * q[j], -(zi * pj));
        assert(z.len() + 0 - i == p.len() - i);
    }
}
/// the inner product, chunk by chunk
pub open spec fn cdot(a: Seq<int>, zz: Seq<int>, m: nat, c: nat) -> int decreases c { if c == 0 { 0 } else { cdot(a, zz, m, (c - 1) as nat) + dotp(a.subrange((c - 1) * m, (c * m) as int), zz.subrange((c - 1) * m, (c * m) as int), m) } }
proof fn lemma_dotcat(a: Seq<int>, z: Seq<int>, lo: nat, k: nat)
    requires lo + k <= a.len(), a.len() == z.len(),
    ensures forall|hi: int| lo + k <= hi <= a.len() ==> dotp(a, z, (lo + k) as nat) == dotp(a, z, lo) + #[trigger] dotp(a.subrange(lo as int, hi), z.subrange(lo as int, hi), k), decreases k,
{
    if k > 0 { lemma_dotcat(a, z, lo, (k - 1) as nat); assert forall|hi: int| lo + k <= hi <= a.len() implies dotp(a, z, (lo + k) as nat) == dotp(a, z, lo) + #[trigger] dotp(a.subrange(lo as int, hi), z.subrange(lo as int, hi), k) by { let x = a.subrange(lo as int, hi); let y = z.subrange(lo as int, hi); assert(x[k - 1] == a[lo + k - 1]); assert(dotp(x, y, (k - 1) as nat) + dotp(a, z, lo) == dotp(a, z, (lo + k - 1) as nat)); } }
}
proof fn lemma_cdot(a: Seq<int>, z: Seq<int>, m: nat, c: nat) requires c * m <= a.len(), a.len() == z.len() ensures cdot(a, z, m, c) == dotp(a, z, (c * m) as nat) decreases c
{
    if c > 0 {
        let d = (c - 1) as nat;
        lemma_chunkin(d as int, c as int, m as int);
        lemma_cdot(a, z, m, d); lemma_dotcat(a, z, (d * m) as nat, m);
        assert(dotp(a.subrange((d * m) as int, (c * m) as int), z.subrange((d * m) as int, (c * m) as int), m) + dotp(a, z, (d * m) as nat) == dotp(a, z, (d * m + m) as nat));
    } else { assert(0 * m == 0); }
}
proof fn lemma_ksum(k: KeySwitchingRLWEKey, t: int, a: Seq<int>, zz: Seq<int>, c: nat)
    requires kwf(k), isres(a), isres(zz), a.len() == zz.len(), zz.len() == k.key@.len() * kdim(k), c <= k.key@.len(),
    ensures cg(ksum(k, t, zz, pchs(a, kdim(k), k.key@.len()), c), t - cdot(a, zz, kdim(k), c)), decreases c,
{
    cg_mod(t);
    if c > 0 {
        let d = (c - 1) as nat; let m = kdim(k); let ps = pchs(a, m, k.key@.len());
        lemma_ksum(k, t, a, zz, d);
        lemma_chunkin(d as int, k.key@.len() as int, m as int);
        lemma_chunkdot(a, zz, m, d as int);
        let u = negmul(pneg(ps[d as int]), zz.subrange((d * m) as int, ((d + 1) * m) as int))[0];
        let v = dotp(a.subrange((d * m) as int, ((d + 1) * m) as int), zz.subrange((d * m) as int, ((d + 1) * m) as int), m);
        cg_add(ksum(k, t, zz, ps, d), t - cdot(a, zz, m, d), u, -v);
    }
}
/// the phase after switching: the phase before, plus the row errors weighted by the digits
pub open spec fn switched(k: KeySwitchingRLWEKey, a: Seq<int>, b: int, r: LWE, s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>) -> bool {
    ph(r, s.take(k.lwe_dimension as int)) == (phase(a, b, zz) + knoise(k, pchs(a, kdim(k), k.key@.len()), e, k.key@.len())) % P()
}
pub open spec fn swall(k: KeySwitchingRLWEKey, a: Seq<int>, b: int, r: LWE) -> bool {
    lwf(r) && r.a@.len() == k.lwe_dimension && forall|s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>| #[trigger] kenc(k, s, zz, e) ==> switched(k, a, b, r, s, zz, e)
}
pub open spec fn cst(n: nat, b: int) -> Seq<int> { Seq::new(n, |i: int| b) }
/// the phase of the accumulated ciphertext, before extraction
pub open spec fn kph(k: KeySwitchingRLWEKey, a0: Seq<int>, b0: Seq<int>, ps: Seq<Seq<int>>, s: Seq<int>) -> Seq<int> { psub(intt(kaccb(k, b0, ps, ps.len())), negmul(intt(kacca(k, a0, ps, ps.len())), s)) }
/// key_switch_inner started from a trivial ciphertext of b, on the chunks of a
pub proof fn lemma_switch(k: KeySwitchingRLWEKey, a: Seq<int>, b: int, r: LWE, s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>)
    requires kwf(k), kenc(k, s, zz, e), isres(a), a.len() == k.key@.len() * kdim(k), 0 <= b < P(), lwf(r), r.a@.len() == k.lwe_dimension,
        ph(r, s.take(k.lwe_dimension as int)) == kph(k, pzero(kdim(k)), cst(kdim(k), b), pchs(a, kdim(k), k.key@.len()), s)[0],
    ensures switched(k, a, b, r, s, zz, e),
{
    axiom_p();
    let m = kdim(k); let ps = pchs(a, m, k.key@.len()); let n = k.key@.len();
    assert(chunks_are(ps, m)) by { assert forall|c: int| 0 <= c < ps.len() implies isres(#[trigger] ps[c]) && ps[c].len() == m by { lemma_chunkin(c, n as int, m as int); assert forall|j: int| 0 <= j < m implies 0 <= #[trigger] ps[c][j] < P() by { if j > 0 { lemma_mod_bound(-a[c * m + m - j], P()); } } } }
    let t = pscale(p1(m), b); let (a0, b0) = (pzero(m), cst(m, b));
    lemma_ntt_one(m); axiom_nttscale(p1(m), b); axiom_ntt(s, s);
    assert(pscale(ones(m), b) =~= b0) by { assert(1 * b == b); lemma_small_mod(b as nat, P() as nat); }
    assert(isres(t) && t[0] == b) by { assert(1 * b == b); lemma_small_mod(b as nat, P() as nat); lemma_small_mod(0, P() as nat); assert(0 * b == 0); }
    assert(nphs(a0, b0, ntt(s)) =~= b0) by { lemma_small_mod(0, P() as nat); lemma_small_mod(b as nat, P() as nat); assert forall|i: int| 0 <= i < m implies #[trigger] nphs(a0, b0, ntt(s))[i] == b by { assert(0 * ntt(s)[i] == 0); } }
    let q = lemma_kphase(k, a0, b0, ps, s, zz, e, t, n);
    lemma_kacc_len(k, a0, b0, ps, n);
    let (fa, fb) = (kacca(k, a0, ps, n), kaccb(k, b0, ps, n));
    lemma_kacc_res(k, a0, b0, ps, n);
    axiom_ntt(fa, fa); axiom_ntt(fb, fb);
    lemma_rph(intt(fa), intt(fb), s);
    let h = kph(k, a0, b0, ps, s);
    assert(ntt(h) == ntt(q));
    axiom_ntt(q, q); axiom_ntt(h, q);
    assert(h == q);
    lemma_ksum(k, b, a, zz, n);
    lemma_cdot(a, zz, m, n);
    let d = dotp(a, zz, a.len()); let kn = knoise(k, ps, e, n);
    assert(cdot(a, zz, m, n) == d);
    cg_mod(kn); cg_add(ksum(k, b, zz, ps, n), b - d, kn, kn);
    cg_trans(q[0], ksum(k, b, zz, ps, n) + kn, b - d + kn);
    cg_mod(b - d); cg_add(b - d, phase(a, b, zz), kn, kn);
    cg_trans(q[0], b - d + kn, phase(a, b, zz) + kn);
    cg_canon(q[0], phase(a, b, zz) + kn);
}
pub proof fn lemma_kacc_res(k: KeySwitchingRLWEKey, a: Seq<int>, b: Seq<int>, ps: Seq<Seq<int>>, c: nat) requires isres(a), isres(b) ensures isres(kacca(k, a, ps, c)), isres(kaccb(k, b, ps, c)) decreases c
{
    if c > 0 {
        lemma_kacc_res(k, a, b, ps, (c - 1) as nat);
        let g = k.key@[c - 1];
        lemma_gacc_res(kacca(k, a, ps, (c - 1) as nat), na(g.data@), pneg(ps[c - 1]), g.basis.bits as nat, g.data@.len());
        lemma_gacc_res(kaccb(k, b, ps, (c - 1) as nat), nb(g.data@), pneg(ps[c - 1]), g.basis.bits as nat, g.data@.len());
    }
}
pub proof fn lemma_fnn(x: int) requires 0 <= x < P() ensures fneg(fneg(x)) == x
{ axiom_p(); let y = fneg(x); cg_mod(-x); cg_mod(0); cg_add(0, 0, -x, y); lemma_cg(-y, x); lemma_cg(x, -y); assert(0 - y == -y && 0 - (-x) == x); cg_canon(x, -y); }
/// the LWE form of coefficient 0 has the phase of coefficient 0
pub proof fn lemma_exph(c: RLWE, s: Seq<int>) requires rwf(c, s.len()), s.len() > 0 ensures phase(exm(pv(c.a.data@)), fv(c.b.data@[0]), s) == rph(c, s)[0]
{
    axiom_p();
    let a = pv(c.a.data@); let x = exm(a); lemma_pv(c.a.data@);
    assert forall|i: int| 0 <= i < x.len() implies cg(#[trigger] x[i], if i == 0 { a[0] } else { -a[a.len() - i] }) by { cg_mod(a[0]); if i > 0 { cg_mod(-a[a.len() - i]); } }
    lemma_ex_dot(x, a, s, a.len());
    lemma_nsum_comm(a, s, 0);
    fin(fv(c.b.data@[0]), dotp(x, s, a.len()), nsum(a, s, 0, a.len()));
}
/// with error-free rows the noise vanishes
pub open spec fn noerr(e: Seq<Seq<Seq<int>>>, m: nat) -> bool { forall|c: int, j: int| 0 <= c < e.len() && 0 <= j < e[c].len() ==> (#[trigger] e[c][j]) == pzero(m) }
pub proof fn lemma_nonoise(k: KeySwitchingRLWEKey, s: Seq<int>, zz: Seq<int>, ps: Seq<Seq<int>>, e: Seq<Seq<Seq<int>>>, c: nat)
    requires kwf(k), kenc(k, s, zz, e), chunks_are(ps, kdim(k)), noerr(e, kdim(k)), c <= k.key@.len(), c <= ps.len(),
    ensures knoise(k, ps, e, c) == 0, decreases c,
{
    if c > 0 {
        lemma_nonoise(k, s, zz, ps, e, (c - 1) as nat);
        let g = k.key@[c - 1]; let p = pneg(ps[c - 1]); let m = kdim(k); let ee = e[c - 1];
        assert(ng(g, m)); assert(cenc(g, s, zz.subrange((c - 1) * m, (c - 1 + 1) * m), ee));
        lemma_pneg(ps[c - 1]);
        assert forall|j: int| 0 <= j < ee.len() implies #[trigger] ee[j] == pzero(p.len()) by { assert(e[c - 1][j] == pzero(m)); }
        lemma_zero_noise(ee, p, g.basis.bits as nat, g.data@.len());
        let z = pzero(m); axiom_p(); assert(isres(z)); axiom_ntt(z, z); axiom_nttscale(z, 0);
        assert(pscale(z, 0) =~= z) by { lemma_small_mod(0, P() as nat); assert(0 * 0 == 0); }
        assert(ntt(z) =~= z) by { assert forall|i: int| 0 <= i < m implies #[trigger] ntt(z)[i] == 0 by { let v = ntt(z)[i]; assert(v * 0 == 0); assert(pscale(ntt(z), 0)[i] == (v * 0) % P()); lemma_small_mod(0, P() as nat); } }
        assert(intt(z) == z);
    }
}
/// an error-free key preserves the phase exactly
pub proof fn thm_exact(k: KeySwitchingRLWEKey, a: Seq<int>, b: int, r: LWE, s: Seq<int>, zz: Seq<int>, e: Seq<Seq<Seq<int>>>)
    requires kwf(k), kenc(k, s, zz, e), noerr(e, kdim(k)), swall(k, a, b, r), isres(a), a.len() == zz.len(),
    ensures ph(r, s.take(k.lwe_dimension as int)) == phase(a, b, zz),
{
    axiom_p();
    let m = kdim(k); let n = k.key@.len(); let ps = pchs(a, m, n);
    assert(chunks_are(ps, m)) by { assert forall|c: int| 0 <= c < ps.len() implies isres(#[trigger] ps[c]) && ps[c].len() == m by { lemma_chunkin(c, n as int, m as int); assert forall|j: int| 0 <= j < m implies 0 <= #[trigger] ps[c][j] < P() by { if j > 0 { lemma_mod_bound(-a[c * m + m - j], P()); } } } }
    lemma_nonoise(k, s, zz, ps, e, n);
    assert(switched(k, a, b, r, s, zz, e));
    lemma_mod_twice(b - dotp(a, zz, a.len()), P());
}
pub proof fn lemma_pos(a: int, b: int) requires a >= 1, b >= 1 ensures a * b >= 1 { assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1; }
pub proof fn lemma_chunkone(a: Seq<Fe>, o: Seq<Fe>)
    requires o.len() >= 1, a.len() == o.len(), wf(a), pv(a) == pch(pv(o), o.len(), 0),
    ensures chk(a, pv(o), o.len(), 0),
{ let m = o.len(); assert(0 * m == 0 && 1 * m == m); assert(a.subrange(0, m as int) =~= a); }
