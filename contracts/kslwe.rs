// ---- key switching by scalar rows -------------------------------------------------------------
pub open spec fn meq(x: int, y: int, q: int) -> bool { x % q == y % q }
proof fn meq_lin(a: int, b: int, c: int, d: int, q: int) requires q > 0, meq(a, b, q), meq(c, d, q) ensures meq(a + c, b + d, q), meq(a - c, b - d, q)
{ lemma_add_mod_noop(a, c, q); lemma_add_mod_noop(b, d, q); lemma_sub_mod_noop(a, c, q); lemma_sub_mod_noop(b, d, q); }
proof fn meq_mul(a: int, b: int, c: int, q: int) requires q > 0, meq(a, b, q) ensures meq(a * c, b * c, q)
{ lemma_mul_mod_noop(a, c, q); lemma_mul_mod_noop(b, c, q); }
/// b - <a, s>
pub open spec fn raw(c: LWE, s: Seq<$T>) -> int { c.b - dsum_$T(c.a@, s, s.len() as int) }
proof fn lemma_dsum_add(r: Seq<$T>, x: Seq<$T>, y: Seq<$T>, s: Seq<$T>, k: int, q: int)
    requires q > 0, 0 <= k <= s.len(), r.len() == s.len(), x.len() == s.len(), y.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]) as int == (x[i] + y[i]) % q,
    ensures meq(dsum_$T(r, s, k), dsum_$T(x, s, k) + dsum_$T(y, s, k), q), decreases k,
{
    if k > 0 {
        lemma_dsum_add(r, x, y, s, k - 1, q);
        let (a, b, c, t) = (r[k - 1] as int, x[k - 1] as int, y[k - 1] as int, s[k - 1] as int);
        lemma_mod_twice(b + c, q); meq_mul(a, b + c, t, q);
        assert((b + c) * t == b * t + c * t) by (nonlinear_arith);
        meq_lin(dsum_$T(r, s, k - 1), dsum_$T(x, s, k - 1) + dsum_$T(y, s, k - 1), a * t, b * t + c * t, q);
    }
}
pub open spec fn sumof(r: LWE, x: LWE, y: LWE, q: int) -> bool { r.a@.len() == x.a@.len() && (forall|i: int| 0 <= i < r.a@.len() ==> (#[trigger] r.a@[i]) as int == (x.a@[i] + y.a@[i]) % q) && r.b as int == (x.b + y.b) % q }
pub proof fn lemma_sumof(r: LWE, x: LWE, y: LWE, s: Seq<$T>, q: int)
    requires q > 0, sumof(r, x, y, q), x.a@.len() == s.len(), y.a@.len() == s.len(),
    ensures meq(raw(r, s), raw(x, s) + raw(y, s), q),
{
    lemma_dsum_add(r.a@, x.a@, y.a@, s, s.len() as int, q);
    lemma_mod_twice(x.b + y.b, q);
    meq_lin(r.b as int, x.b + y.b, dsum_$T(r.a@, s, s.len() as int), dsum_$T(x.a@, s, s.len() as int) + dsum_$T(y.a@, s, s.len() as int), q);
}
proof fn lemma_dsum_neg(r: Seq<$T>, x: Seq<$T>, s: Seq<$T>, k: int, q: int)
    requires q > 0, 0 <= k <= s.len(), r.len() == s.len(), x.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i]) as int == (-(x[i] as int)) % q,
    ensures meq(dsum_$T(r, s, k), -dsum_$T(x, s, k), q), decreases k,
{
    if k > 0 {
        lemma_dsum_neg(r, x, s, k - 1, q);
        let (a, b, t) = (r[k - 1] as int, x[k - 1] as int, s[k - 1] as int);
        lemma_mod_twice(-b, q); meq_mul(a, -b, t, q);
        assert((-b) * t == -(b * t)) by (nonlinear_arith);
        meq_lin(dsum_$T(r, s, k - 1), -dsum_$T(x, s, k - 1), a * t, -(b * t), q);
    }
}
pub open spec fn negof(r: LWE, x: LWE, q: int) -> bool { r.a@.len() == x.a@.len() && (forall|i: int| 0 <= i < r.a@.len() ==> (#[trigger] r.a@[i]) as int == (-(x.a@[i] as int)) % q) && r.b as int == (-(x.b as int)) % q }
pub proof fn lemma_negof(r: LWE, x: LWE, s: Seq<$T>, q: int)
    requires q > 0, negof(r, x, q), x.a@.len() == s.len(),
    ensures meq(raw(r, s), -raw(x, s), q),
{
    lemma_dsum_neg(r.a@, x.a@, s, s.len() as int, q);
    lemma_mod_twice(-(x.b as int), q);
    meq_lin(r.b as int, -(x.b as int), dsum_$T(r.a@, s, s.len() as int), -dsum_$T(x.a@, s, s.len() as int), q);
}
proof fn lemma_dsum_zero(x: Seq<$T>, s: Seq<$T>, k: int)
    requires 0 <= k <= s.len(), x.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] x[i]) == 0,
    ensures dsum_$T(x, s, k) == 0, decreases k,
{ if k > 0 { lemma_dsum_zero(x, s, k - 1); let t = s[k - 1] as int; assert(0 * t == 0); } }
pub proof fn lemma_raw0(c: LWE, s: Seq<$T>) requires c.a@.len() == s.len(), c.b == 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] c.a@[i]) == 0 ensures raw(c, s) == 0
{ lemma_dsum_zero(c.a@, s, s.len() as int); }
/// the row for digit d of coefficient i at level j, and its contribution; a zero digit has no row
pub open spec fn rowraw(key: Seq<Vec<LWE>>, s: Seq<$T>, i: int, d: int) -> int { if d == 0 { 0 } else { raw(key[i]@[d - 1], s) } }
/// error of that row as an encryption of d 2^(wj) z_i
pub open spec fn rowerr(key: Seq<Vec<LWE>>, s: Seq<$T>, z: Seq<$T>, w: nat, j: nat, i: int, d: int) -> int { if d == 0 { 0 } else { raw(key[i]@[d - 1], s) - d * pow2(w * j) * z[i] } }
pub open spec fn isum(key: Seq<Vec<LWE>>, a: Seq<$T>, s: Seq<$T>, w: nat, j: nat, m: nat) -> int decreases m
{ if m == 0 { 0 } else { isum(key, a, s, w, j, (m - 1) as nat) + rowraw(key, s, m - 1, dig(a[m - 1] as int, w, j)) } }
pub open spec fn ierr(key: Seq<Vec<LWE>>, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, w: nat, j: nat, m: nat) -> int decreases m
{ if m == 0 { 0 } else { ierr(key, a, s, z, w, j, (m - 1) as nat) + rowerr(key, s, z, w, j, m - 1, dig(a[m - 1] as int, w, j)) } }
pub open spec fn osum(key: Seq<Vec<Vec<LWE>>>, a: Seq<$T>, s: Seq<$T>, w: nat, j: nat) -> int decreases j
{ if j == 0 { 0 } else { osum(key, a, s, w, (j - 1) as nat) + isum(key[j - 1]@, a, s, w, (j - 1) as nat, a.len()) } }
/// the key's noise a switch of the mask a picks up
pub open spec fn kerr(key: Seq<Vec<Vec<LWE>>>, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, w: nat, j: nat) -> int decreases j
{ if j == 0 { 0 } else { kerr(key, a, s, z, w, (j - 1) as nat) + ierr(key[j - 1]@, a, s, z, w, (j - 1) as nat, a.len()) } }
/// low digits of a against z
pub open spec fn ldot(a: Seq<$T>, z: Seq<$T>, w: nat, j: nat, m: nat) -> int decreases m
{ if m == 0 { 0 } else { ldot(a, z, w, j, (m - 1) as nat) + digsum(a[m - 1] as int, w, j) * z[m - 1] } }
proof fn lemma_ldot(key: Seq<Vec<LWE>>, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, w: nat, j: nat, m: nat)
    requires m <= a.len(), z.len() == a.len(),
    ensures isum(key, a, s, w, j, m) == ierr(key, a, s, z, w, j, m) + ldot(a, z, w, j + 1, m) - ldot(a, z, w, j, m), decreases m,
{
    if m > 0 {
        lemma_ldot(key, a, s, z, w, j, (m - 1) as nat);
        let d = dig(a[m - 1] as int, w, j); let e = digsum(a[m - 1] as int, w, j); let b = pow2(w * j) as int; let x = z[m - 1] as int;
        assert(digsum(a[m - 1] as int, w, j + 1) == e + d * b);
        assert((e + d * b) * x == e * x + d * b * x) by (nonlinear_arith);
        if d == 0 { assert(0 * b * x == 0) by (nonlinear_arith); }
    }
}
proof fn lemma_ldot0(a: Seq<$T>, z: Seq<$T>, w: nat, m: nat) ensures ldot(a, z, w, 0, m) == 0 decreases m
{ if m > 0 { lemma_ldot0(a, z, w, (m - 1) as nat); let x = z[m - 1] as int; assert(0 * x == 0); } }
proof fn lemma_ldotfull(a: Seq<$T>, z: Seq<$T>, w: nat, j: nat, m: nat)
    requires m <= a.len(), z.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> digsum(#[trigger] a[i] as int, w, j) == a[i],
    ensures ldot(a, z, w, j, m) == dsum_$T(a, z, m as int), decreases m,
{ if m > 0 { lemma_ldotfull(a, z, w, j, (m - 1) as nat); } }
pub proof fn lemma_osum(key: Seq<Vec<Vec<LWE>>>, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, w: nat, j: nat)
    requires j <= key.len(), z.len() == a.len(),
    ensures osum(key, a, s, w, j) == kerr(key, a, s, z, w, j) + ldot(a, z, w, j, a.len()), decreases j,
{
    if j == 0 { lemma_ldot0(a, z, w, a.len()); } else { let i = (j - 1) as nat; lemma_osum(key, a, s, z, w, i); lemma_ldot(key[j - 1]@, a, s, z, w, i, a.len()); }
}
/// the digits cover the masks
pub proof fn lemma_cover(key: Seq<Vec<Vec<LWE>>>, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, w: nat, len: nat, q: int)
    requires len <= key.len(), z.len() == a.len(), w >= 1, isdlen(q, w, len as int), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) < q,
    ensures osum(key, a, s, w, len) == kerr(key, a, s, z, w, len) + dsum_$T(a, z, a.len() as int),
{
    lemma_osum(key, a, s, z, w, len);
    assert forall|i: int| 0 <= i < a.len() implies digsum(#[trigger] a[i] as int, w, len) == a[i] by { lemma_recompose(q, a[i] as int, w, len); }
    lemma_ldotfull(a, z, w, len, a.len());
}
pub proof fn lemma_fin(r: int, o: int, x: int, b: int, rb: int, nb: int, d: int, q: int)
    requires q > 0, meq(x, -r, q), meq(r, o, q), meq(nb, rb + b, q),
    ensures meq(x - rb + nb, b - o, q),
{
    meq_lin(0, 0, r, o, q); meq_lin(x, -r, nb, rb + b, q); meq_lin(x + nb, -r + (rb + b), rb, rb, q); meq_lin(b, b, r, o, q);
}
/// shape of a key for masks of n entries
pub open spec fn kwf(k: KeySwitchingLWEKey, n: nat) -> bool {
    let q = k.modulus.mask + 1;
    wf2_$T(k.modulus) && wfl_$T(k.basis, q) && k.key@.len() == k.basis.decompose_len && forall|j: int| 0 <= j < k.key@.len() ==> lvl(#[trigger] k.key@[j]@, n, k.basis.mask as int, k.lwe_dimension as nat)
}
pub open spec fn lvl(r: Seq<Vec<LWE>>, n: nat, m: int, d: nat) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> rws(#[trigger] r[i]@, m, d) }
pub open spec fn rws(r: Seq<LWE>, m: int, d: nat) -> bool { r.len() == m && forall|i: int| 0 <= i < m ==> (#[trigger] r[i]).a@.len() == d }
/// what key switching guarantees
pub open spec fn switched(k: KeySwitchingLWEKey, c: LWE, r: LWE, s: Seq<$T>, z: Seq<$T>) -> bool {
    meq(raw(r, s), raw(c, z) - kerr(k.key@, c.a@, s, z, k.basis.bits as nat, k.key@.len()), k.modulus.mask + 1)
}
/// a key without errors
pub open spec fn exact(k: KeySwitchingLWEKey, s: Seq<$T>, z: Seq<$T>) -> bool {
    forall|j: int, i: int, v: int| 0 <= j < k.key@.len() && 0 <= i < z.len() && 1 <= v <= k.basis.mask ==> #[trigger] rowexact(k, s, z, j, i, v)
}
pub open spec fn rowexact(k: KeySwitchingLWEKey, s: Seq<$T>, z: Seq<$T>, j: int, i: int, v: int) -> bool { meq(raw(k.key@[j]@[i]@[v - 1], s), v * pow2(k.basis.bits as nat * j as nat) * z[i], k.modulus.mask + 1) }
proof fn lemma_ierr0(k: KeySwitchingLWEKey, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, j: nat, m: nat)
    requires kwf(k, a.len()), exact(k, s, z), z.len() == a.len(), j < k.key@.len(), m <= a.len(),
    ensures meq(ierr(k.key@[j as int]@, a, s, z, k.basis.bits as nat, j, m), 0, k.modulus.mask + 1), decreases m,
{
    let q = k.modulus.mask + 1; let w = k.basis.bits as nat;
    lemma_pm_$T(k.modulus);
    if m > 0 {
        lemma_ierr0(k, a, s, z, j, (m - 1) as nat);
        let d = dig(a[m - 1] as int, w, j);
        lemma_digstep(a[m - 1] as int, w, j);
        if d != 0 { assert(rowexact(k, s, z, j as int, m - 1, d)); let u = d * pow2(w * j) * z[m - 1]; meq_lin(raw(k.key@[j as int]@[m - 1]@[d - 1], s), u, u, u, q); }
        meq_lin(ierr(k.key@[j as int]@, a, s, z, w, j, (m - 1) as nat), 0, rowerr(k.key@[j as int]@, s, z, w, j, m - 1, d), 0, q);
    }
}
proof fn lemma_kerr0(k: KeySwitchingLWEKey, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, j: nat)
    requires kwf(k, a.len()), exact(k, s, z), z.len() == a.len(), j <= k.key@.len(),
    ensures meq(kerr(k.key@, a, s, z, k.basis.bits as nat, j), 0, k.modulus.mask + 1), decreases j,
{
    lemma_pm_$T(k.modulus);
    if j > 0 { let i = (j - 1) as nat; lemma_kerr0(k, a, s, z, i); lemma_ierr0(k, a, s, z, i, a.len()); meq_lin(kerr(k.key@, a, s, z, k.basis.bits as nat, i), 0, ierr(k.key@[i as int]@, a, s, z, k.basis.bits as nat, i, a.len()), 0, k.modulus.mask + 1); }
}
/// C20: an error-free key preserves the phase
pub proof fn thm_exact(k: KeySwitchingLWEKey, c: LWE, r: LWE, s: Seq<$T>, z: Seq<$T>)
    requires kwf(k, c.a@.len()), exact(k, s, z), z.len() == c.a@.len(), switched(k, c, r, s, z),
    ensures meq(raw(r, s), raw(c, z), k.modulus.mask + 1),
{
    let e = kerr(k.key@, c.a@, s, z, k.basis.bits as nat, k.key@.len());
    lemma_pm_$T(k.modulus);
    lemma_kerr0(k, c.a@, s, z, k.key@.len());
    meq_lin(raw(c, z), raw(c, z), e, 0, k.modulus.mask + 1);
}
/// the accumulated rows: levels below j, and of level j the first m coefficients
pub open spec fn accd(r: LWE, k: KeySwitchingLWEKey, a: Seq<$T>, s: Seq<$T>, j: nat, m: nat) -> bool {
    meq(raw(r, s), osum(k.key@, a, s, k.basis.bits as nat, j) + (if m == 0 { 0 } else { isum(k.key@[j as int]@, a, s, k.basis.bits as nat, j, m) }), k.modulus.mask + 1)
}
pub open spec fn accl(r: LWE, k: KeySwitchingLWEKey, a: Seq<$T>, j: nat, m: nat) -> bool { r.a@.len() == k.lwe_dimension && forall|s: Seq<$T>| s.len() == k.lwe_dimension ==> #[trigger] accd(r, k, a, s, j, m) }
pub proof fn lemma_acc0(r: LWE, k: KeySwitchingLWEKey, a: Seq<$T>)
    requires wf2_$T(k.modulus), r.a@.len() == k.lwe_dimension, r.b == 0, forall|i: int| 0 <= i < r.a@.len() ==> (#[trigger] r.a@[i]) == 0,
    ensures accl(r, k, a, 0, 0),
{ assert forall|s: Seq<$T>| s.len() == k.lwe_dimension implies #[trigger] accd(r, k, a, s, 0, 0) by { lemma_raw0(r, s); } }
pub proof fn lemma_accnext(r: LWE, k: KeySwitchingLWEKey, a: Seq<$T>, j: nat)
    requires accl(r, k, a, j, a.len()), j < k.key@.len(),
    ensures accl(r, k, a, j + 1, 0),
{ assert forall|s: Seq<$T>| s.len() == k.lwe_dimension implies #[trigger] accd(r, k, a, s, j + 1, 0) by { assert(accd(r, k, a, s, j, a.len())); } }
pub proof fn lemma_accstep(r: LWE, r2: LWE, k: KeySwitchingLWEKey, a: Seq<$T>, j: nat, m: nat)
    requires kwf(k, a.len()), accl(r, k, a, j, m), j < k.key@.len(), m < a.len(),
        ({ let d = dig(a[m as int] as int, k.basis.bits as nat, j); if d == 0 { r2 == r } else { sumof(r2, r, k.key@[j as int]@[m as int]@[d - 1], k.modulus.mask + 1) } }),
    ensures accl(r2, k, a, j, m + 1),
{
    let q = k.modulus.mask + 1; let w = k.basis.bits as nat; let d = dig(a[m as int] as int, w, j);
    lemma_pm_$T(k.modulus); lemma_digstep(a[m as int] as int, w, j);
    assert(lvl(k.key@[j as int]@, a.len(), k.basis.mask as int, k.lwe_dimension as nat)); assert(rws(k.key@[j as int]@[m as int]@, k.basis.mask as int, k.lwe_dimension as nat));
    assert forall|s: Seq<$T>| s.len() == k.lwe_dimension implies #[trigger] accd(r2, k, a, s, j, m + 1) by {
        assert(accd(r, k, a, s, j, m));
        assert(isum(k.key@[j as int]@, a, s, w, j, m + 1) == isum(k.key@[j as int]@, a, s, w, j, m) + rowraw(k.key@[j as int]@, s, m as int, d));
        if d != 0 {
            let row = k.key@[j as int]@[m as int]@[d - 1];
            lemma_sumof(r2, r, row, s, q);
            let t = osum(k.key@, a, s, w, j) + (if m == 0 { 0 } else { isum(k.key@[j as int]@, a, s, w, j, m) });
            meq_lin(raw(r, s), t, raw(row, s), raw(row, s), q);
        }
    }
}
/// negated and shifted by the body of the old ciphertext
pub proof fn lemma_accfin(r: LWE, n: LWE, o: LWE, k: KeySwitchingLWEKey, c: LWE)
    requires kwf(k, c.a@.len()), forall|i: int| 0 <= i < c.a@.len() ==> (#[trigger] c.a@[i]) <= k.modulus.mask, accl(r, k, c.a@, k.key@.len(), 0), negof(n, r, k.modulus.mask + 1), o.a == n.a, o.b as int == (n.b + c.b) % (k.modulus.mask + 1),
    ensures o.a@.len() == k.lwe_dimension, forall|s: Seq<$T>, z: Seq<$T>| s.len() == k.lwe_dimension && z.len() == c.a@.len() ==> #[trigger] switched(k, c, o, s, z),
{
    let q = k.modulus.mask + 1;
    lemma_pm_$T(k.modulus);
    assert forall|s: Seq<$T>, z: Seq<$T>| s.len() == k.lwe_dimension && z.len() == c.a@.len() implies #[trigger] switched(k, c, o, s, z) by {
        assert(accd(r, k, c.a@, s, k.key@.len(), 0));
        lemma_negof(n, r, s, q);
        lemma_cover(k.key@, c.a@, s, z, k.basis.bits as nat, k.key@.len(), q);
        lemma_mod_twice(n.b + c.b, q);
        lemma_fin(raw(r, s), osum(k.key@, c.a@, s, k.basis.bits as nat, k.key@.len()), raw(n, s), c.b as int, n.b as int, o.b as int, 0, q);
    }
}
pub open spec fn tag(o: LWE) -> bool { true }
pub open spec fn swall(o: LWE, k: KeySwitchingLWEKey, c: LWE) -> bool { o.a@.len() == k.lwe_dimension && forall|s: Seq<$T>, z: Seq<$T>| s.len() == k.lwe_dimension && z.len() == c.a@.len() ==> #[trigger] switched(k, c, o, s, z) }
// ---- generation -------------------------------------------------------------------------------
/// the ring key as the switching key sees it: 0, 1, and minus one for everything else
pub open spec fn kz(x: Qe, q: int) -> int { if qz(x) { 0 } else if qo(x) { 1 } else { q - 1 } }
/// c is an encryption of val under s, with an error of the distribution
pub open spec fn rowenc(c: LWE, s: Seq<$T>, q: int, d: Dg, val: int) -> bool { c.a@.len() == s.len() && exists|e: int| #[trigger] sup(d, e) && meq(raw(c, s), val + e, q) }
pub open spec fn genrow(r: Seq<LWE>, s: Seq<$T>, q: int, d: Dg, z: int) -> bool { forall|k: int| 0 <= k < r.len() ==> rowenc(#[trigger] r[k], s, q, d, (k + 1) * z) }
pub open spec fn genlvl(r: Seq<Vec<LWE>>, s: Seq<$T>, q: int, d: Dg, ring: Seq<Qe>, b: int) -> bool { forall|i: int| 0 <= i < r.len() ==> genrow(#[trigger] r[i]@, s, q, d, b * kz(ring[i], q)) }
pub open spec fn genkey(k: Seq<Vec<Vec<LWE>>>, s: Seq<$T>, q: int, d: Dg, ring: Seq<Qe>, w: nat) -> bool { forall|j: int| 0 <= j < k.len() ==> genlvl(#[trigger] k[j]@, s, q, d, ring, pow2(w * j as nat) as int) }
pub open spec fn rings(r: Seq<$T>, ring: Seq<Qe>, b: int, q: int) -> bool { r.len() == ring.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) as int == (b * kz(ring[i], q)) % q }
pub proof fn lemma_rings(r: Seq<$T>, n: Seq<$T>, ring: Seq<Qe>, w: nat, j: nat, q: int)
    requires q > 0, rings(r, ring, pow2(w * j) as int, q), n.len() == r.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] n[i]) as int == (r[i] * pow2(w)) % q,
    ensures rings(n, ring, pow2(w * (j + 1)) as int, q),
{
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]) as int == (pow2(w * (j + 1)) * kz(ring[i], q)) % q by {
        let z = kz(ring[i], q); let b = pow2(w * j) as int; let c = pow2(w) as int; let _ = r[i];
        lemma_pow2_adds(w * j, w);
        assert(w * (j + 1) == w * j + w) by (nonlinear_arith);
        lemma_mul_mod_noop(b * z, c, q); lemma_mul_mod_noop(r[i] as int, c, q); lemma_mod_twice(b * z, q);
        assert(b * z * c == (b * c) * z) by (nonlinear_arith);
    }
}
pub proof fn lemma_rowenc(o: LWE, n: LWE, s: Seq<$T>, q: int, d: Dg, v: int, z: int, x: int)
    requires q > 0, x % q == z % q, n.a == o.a, o.a@.len() == s.len(), n.b as int == (o.b + (v * x) % q) % q,
        exists|e: int| #[trigger] sup(d, e) && phase(o, s, q) == e % q,
    ensures rowenc(n, s, q, d, v * z),
{
    let e = choose|e: int| #[trigger] sup(d, e) && phase(o, s, q) == e % q;
    let m = dsum_$T(o.a@, s, s.len() as int);
    meq_mul(x, z, v, q);
    assert(x * v == v * x && z * v == v * z) by (nonlinear_arith);
    lemma_mod_twice(v * x, q); lemma_mod_twice(o.b + (v * x) % q, q);
    meq_lin(o.b as int, o.b as int, (v * x) % q, v * z, q);
    meq_lin(n.b as int, o.b + v * z, m, m, q);
    lemma_mod_twice(o.b - m, q); lemma_mod_twice(e, q);
    meq_lin(o.b - m, e, v * z, v * z, q);
    assert(sup(d, e) && meq(raw(n, s), v * z + e, q));
}
pub proof fn lemma_basis2(w: nat) requires w >= 1 ensures pow2(w) >= 2 { lemma_pow2_adds(1, (w - 1) as nat); lemma2_to64(); lemma_pow2_pos((w - 1) as nat); let x = pow2((w - 1) as nat) as int; assert(2 * x >= 2) by (nonlinear_arith) requires x >= 1; }
pub open spec fn supb(d: Dg, b: int) -> bool { forall|e: int| #[trigger] sup(d, e) ==> -b <= e <= b }
pub open spec fn conv(ring: Seq<Qe>, z: Seq<$T>, q: int) -> bool { z.len() == ring.len() && forall|i: int| 0 <= i < z.len() ==> (#[trigger] z[i]) as int == kz(ring[i], q) }
proof fn lemma_ierrb(k: KeySwitchingLWEKey, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, ring: Seq<Qe>, d: Dg, b: int, j: nat, m: nat) -> (r: int)
    requires kwf(k, a.len()), genkey(k.key@, s, k.modulus.mask + 1, d, ring, k.basis.bits as nat), conv(ring, z, k.modulus.mask + 1), supb(d, b), b >= 0, z.len() == a.len(), j < k.key@.len(), m <= a.len(),
    ensures meq(ierr(k.key@[j as int]@, a, s, z, k.basis.bits as nat, j, m), r, k.modulus.mask + 1), -(b * m) <= r <= b * m, decreases m,
{
    let q = k.modulus.mask + 1; let w = k.basis.bits as nat; let key = k.key@[j as int]@;
    lemma_pm_$T(k.modulus);
    if m == 0 { assert(b * 0 == 0); 0 } else {
        let o = lemma_ierrb(k, a, s, z, ring, d, b, j, (m - 1) as nat);
        let v = dig(a[m - 1] as int, w, j);
        lemma_digstep(a[m - 1] as int, w, j);
        assert(b * m == b * (m - 1) + b) by (nonlinear_arith);
        if v == 0 { meq_lin(ierr(key, a, s, z, w, j, (m - 1) as nat), o, 0, 0, q); o } else {
            assert(lvl(key, a.len(), k.basis.mask as int, k.lwe_dimension as nat)); assert(rws(key[m - 1]@, k.basis.mask as int, k.lwe_dimension as nat));
            assert(genlvl(key, s, q, d, ring, pow2(w * j) as int)); assert(genrow(key[m - 1]@, s, q, d, pow2(w * j) * kz(ring[m - 1], q)));
            let y = pow2(w * j) * z[m - 1]; let c = key[m - 1]@[v - 1];
            assert(rowenc(c, s, q, d, v * y));
            let e = choose|e: int| #[trigger] sup(d, e) && meq(raw(c, s), v * y + e, q);
            assert(v * y == v * pow2(w * j) * z[m - 1]) by (nonlinear_arith) requires y == pow2(w * j) * z[m - 1];
            meq_lin(raw(c, s), v * y + e, v * y, v * y, q);
            meq_lin(ierr(key, a, s, z, w, j, (m - 1) as nat), o, rowerr(key, s, z, w, j, m - 1, v), e, q);
            o + e
        }
    }
}
proof fn lemma_kerrb(k: KeySwitchingLWEKey, a: Seq<$T>, s: Seq<$T>, z: Seq<$T>, ring: Seq<Qe>, d: Dg, b: int, j: nat) -> (r: int)
    requires kwf(k, a.len()), genkey(k.key@, s, k.modulus.mask + 1, d, ring, k.basis.bits as nat), conv(ring, z, k.modulus.mask + 1), supb(d, b), b >= 0, z.len() == a.len(), j <= k.key@.len(),
    ensures meq(kerr(k.key@, a, s, z, k.basis.bits as nat, j), r, k.modulus.mask + 1), -(b * a.len() * j) <= r <= b * a.len() * j, decreases j,
{
    let q = k.modulus.mask + 1; let n = a.len() as int;
    lemma_pm_$T(k.modulus);
    if j == 0 { assert(b * n * 0 == 0); 0 } else {
        let i = (j - 1) as nat;
        let x = lemma_kerrb(k, a, s, z, ring, d, b, i); let y = lemma_ierrb(k, a, s, z, ring, d, b, i, a.len());
        assert(b * n * j == b * n * i + b * n) by (nonlinear_arith) requires j == i + 1;
        meq_lin(kerr(k.key@, a, s, z, k.basis.bits as nat, i), x, ierr(k.key@[i as int]@, a, s, z, k.basis.bits as nat, i, a.len()), y, q);
        x + y
    }
}
/// C20: under a generated key the switched ciphertext's phase is the old phase under the ring key's coefficients, up to the noise of at most one row per digit
pub proof fn thm_switch(k: KeySwitchingLWEKey, c: LWE, r: LWE, s: Seq<$T>, z: Seq<$T>, ring: Seq<Qe>, d: Dg, b: int) -> (e: int)
    requires kwf(k, c.a@.len()), genkey(k.key@, s, k.modulus.mask + 1, d, ring, k.basis.bits as nat), conv(ring, z, k.modulus.mask + 1), supb(d, b), b >= 0, z.len() == c.a@.len(), switched(k, c, r, s, z),
    ensures meq(raw(r, s), raw(c, z) + e, k.modulus.mask + 1), -(b * z.len() * k.basis.decompose_len) <= e <= b * z.len() * k.basis.decompose_len,
{
    let x = lemma_kerrb(k, c.a@, s, z, ring, d, b, k.key@.len());
    lemma_pm_$T(k.modulus);
    meq_lin(raw(c, z), raw(c, z), kerr(k.key@, c.a@, s, z, k.basis.bits as nat, k.key@.len()), x, k.modulus.mask + 1);
    -x
}
