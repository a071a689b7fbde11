// ---- field elements: one word; the field operations are those C10 proves of every derived field --
#[derive(Clone, Copy)]
pub struct Fe(pub $T);
impl Fe {
    pub fn value(self) -> (r: $T) ensures r == self.0, { self.0 }
    pub fn lazy_new(v: $T) -> (r: Fe) ensures r.0 == v, { Fe(v) }
}
impl Fe {
    #[verifier::external_body]
    pub fn from_root(r: ShoupFactor<$T>) -> (x: Fe) ensures x.0 == r.value, { unimplemented!() }
    #[verifier::external_body]
    pub fn to_root(self) -> (r: ShoupFactor<$T>) requires self.0 < P(), ensures shwf(r), r.value == self.0, { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_root(self, r: ShoupFactor<$T>) -> (x: Fe) requires shwf(r), ensures x.0 < P(), x.0 == (self.0 * r.value) % P(), { unimplemented!() }
    #[verifier::external_body]
    pub fn from_usize(n: usize) -> (x: Fe) ensures x.0 as int == n as int % P(), { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (x: Fe) ensures x.0 == 0, { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (x: Fe) ensures x.0 == 1, { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_one() -> (x: Fe) ensures x.0 == P() - 1, { unimplemented!() }
    #[verifier::external_body]
    pub fn inv(self) -> (x: Fe) requires 0 < self.0 < P(), ensures 0 <= x.0 < P(), cg(self.0 * x.0, 1), { unimplemented!() }
}
#[verifier::external_body]
pub fn fmodulus0() -> (r: $T) ensures r == P(), { unimplemented!() }
/// Fe::MODULUS_VALUE
pub fn fmodulus() -> (r: $T) ensures r == P(), r << 1u32 == 2 * P(), 4 * P() <= $B,
{
    let r = fmodulus0();
    proof { axiom_p(); assert(r <= ($MAX as $T) / 2 ==> (r << 1u32) == 2 * r) by (bit_vector); }
    r
}
pub open spec fn shwf(f: ShoupFactor<$T>) -> bool { f.value < P() && f.quotient as int == (f.value * $B) / P() }
pub open spec fn rs(v: Seq<Fe>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].0 as int % P()) }
pub open spec fn below(v: Seq<Fe>, k: int) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].0 < k * P() }
/// `s[lo..].iter().copied()` read by next()
pub struct VCur<'a> { pub s: &'a [ShoupFactor<$T>], pub i: usize }
pub fn vcursor<'a>(s: &'a [ShoupFactor<$T>], lo: usize) -> (r: VCur<'a>) requires lo <= s@.len(), ensures r.s == s, r.i == lo, { VCur { s, i: lo } }
impl<'a> VCur<'a> {
    pub fn next(&mut self) -> (r: Option<ShoupFactor<$T>>)
        requires old(self).i <= old(self).s@.len(),
        ensures final(self).s == old(self).s, old(self).i < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { let r = self.s[self.i]; self.i = self.i + 1; Some(r) } else { None }
    }
}
/// the i-th piece of `chunks_exact_mut(n)`; the two halves of `split_at_mut`
#[verifier::external_body]
pub fn vchunk_mut(v: &mut [Fe], i: usize, n: usize) -> (r: &mut [Fe])
    requires n > 0, (i + 1) * n <= old(v)@.len(),
    ensures r@ == old(v)@.subrange(i * n, (i + 1) * n), final(r)@.len() == n, final(v)@ == old(v)@.subrange(0, i * n) + final(r)@ + old(v)@.subrange((i + 1) * n, old(v)@.len() as int),
{ &mut v[i * n..(i + 1) * n] }
#[verifier::external_body]
pub fn vsplit_mut(v: &mut [Fe], n: usize) -> (r: (&mut [Fe], &mut [Fe]))
    requires n <= old(v)@.len(),
    ensures r.0@ == old(v)@.subrange(0, n as int), r.1@ == old(v)@.subrange(n as int, old(v)@.len() as int), final(r.0)@.len() == n, final(r.1)@.len() == old(v)@.len() - n, final(v)@ == final(r.0)@ + final(r.1)@,
{ v.split_at_mut(n) }
// ---- the table ---------------------------------------------------------------------------------
pub open spec fn twf(t: NTTTable) -> bool {
    let l = t.coeff_count_power as nat; let n = t.coeff_count as int; let x = t.root.0 as int;
    &&& l < 62 && n == pow2(l) && isroot(x, n) && x < P()
    &&& shwf(t.inv_degree) && cg(pow2(l) * t.inv_degree.value, 1)
    &&& t.root_powers@.len() == n && forall|k: int| 1 <= k < n ==> shwf(#[trigger] t.root_powers@[k]) && t.root_powers@[k].value == rp(x, rev(l, k))
    &&& t.inv_root_powers@.len() == n && forall|k: int| 1 <= k < n ==> shwf(#[trigger] t.inv_root_powers@[k]) && t.inv_root_powers@[k].value == rp(x, 2 * n - (rev(l, k - 1) + 1))
    &&& t.ordinal_root_powers@.len() == 2 * n && forall|k: int| 0 <= k < 2 * n ==> shwf(#[trigger] t.ordinal_root_powers@[k]) && t.ordinal_root_powers@[k].value == rp(x, k)
    &&& t.reverse_lsbs@.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] t.reverse_lsbs@[k] == rev(l, k)
}

/// the Shoup product before its final correction
pub proof fn lemma_mulroot(a: int, v: int, q: int)
    requires 0 <= a < $B, 0 <= v < P(), q == (v * $B) / P(),
    ensures ({ let hw = (a * q) / $B; let d = ((v * a) % $B - (hw * P()) % $B) % $B; 0 <= d < 2 * P() && cg(d, a * v) }),
{
    axiom_p();
    let hw = (a * q) / $B;
    lemma_mul_is_commutative(a, q); lemma_mul_is_commutative(a, v);
    let d = v * a - hw * P();
    lemma_shoup($B, P(), v, a, q, hw);
    lemma_wrap_mul_sub($B, v * a, hw * P(), d);
    lemma_cg(d, a * v);
}
pub open spec fn vals(v: Seq<Fe>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].0 as int) }
/// level s has 2^s blocks of 2 * gap words
pub proof fn lemma_blocks(l: nat, s: nat)
    requires l < 62,
    ensures s < l ==> gp(l, s) > 0 && gp(l, s) == pow2((l - 1 - s) as nat) && 2 * gp(l, s) * pow2(s) == pow2(l) && pow2(l) as int / (2 * gp(l, s)) == pow2(s) && gp(l, s) < 0x2000_0000_0000_0000 && pow2(s + 1) == 2 * pow2(s) && pow2(s) + pow2(s) <= pow2(l),
{
    if s < l {
        let g = gp(l, s);
        lemma_p2((l - s - 1) as nat); lemma_p2(s);
        lemma_pow2_adds((l - s) as nat, s);
        let m = pow2(s) as int;
        lemma_mul_is_commutative(2 * g, m);
        lemma_fundamental_div_mod_converse(pow2(l) as int, 2 * g, m, 0);
        lemma_pow2_le((l - s - 1) as nat, 60); lemma_pow2_le(s + 1, l); lemma2_to64_rest();
        assert(pow2(60) == 0x1000_0000_0000_0000)
    }
}
pub proof fn lemma_root_ix(l: nat, s: nat, b: int, g: int)
    requires s < l, l < 62, g == gp(l, s),
    ensures 0 <= b < pow2(s) ==> rev(l, pow2(s) + b) == tw(l, s, b) && 1 <= pow2(s) + b < pow2(l) && 0 <= b * (2 * g) && (b + 1) * (2 * g) <= pow2(l) && (b + 1) * (2 * g) == b * (2 * g) + 2 * g,
{
    if 0 <= b < pow2(s) {
        lemma_blocks(l, s);
        lemma_rev_top(s, b);
        lemma_p2(s);
        lemma_rev_level(l, s + 1, pow2(s) + b);
        let m = pow2(s) as int;
        assert((b + 1) * (2 * g) <= 2 * g * m && 0 <= b * (2 * g) && (b + 1) * (2 * g) == b * (2 * g) + 2 * g) by (nonlinear_arith) requires 0 <= b, b + 1 <= m, g > 0;
    }
}
/// outputs of one forward butterfly
pub open spec fn bf_ok(a: Fe, b: Fe, r: int, y0: Fe, y1: Fe) -> bool { y0.0 < 4 * P() && y1.0 < 4 * P() && cg(y0.0 as int, a.0 + b.0 * r) && cg(y1.0 as int, a.0 - b.0 * r) }
pub proof fn lemma_bfly(a: Fe, b: Fe, r: int, u: Fe, v: Fe, y0: Fe, y1: Fe)
    requires u.0 < 2 * P(), v.0 < 2 * P(), cg(u.0 as int, a.0 as int), cg(v.0 as int, b.0 * r), y0.0 == u.0 + v.0, y1.0 == u.0 + 2 * P() - v.0,
    ensures bf_ok(a, b, r, y0, y1),
{
    cg_add(u.0 as int, a.0 as int, v.0 as int, b.0 * r);
    lemma_guard(u.0 - v.0 + 2 * P());
    cg_trans(y1.0 as int, u.0 - v.0, a.0 - b.0 * r);
    lemma_mod_multiples_vanish(-1, 0, P());
}
pub proof fn lemma_block_done(x: int, l: nat, s: nat, b: int, g: int, vs: Seq<Fe>, vb: Seq<Fe>, va: Seq<Fe>, r: int)
    requires s < l, l < 62, g == gp(l, s), 0 <= b < pow2(s), vs.len() == pow2(l), vb.len() == vs.len(), va.len() == vs.len(), r == rp(x, tw(l, s, b)),
        below(vb, 4), forall|j: int| 0 <= j < b * (2 * g) ==> (#[trigger] vb[j]).0 as int % P() == stf(x, l, s, rs(vs))[j], forall|j: int| b * (2 * g) <= j < pow2(l) ==> #[trigger] vb[j] == vs[j],
        forall|j: int| 0 <= j < b * (2 * g) ==> #[trigger] va[j] == vb[j], forall|j: int| (b + 1) * (2 * g) <= j < pow2(l) ==> #[trigger] va[j] == vb[j],
        forall|k: int| 0 <= k < g ==> bf_ok(vb[b * (2 * g) + k], vb[b * (2 * g) + g + k], r, #[trigger] va[b * (2 * g) + k], va[b * (2 * g) + g + k]),
    ensures below(va, 4), forall|j: int| 0 <= j < (b + 1) * (2 * g) ==> (#[trigger] va[j]).0 as int % P() == stf(x, l, s, rs(vs))[j], forall|j: int| (b + 1) * (2 * g) <= j < pow2(l) ==> #[trigger] va[j] == vs[j],
{
    lemma_root_ix(l, s, b, g); lemma_blocks(l, s);
    let lo = b * (2 * g);
    assert forall|k: int| 0 <= k < g implies (#[trigger] va[lo + k]).0 as int % P() == stf(x, l, s, rs(vs))[lo + k] && va[lo + g + k].0 as int % P() == stf(x, l, s, rs(vs))[lo + g + k] && va[lo + k].0 < 4 * P() && va[lo + g + k].0 < 4 * P() by {
        let (u, w) = (vs[lo + k].0 as int, vs[lo + g + k].0 as int);
        assert(bf_ok(vb[lo + k], vb[lo + g + k], r, va[lo + k], va[lo + g + k]));
        assert(vb[lo + k] == vs[lo + k] && vb[lo + g + k] == vs[lo + g + k]);
        lemma_ix(l, s, lo + k); lemma_ix(l, s, lo + g + k);
        lemma_mul_is_commutative(b, 2 * g);
        lemma_fundamental_div_mod_converse(lo + k, 2 * g, b, k);
        lemma_fundamental_div_mod_converse(lo + g + k, 2 * g, b, g + k);
        cg_mod(u); cg_mod(w);
        cg_mul(w % P(), w, r);
        cg_add(u % P(), u, (w % P()) * r, w * r);
        lemma_cg(u % P() + (w % P()) * r, u + w * r); lemma_cg(u % P() - (w % P()) * r, u - w * r);
        lemma_cg(va[lo + k].0 as int, u + w * r); lemma_cg(va[lo + g + k].0 as int, u - w * r);
        assert(rs(vs)[lo + k] == u % P() && rs(vs)[lo + g + k] == w % P());
    }
    assert forall|j: int| 0 <= j < (b + 1) * (2 * g) implies (#[trigger] va[j]).0 as int % P() == stf(x, l, s, rs(vs))[j] by {
        if j < lo { assert(va[j] == vb[j]); } else if j < lo + g { assert(va[lo + (j - lo)] == va[j]); } else { let k = j - lo - g; assert(va[lo + g + k] == va[j]); assert(va[lo + k].0 < 4 * P()); }
    }
    assert forall|j: int| 0 <= j < va.len() implies #[trigger] va[j].0 < 4 * P() by {
        if j < lo { assert(va[j] == vb[j]); assert(vb[j].0 < 4 * P()); } else if j < lo + g { assert(va[lo + (j - lo)] == va[j]); } else if j < lo + 2 * g { let k = j - lo - g; assert(va[lo + g + k] == va[j]); assert(va[lo + k].0 < 4 * P()); }
        else { assert(va[j] == vb[j]); assert(vb[j].0 < 4 * P()); }
    }
}

// ---- inverse -----------------------------------------------------------------------------------
pub proof fn lemma_rev_scr(l: nat, s: nat, b: int)
    requires s < l, 0 <= b < pow2(s),
    ensures 0 <= pow2(l) - 2 * pow2(s) + b < pow2(l) - 1 || (s == 0 && l == 1 && b == 0), rev(l, pow2(l) - 2 * pow2(s) + b) + 1 == tw(l, s, b), 0 <= pow2(l) - 2 * pow2(s) + b, pow2(l) - 2 * pow2(s) + b + 1 < pow2(l),
    decreases l,
{
    lemma_p2(s); lemma_p2(0);
    let m = (l - 1) as nat;
    if s == m { lemma_rev_top(m, b); assert(1 * (2 * rev(s, b) + 1) == 2 * rev(s, b) + 1); }
    else {
        lemma_rev_scr(m, s, b);
        lemma_p2(m); lemma_p2((m - s - 1) as nat);
        lemma_rev_top(m, pow2(m) - 2 * pow2(s) + b);
        let (q, r) = (pow2((m - s - 1) as nat) as int, 2 * rev(s, b) + 1);
        assert((2 * q) * r == 2 * (q * r)) by (nonlinear_arith);
    }
}
/// the root read for block b of level s of the inverse
pub proof fn lemma_inv_ix(x: int, l: nat, s: nat, b: int, g: int)
    requires s < l, l < 62, g == gp(l, s),
    ensures 0 <= b < pow2(s) ==> ({ let k = pow2(l) - 2 * pow2(s) + 1 + b; 1 <= k < pow2(l) && rp(x, 2 * pow2(l) - (rev(l, k - 1) + 1)) == rp(x, 2 * pow2(l) - tw(l, s, b)) && 0 <= b * (2 * g) && (b + 1) * (2 * g) <= pow2(l) && (b + 1) * (2 * g) == b * (2 * g) + 2 * g }),
{
    if 0 <= b < pow2(s) { lemma_rev_scr(l, s, b); lemma_root_ix(l, s, b, g); }
}
/// outputs of one inverse butterfly
pub open spec fn bg_ok(a: Fe, b: Fe, c: int, r: int, y0: Fe, y1: Fe) -> bool { y0.0 < 2 * P() && y1.0 < 2 * P() && cg(y0.0 as int, (a.0 + b.0) * c) && cg(y1.0 as int, (a.0 - b.0) * r) }
pub proof fn lemma_bfly_inv(a: Fe, b: Fe, r: int, d: Fe, y0: Fe, y1: Fe)
    requires a.0 < 2 * P(), b.0 < 2 * P(), y0.0 < 2 * P(), cg(y0.0 as int, a.0 + b.0), d.0 == a.0 + 2 * P() - b.0, y1.0 < 2 * P(), cg(y1.0 as int, d.0 * r),
    ensures bg_ok(a, b, 1, r, y0, y1),
{
    lemma_mod_multiples_vanish(2, a.0 - b.0, P());
    lemma_cg(d.0 as int, a.0 - b.0);
    cg_mul(d.0 as int, a.0 - b.0, r);
    cg_trans(y1.0 as int, d.0 * r, (a.0 - b.0) * r);
    assert((a.0 + b.0) * 1 == a.0 + b.0);
}
pub proof fn lemma_inv_block(x: int, l: nat, s: nat, b: int, g: int, vs: Seq<Fe>, vb: Seq<Fe>, va: Seq<Fe>, r: int)
    requires s < l, l < 62, g == gp(l, s), 0 <= b < pow2(s), vs.len() == pow2(l), vb.len() == vs.len(), va.len() == vs.len(), r == rp(x, 2 * pow2(l) - tw(l, s, b)),
        below(vb, 2), forall|j: int| 0 <= j < b * (2 * g) ==> (#[trigger] vb[j]).0 as int % P() == stg(x, l, s, rs(vs))[j], forall|j: int| b * (2 * g) <= j < pow2(l) ==> #[trigger] vb[j] == vs[j],
        forall|j: int| 0 <= j < b * (2 * g) ==> #[trigger] va[j] == vb[j], forall|j: int| (b + 1) * (2 * g) <= j < pow2(l) ==> #[trigger] va[j] == vb[j],
        forall|k: int| 0 <= k < g ==> bg_ok(vb[b * (2 * g) + k], vb[b * (2 * g) + g + k], 1, r, #[trigger] va[b * (2 * g) + k], va[b * (2 * g) + g + k]),
    ensures below(va, 2), forall|j: int| 0 <= j < (b + 1) * (2 * g) ==> (#[trigger] va[j]).0 as int % P() == stg(x, l, s, rs(vs))[j], forall|j: int| (b + 1) * (2 * g) <= j < pow2(l) ==> #[trigger] va[j] == vs[j],
{
    lemma_root_ix(l, s, b, g); lemma_blocks(l, s);
    let lo = b * (2 * g);
    assert forall|k: int| 0 <= k < g implies (#[trigger] va[lo + k]).0 as int % P() == stg(x, l, s, rs(vs))[lo + k] && va[lo + g + k].0 as int % P() == stg(x, l, s, rs(vs))[lo + g + k] && va[lo + k].0 < 2 * P() && va[lo + g + k].0 < 2 * P() by {
        let (u, w) = (vs[lo + k].0 as int, vs[lo + g + k].0 as int);
        assert(bg_ok(vb[lo + k], vb[lo + g + k], 1, r, va[lo + k], va[lo + g + k]));
        assert(vb[lo + k] == vs[lo + k] && vb[lo + g + k] == vs[lo + g + k]);
        lemma_ix(l, s, lo + k); lemma_ix(l, s, lo + g + k);
        lemma_mul_is_commutative(b, 2 * g);
        lemma_fundamental_div_mod_converse(lo + k, 2 * g, b, k);
        lemma_fundamental_div_mod_converse(lo + g + k, 2 * g, b, g + k);
        assert((u + w) * 1 == u + w);
        lemma_bgm(u, w, 1, r);
        lemma_cg(va[lo + k].0 as int, u + w); lemma_cg(va[lo + g + k].0 as int, (u - w) * r);
        assert(rs(vs)[lo + k] == u % P() && rs(vs)[lo + g + k] == w % P());
    }
    assert forall|j: int| 0 <= j < (b + 1) * (2 * g) implies (#[trigger] va[j]).0 as int % P() == stg(x, l, s, rs(vs))[j] by {
        if j < lo { assert(va[j] == vb[j]); } else if j < lo + g { assert(va[lo + (j - lo)] == va[j]); } else { let k = j - lo - g; assert(va[lo + g + k] == va[j]); assert(va[lo + k].0 < 2 * P()); }
    }
    assert forall|j: int| 0 <= j < va.len() implies #[trigger] va[j].0 < 2 * P() by {
        if j < lo { assert(va[j] == vb[j]); assert(vb[j].0 < 2 * P()); } else if j < lo + g { assert(va[lo + (j - lo)] == va[j]); } else if j < lo + 2 * g { let k = j - lo - g; assert(va[lo + g + k] == va[j]); assert(va[lo + k].0 < 2 * P()); }
        else { assert(va[j] == vb[j]); assert(vb[j].0 < 2 * P()); }
    }
}
/// reducing the operands first
pub proof fn lemma_bgm(u: int, w: int, c: int, r: int)
    ensures (u % P() + w % P()) % P() == (u + w) % P(), ((u % P() - w % P()) * r) % P() == ((u - w) * r) % P(), ((u % P() + w % P()) % P() * c) % P() == ((u + w) * c) % P(), (((u % P() - w % P()) * r) % P() * c) % P() == ((u - w) * (r * c)) % P(),
{
    let (a, b) = (u % P(), w % P());
    cg_mod(u); cg_mod(w);
    cg_add(a, u, b, w);
    cg_mul(a - b, u - w, r);
    lemma_eqm(a + b, u + w); lemma_eqm((a - b) * r, (u - w) * r);
    cg_mod(a + b); cg_trans((a + b) % P(), a + b, u + w); cg_mul((a + b) % P(), u + w, c);
    lemma_eqm((a + b) % P() * c, (u + w) * c);
    let z = (a - b) * r;
    cg_mod(z); cg_trans(z % P(), z, (u - w) * r); cg_mul(z % P(), (u - w) * r, c);
    assert((u - w) * r * c == (u - w) * (r * c)) by (nonlinear_arith);
    lemma_eqm(z % P() * c, (u - w) * r * c);
}
/// the last level together with the factor 1 / n
pub proof fn lemma_inv_last(x: int, l: nat, c: int, vs: Seq<Fe>, va: Seq<Fe>, r: int, g: int)
    requires 0 < l < 62, g == gp(l, 0), vs.len() == pow2(l), va.len() == vs.len(), r == (rp(x, 2 * pow2(l) - tw(l, 0, 0)) * c) % P(),
        forall|k: int| 0 <= k < g ==> bg_ok(vs[k], vs[g + k], c, r, #[trigger] va[k], va[g + k]),
    ensures below(va, 2), pow2(l) == 2 * g, forall|j: int| 0 <= j < pow2(l) ==> (#[trigger] va[j]).0 as int % P() == scl(stg(x, l, 0, rs(vs)), c)[j],
{
    lemma_blocks(l, 0); lemma_p2(0);
    assert(2 * g * 1 == 2 * g);
    let r0 = rp(x, 2 * pow2(l) - tw(l, 0, 0));
    assert forall|k: int| 0 <= k < g implies (#[trigger] va[k]).0 as int % P() == scl(stg(x, l, 0, rs(vs)), c)[k] && va[g + k].0 as int % P() == scl(stg(x, l, 0, rs(vs)), c)[g + k] && va[k].0 < 2 * P() && va[g + k].0 < 2 * P() by {
        let (u, w) = (vs[k].0 as int, vs[g + k].0 as int);
        assert(bg_ok(vs[k], vs[g + k], c, r, va[k], va[g + k]));
        lemma_fundamental_div_mod_converse(k, 2 * g, 0, k);
        lemma_fundamental_div_mod_converse(g + k, 2 * g, 0, g + k);
        lemma_bgm(u, w, c, r0);
        cg_mod(r0 * c);
        cg_mul(r, r0 * c, u - w);
        lemma_cg(va[k].0 as int, (u + w) * c); lemma_cg(va[g + k].0 as int, (u - w) * r); lemma_cg((u - w) * r, (u - w) * (r0 * c));
        assert(rs(vs)[k] == u % P() && rs(vs)[g + k] == w % P());
    }
    assert forall|j: int| 0 <= j < pow2(l) implies (#[trigger] va[j]).0 as int % P() == scl(stg(x, l, 0, rs(vs)), c)[j] by {
        if j >= g { let k = j - g; assert(va[g + k] == va[j]); assert(va[k].0 < 2 * P()); }
    }
    assert forall|j: int| 0 <= j < va.len() implies #[trigger] va[j].0 < 2 * P() by {
        if j >= g { let k = j - g; assert(va[g + k] == va[j]); assert(va[k].0 < 2 * P()); }
    }
}
/// one coefficient: the factor is one
pub proof fn lemma_inv_one(c: int) requires cg(pow2(0) * c, 1), 0 <= c < P() ensures c == 1
{ lemma_p2(0); axiom_p(); assert(pow2(0) * c == c); lemma_cg(c, 1); lemma_small_mod(c as nat, P() as nat); lemma_small_mod(1, P() as nat); }
pub proof fn lemma_bwd_step(x: int, l: nat, s: nat, y: Seq<int>) ensures s < l ==> bwd(x, l, s, y) == stg(x, l, s, bwd(x, l, s + 1, y)), s >= l ==> bwd(x, l, s, y) == y { }
pub proof fn lemma_bfly_last(a: Fe, b: Fe, c: int, r: int, y0: Fe, y1: Fe)
    requires y0.0 < 2 * P(), cg(y0.0 as int, (a.0 + b.0) * c), y1.0 < 2 * P(), cg(y1.0 as int, (a.0 + 2 * P() - b.0) * r),
    ensures bg_ok(a, b, c, r, y0, y1),
{
    lemma_mod_multiples_vanish(2, a.0 - b.0, P());
    lemma_cg(a.0 + 2 * P() - b.0, a.0 - b.0);
    cg_mul(a.0 + 2 * P() - b.0, a.0 - b.0, r);
    cg_trans(y1.0 as int, (a.0 + 2 * P() - b.0) * r, (a.0 - b.0) * r);
}
// ---- monomials -----------------------------------------------------------------------------------
pub fn vfill(v: &mut [Fe], e: Fe) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@[i] == e,
{
    let n = v.len(); let mut i = 0;
    while i < n invariant i <= n, n == v@.len(), v@.len() == old(v)@.len(), forall|k: int| 0 <= k < i ==> v@[k] == e, decreases n - i, { v[i] = e; i = i + 1; }
}
/// (odd * degree) & mask, and the same shifted by half a turn
pub proof fn lemma_mono_ix(x: int, l: nat, i: int, d: int, m: usize, ix: usize)
    requires l < 62, isroot(x, pow2(l) as int), 0 <= i < pow2(l), d >= 0, (2 * pow2(l)) * d <= usize::MAX, m == ((2 * i + 1) * d) as usize, ix == m & (usize::MAX >> (63 - l) as usize),
    ensures ix < 2 * pow2(l), 0 <= (2 * i + 1) * d <= usize::MAX, rp(x, ix as int) == rp(x, (2 * i + 1) * d), (ix ^ pow2(l) as usize) < 2 * pow2(l), rp(x, (ix ^ pow2(l) as usize) as int) == (-rp(x, (2 * i + 1) * d)) % P(),
{
    let n = pow2(l) as int; let e = (2 * i + 1) * d;
    lemma_p2(l);
    assert(0 <= e <= (2 * n) * d) by (nonlinear_arith) requires 0 <= i < n, d >= 0, e == (2 * i + 1) * d;
    lemma_and_mask_usize(m, l + 1);
    lemma_one_shl_usize(l + 1); lemma_one_shl_usize(l);
    let k = l as usize; let j = (63 - l) as usize; let k1 = (l + 1) as usize;
    assert(usize::MAX >> j == sub((1 as usize) << k1, 1)) by (bit_vector) requires k < 62, j == 63 - k, k1 == k + 1;
    lemma_rp_mod(x, n, e); lemma_mod_bound(e, 2 * n);
    let nn = (1 as usize) << k;
    assert(ix < mul(2, nn) ==> (ix ^ nn) == if ix < nn { add(ix, nn) } else { sub(ix, nn) }) by (bit_vector) requires k < 62, nn == (1 as usize) << k;
    assert(nn < 0x4000_0000_0000_0000) by (bit_vector) requires k < 62, nn == (1 as usize) << k;
    let r = rp(x, ix as int);
    if ix < nn { lemma_rp_n(x, n, ix as int); lemma_rp(x, ix + n, 0); cg_canon(rp(x, ix + n), -r); }
    else { lemma_rp_n(x, n, ix - n); lemma_rp(x, ix - n, 0);
        let z = rp(x, ix - n); cg_mul(r, -z, -1); assert(r * -1 == -r && (-z) * -1 == z); lemma_cg(-r, z); cg_canon(z, -r); }
}
pub proof fn lemma_le(i: int, n: int, d: int) requires 0 <= i < n, d >= 0, ensures 0 <= (2 * i + 1) * d <= (2 * n) * d, 2 * i + 1 < 2 * n,
{ assert(0 <= (2 * i + 1) * d <= (2 * n) * d) by (nonlinear_arith) requires 0 <= i < n, d >= 0; }
/// the coefficient P - 1 is -1
pub proof fn lemma_negc(c: int, r: int) requires c == P() - 1 || c == -1 ensures (c * r) % P() == (-r) % P()
{
    axiom_p();
    assert((P() - 1) * r == P() * r + -r) by (nonlinear_arith);
    lemma_mod_multiples_vanish(r, -r, P());
    assert(-1 * r == -r);
}
pub proof fn lemma_one(r: int) ensures 0 <= r < P() ==> (1 * r) % P() == r { if 0 <= r < P() { lemma_small_mod(r as nat, P() as nat); } }
/// the two monomials whose values are all equal: degree zero and coefficient zero
pub proof fn lemma_const(x: int, l: nat, c: int, d: int)
    requires isroot(x, pow2(l) as int), d >= 0,
    ensures d == 0 || c == 0 ==> forall|v: Seq<Fe>| v.len() == pow2(l) && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 as int == c % P()) ==> #[trigger] vals(v) == monon(x, l, c, d),
        (-1int) % P() == P() - 1, 0 <= c < P() ==> c % P() == c, 1int % P() == 1,
{
    axiom_p(); lemma_p2(l);
    lemma_mod_add_multiples_vanish(-1, P()); lemma_small_mod((P() - 1) as nat, P() as nat); lemma_small_mod(1, P() as nat);
    if 0 <= c < P() { lemma_small_mod(c as nat, P() as nat); }
    if d == 0 || c == 0 {
        assert forall|v: Seq<Fe>| v.len() == pow2(l) && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 as int == c % P()) implies #[trigger] vals(v) == monon(x, l, c, d) by {
            assert forall|j: int| 0 <= j < pow2(l) implies #[trigger] vals(v)[j] == monon(x, l, c, d)[j] by {
                let o = 2 * rev(l, j) + 1;
                if d == 0 { assert(o * d == 0) by (nonlinear_arith) requires d == 0; lemma_rp_n(x, pow2(l) as int, 0); assert(c * 1 == c); }
                else { assert(0 * rp(x, o * d) == 0); }
                assert(v[j].0 as int == c % P());
            }
            assert(vals(v) =~= monon(x, l, c, d));
        }
    }
}
pub proof fn lemma_nbound(l: nat) requires l < 62 ensures pow2(l) <= 0x2000_0000_0000_0000, 2 * pow2(l) <= usize::MAX
{ lemma_pow2_le(l, 61); lemma_p2(60); lemma2_to64_rest(); assert(pow2(60) == 0x1000_0000_0000_0000); }
// ---- construction --------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vreverse_bits(x: usize) -> (r: usize) ensures r == rev(64, x as int), { x.reverse_bits() }
pub proof fn lemma_revshift(x: usize, b: u32, y: usize)
    requires 0 < b < 64, y == rev(64, x as int),
    ensures (y >> ((64 - b) as usize)) == rev(b as nat, x as int),
{
    lemma_rev_div(64, b as nat, x as int);
    vstd::bits::lemma_u64_shr_is_div(y as u64, (64 - b) as u64);
    assert((y >> ((64 - b) as usize)) == ((y as u64) >> ((64 - b) as u64)));
}
#[verifier::external_body]
pub fn vfmul(a: Fe, b: Fe) -> (r: Fe) ensures r.0 == (a.0 * b.0) % P(), { unimplemented!() }
pub open spec fn idx(k: int) -> bool { true }
#[verifier::external_body]
pub fn vroots(n: usize) -> (r: Vec<ShoupFactor<$T>>) ensures r@.len() == n, { unimplemented!() }
/// the powers handed to `new`
pub open spec fn ordinal(x: int, n: int, o: Seq<ShoupFactor<$T>>) -> bool { o.len() == 2 * n && forall|k: int| 0 <= k < 2 * n ==> shwf(#[trigger] o[k]) && o[k].value == rp(x, k) }
pub proof fn lemma_rootinv(x: int, n: int)
    requires n > 0, isroot(x, n), 0 <= x < P(), ensures (x * rp(x, 2 * n - 1)) % P() == 1, rp(x, 0) == 1, 0 <= rp(x, 2 * n - 1) < P(),
{
    lemma_rp(x, 2 * n - 1, 1); lemma_rp(x, 1, 2 * n - 1); lemma_rp_n(x, n, 0); lemma_pow1(x); lemma_small_mod(x as nat, P() as nat);
}
pub fn vsub_ok(lo: usize, hi: usize, n: usize) requires lo <= hi, hi <= n { }
// ---- the field's root search -----------------------------------------------------------------
pub enum AlgebraError { NoPrimitiveRoot, NTTTableError }
#[verifier::external_body]
pub fn vpow(b: Fe, e: $T) -> (r: Fe) requires b.0 < P(), ensures r.0 as int == pow(b.0 as int, e as nat) % P(), { unimplemented!() }
/// a draw from 2..=P-1
#[verifier::external_body]
pub fn vdraw() -> (r: $T) ensures 2 <= r < P(), { unimplemented!() }
#[verifier::external_body]
pub fn vis_pow2(x: $T) -> (r: bool) ensures r == ispow2(x as int), { x.is_power_of_two() }
pub open spec fn ispow2(x: int) -> bool { exists|k: nat| x == #[trigger] pow2(k) }
/// usize to the word of the field; does not panic only if it fits
#[verifier::external_body]
pub fn vdeg(x: usize) -> (r: $T) requires x <= $MAX, ensures r == x, { unimplemented!() }
impl Fe {
    #[verifier::external_body]
    pub fn mul_root_assign(&mut self, r: ShoupFactor<$T>) requires shwf(r), ensures final(self).0 < P(), final(self).0 == (old(self).0 * r.value) % P(), { unimplemented!() }
}
pub open spec fn oddp(x: int, j: int) -> int { rp(x, 2 * j + 1) }
pub proof fn lemma_isroot(w: int, n: int) requires n >= 0 ensures isroot(w, n) <==> pow(w, n as nat) % P() == P() - 1
{
    axiom_p();
    lemma_mod_add_multiples_vanish(-1, P()); lemma_small_mod((P() - 1) as nat, P() as nat);
    lemma_cg(pow(w, n as nat), -1);
}
/// odd powers of a root are roots
pub proof fn lemma_oddroot(x: int, n: int, j: int)
    requires n > 0, isroot(x, n), j >= 0, ensures isroot(oddp(x, j), n), 0 <= oddp(x, j) < P(),
{
    let e = 2 * j + 1;
    lemma_rp(x, e, 0);
    lemma_pow_cg(rp(x, e), pow(x, e as nat), n as nat);
    lemma_pow_multiplies(x, e as nat, n as nat); lemma_pow_multiplies(x, n as nat, e as nat); lemma_mul_is_commutative(e, n);
    lemma_pow_cg(pow(x, n as nat), -1, e as nat);
    lemma_negone(j as nat);
    cg_trans(pow(rp(x, e), n as nat), pow(pow(x, n as nat), e as nat), -1);
}
/// one step of the search: current times the square
pub proof fn lemma_oddstep(x: int, j: int, sq: int)
    requires j >= 0, 0 <= x < P(), sq == (x * x) % P(),
    ensures (oddp(x, j) * sq) % P() == oddp(x, j + 1), oddp(x, 0) == x,
{
    lemma_rp(x, 2 * j + 1, 2); lemma_pow1(x); lemma_small_mod(x as nat, P() as nat);
    lemma_rp(x, 1, 1);
    assert(rp(x, 2) == sq);
}
/// powers of an odd power are odd powers, and those with small exponent exhaust them
pub proof fn lemma_oddmin(x: int, n: int, j: int, r: int, i: int)
    requires n > 0, isroot(x, n), j >= 0, i >= 0, r == oddp(x, j), forall|k: int| 0 <= k < n ==> r <= #[trigger] oddp(x, k),
    ensures r <= oddp(r, i),
{
    let (a, b) = (2 * j + 1, 2 * i + 1);
    let e = a * b;
    assert(e >= 0) by (nonlinear_arith) requires a >= 0, b >= 0, e == a * b;
    lemma_rp(x, a, 0); lemma_pow_cg(rp(x, a), pow(x, a as nat), b as nat); lemma_pow_multiplies(x, a as nat, b as nat);
    lemma_cg(pow(rp(x, a), b as nat), pow(x, e as nat));
    assert(oddp(r, i) == rp(x, e));
    lemma_rp_mod(x, n, e);
    let q = e / (2 * n); let m = e % (2 * n);
    lemma_fundamental_div_mod(e, 2 * n); lemma_mod_bound(e, 2 * n);
    assert(e == 2 * (2 * (j * i) + j + i) + 1) by (nonlinear_arith) requires e == (2 * j + 1) * (2 * i + 1);
    assert(2 * n * q == 2 * (n * q)) by (nonlinear_arith);
    let k = (m - 1) / 2;
    assert(m == 2 * k + 1 && 0 <= k < n);
    assert(r <= oddp(x, k));
}
pub proof fn lemma_qpos(q: int, d: int) requires q >= 0, d > 0 ensures q > 0 ==> d <= q * d, q * d >= 0 { assert(q > 0 ==> d <= q * d) by (nonlinear_arith) requires d > 0; assert(q * d >= 0) by (nonlinear_arith) requires q >= 0, d > 0; }
pub proof fn lemma0_pow(k: nat) ensures k > 0 ==> pow(0, k) == 0 { reveal(pow); }
