use std::sync::Arc;
// ---- the shared table cache: a rely/guarantee reading of its locks -----------------------------
// `known` is what this thread has learnt of the shared map: entries are only ever added, never
// replaced (the guarantee every insertion below is checked against), so what was seen stays there.
// `held` says that this thread holds the mutex of the cache: then nobody else inserts, and the map
// is exactly `cur` until this thread inserts.
pub type Tables = Map<u32, NTTTable>;
pub open spec fn good(k: u32, t: NTTTable) -> bool { twf(t) && t.coeff_count_power == k && forall|i: int| i >= 0 ==> t.root.0 <= #[trigger] oddp(t.root.0 as int, i) }
/// the invariant of the shared map: every entry is a complete table of its size
pub open spec fn inv(m: Tables) -> bool { forall|k: u32| #[trigger] m.contains_key(k) ==> good(k, m[k]) }
pub open spec fn ext(a: Tables, b: Tables) -> bool { forall|k: u32| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
pub struct St { pub known: Ghost<Tables>, pub held: Ghost<bool>, pub cur: Ghost<Tables> }
pub open spec fn st_ok(s: St) -> bool { s.held@ ==> ext(s.known@, s.cur@) && inv(s.cur@) }
pub open spec fn grew(a: St, b: St) -> bool { ext(a.known@, b.known@) && st_ok(b) }
/// the lazily created lock around the map
pub struct VTab;
#[verifier::external_body]
pub fn vtab() -> (r: VTab) { unimplemented!() }
/// a guard: while it lives the map is `m`
#[verifier::external_body]
pub struct VGuard { _p: () }
impl VGuard {
    pub uninterp spec fn m(&self) -> Tables;
    /// std: HashMap::get
    #[verifier::external_body]
    pub fn get(&self, k: &u32) -> (r: Option<&Arc<NTTTable>>)
        ensures r is Some == self.m().contains_key(*k), r is Some ==> **r->Some_0 == self.m()[*k],
    { unimplemented!() }
    /// std: HashMap::contains_key
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u32) -> (r: bool) ensures r == self.m().contains_key(*k), { unimplemented!() }
    /// std: HashMap::insert on the map of a write guard; the entry must be new, complete, and made while the mutex is held
    #[verifier::external_body]
    pub fn insert(&self, st: &mut St, k: u32, t: Arc<NTTTable>)
        requires old(st).held@, st_ok(*old(st)), old(st).cur@ == self.m(), !self.m().contains_key(k), good(k, *t),
        ensures final(st).held@, st_ok(*final(st)), final(st).cur@ == self.m().insert(k, *t), final(st).known@ == old(st).known@.insert(k, *t),
    { unimplemented!() }
}
impl VTab {
    #[verifier::external_body]
    pub fn vread(&self, st: &mut St) -> (g: VGuard)
        requires st_ok(*old(st)),
        ensures inv(g.m()), ext(old(st).known@, g.m()), old(st).held@ ==> g.m() == old(st).cur@,
            final(st).known@ == g.m(), final(st).held == old(st).held, final(st).cur == old(st).cur,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vwrite(&self, st: &mut St) -> (g: VGuard)
        requires st_ok(*old(st)),
        ensures inv(g.m()), ext(old(st).known@, g.m()), old(st).held@ ==> g.m() == old(st).cur@,
            final(st).known@ == g.m(), final(st).held == old(st).held, final(st).cur == old(st).cur,
    { unimplemented!() }
}
/// taking the mutex, for the rest of the function
#[verifier::external_body]
pub fn vlock(st: &mut St)
    requires st_ok(*old(st)), !old(st).held@,
    ensures final(st).held@, inv(final(st).cur@), ext(old(st).known@, final(st).cur@), final(st).known == old(st).known,
{ unimplemented!() }
// ---- one table per size: a table is determined by its size (so a concurrent first use yields what a sequential one does)
/// modulo the field's prime the roots of X^(2^k) + 1 are the odd powers of any one of them (Lean: odd_roots)
#[verifier::external_body]
pub proof fn axiom_oddroots(k: nat, w: int, v: int)
    requires 0 <= w, 0 <= v < P(), isroot(w, pow2(k) as int), isroot(v, pow2(k) as int),
    ensures exists|i: int| i >= 0 && v == #[trigger] oddp(w, i),
{ }
pub open spec fn samev(a: Seq<ShoupFactor<$T>>, b: Seq<ShoupFactor<$T>>) -> bool { a.len() == b.len() && forall|j: int| 1 <= j < a.len() ==> (#[trigger] a[j]).value == b[j].value }
pub open spec fn same_table(a: NTTTable, b: NTTTable) -> bool {
    a.root.0 == b.root.0 && a.coeff_count == b.coeff_count && samev(a.root_powers@, b.root_powers@) && samev(a.inv_root_powers@, b.inv_root_powers@)
    && samev(a.ordinal_root_powers@, b.ordinal_root_powers@) && a.reverse_lsbs@ == b.reverse_lsbs@ && cg(a.inv_degree.value as int, b.inv_degree.value as int)
}
pub proof fn lemma_table_unique(k: u32, a: NTTTable, b: NTTTable)
    requires good(k, a), good(k, b), ensures same_table(a, b),
{
    let l = k as nat; let (x, y) = (a.root.0 as int, b.root.0 as int);
    axiom_oddroots(l, x, y); axiom_oddroots(l, y, x);
    assert(x == y);
    assert forall|j: int| 1 <= j < a.root_powers@.len() implies (#[trigger] a.root_powers@[j]).value == b.root_powers@[j].value by { assert(b.root_powers@[j].value == rp(y, rev(l, j))); }
    assert forall|j: int| 1 <= j < a.inv_root_powers@.len() implies (#[trigger] a.inv_root_powers@[j]).value == b.inv_root_powers@[j].value by { let n = pow2(l) as int; assert(b.inv_root_powers@[j].value == rp(y, 2 * n - (rev(l, j - 1) + 1))); }
    assert forall|j: int| 1 <= j < a.ordinal_root_powers@.len() implies (#[trigger] a.ordinal_root_powers@[j]).value == b.ordinal_root_powers@[j].value by { assert(b.ordinal_root_powers@[j].value == rp(y, j)); }
    assert(a.reverse_lsbs@ =~= b.reverse_lsbs@) by { assert forall|j: int| 0 <= j < a.reverse_lsbs@.len() implies a.reverse_lsbs@[j] == b.reverse_lsbs@[j] by { assert(b.reverse_lsbs@[j] == rev(l, j)); } }
    let (c, u, v) = (pow2(l) as int, a.inv_degree.value as int, b.inv_degree.value as int);
    lemma_inv_unique(c, u, v);
}
pub proof fn lemma_inv_unique(c: int, u: int, v: int) requires cg(c * u, 1), cg(c * v, 1), ensures cg(u, v),
{
    axiom_p();
    lemma_fundamental_div_mod(c * u - 1, P()); lemma_fundamental_div_mod(c * v - 1, P());
    let (s, t) = ((c * u - 1) / P(), (c * v - 1) / P());
    // u - v = u (1 - c v) - v (1 - c u) = P (v s - u t)
    assert(u - v == P() * (v * s - u * t)) by (nonlinear_arith) requires c * u - 1 == P() * s, c * v - 1 == P() * t;
    lemma_mod_multiples_basic(v * s - u * t, P()); lemma_mul_is_commutative(P(), v * s - u * t);
}
