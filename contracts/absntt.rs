// ---- transform tables: the contract of the shared NTT table (C12 decides it) ----------------
/// transform sizes 2^k the field supports
pub uninterp spec fn supported(k: nat) -> bool;
pub open spec fn ringn(n: nat) -> bool { exists|k: nat| n == #[trigger] pow2(k) && supported(k) }
pub uninterp spec fn ntt(a: Seq<int>) -> Seq<int>;
pub uninterp spec fn intt(a: Seq<int>) -> Seq<int>;
/// coefficient k of the product modulo X^n + 1, from the first m terms
pub open spec fn nsum(a: Seq<int>, b: Seq<int>, k: int, m: nat) -> int decreases m {
    if m == 0 { 0 } else { nsum(a, b, k, (m - 1) as nat) + (if m - 1 <= k { a[m - 1] * b[k - (m - 1)] } else { -(a[m - 1] * b[a.len() + k - (m - 1)]) }) }
}
pub open spec fn negmul(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |k: int| nsum(a, b, k, a.len()) % P()) }
pub open spec fn isres(a: Seq<int>) -> bool { forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < P() }
/// the transform theorem, for residues (C12)
#[verifier::external_body]
pub proof fn axiom_ntt(a: Seq<int>, b: Seq<int>)
    requires ringn(a.len()), b.len() == a.len(), isres(a), isres(b),
    ensures ntt(a).len() == a.len(), isres(ntt(a)), intt(ntt(a)) == a, intt(pmul(ntt(a), ntt(b))) == negmul(a, b), negmul(a, b) == negmul(b, a),
        pmul(ntt(a), ntt(b)) == ntt(negmul(a, b)), intt(a).len() == a.len(), isres(intt(a)), ntt(intt(a)) == a,
        ntt(padd(a, b)) == padd(ntt(a), ntt(b)), ntt(psub(a, b)) == psub(ntt(a), ntt(b)), ntt(pneg(a)) == pneg(ntt(a)),
{ }
#[verifier::external_body]
pub proof fn axiom_nttscale(a: Seq<int>, c: int)
    requires ringn(a.len()), isres(a),
    ensures ntt(pscale(a, c)) == pscale(ntt(a), c), ntt(a).len() == a.len(),
{ }
#[verifier::external_body]
pub struct NttTable { x: u64 }
pub uninterp spec fn tlog(t: NttTable) -> nat;
impl Fe {
    #[verifier::external_body]
    pub fn get_ntt_table(log_n: u32) -> (r: Result<NttTable, u32>)
        ensures supported(log_n as nat) ==> r.is_ok(), r.is_ok() ==> supported(log_n as nat) && tlog(r.unwrap()) == log_n,
    { unimplemented!() }
}
pub open spec fn lz(s: Seq<Fe>) -> bool { forall|i: int| 0 <= i < s.len() ==> lazy(#[trigger] s[i]) }
impl NttTable {
    #[verifier::external_body]
    pub fn transform_slice(&self, p: &mut [Fe])
        requires old(p)@.len() == pow2(tlog(*self)), wf(old(p)@),
        ensures wf(final(p)@), final(p)@.len() == old(p)@.len(), pv(final(p)@) == ntt(pv(old(p)@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_transform_slice(&self, p: &mut [Fe])
        requires old(p)@.len() == pow2(tlog(*self)), lz(old(p)@),
        ensures wf(final(p)@), final(p)@.len() == old(p)@.len(), pv(final(p)@) == intt(pv(old(p)@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn transform_inplace(&self, p: Polynomial) -> (r: NTTPolynomial)
        requires p.data@.len() == pow2(tlog(*self)), wf(p.data@),
        ensures wf(r.data@), r.data@.len() == p.data@.len(), pv(r.data@) == ntt(pv(p.data@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn inverse_transform_inplace(&self, p: NTTPolynomial) -> (r: Polynomial)
        requires p.data@.len() == pow2(tlog(*self)), lz(p.data@),
        ensures wf(r.data@), r.data@.len() == p.data@.len(), pv(r.data@) == intt(pv(p.data@)),
    { unimplemented!() }
}
/// std: powers of two
#[verifier::external_body]
pub fn vispow2(n: usize) -> (r: bool) ensures r == exists|k: nat| n == #[trigger] pow2(k), { n.is_power_of_two() }
#[verifier::external_body]
pub fn vtz(n: usize) -> (r: u32) ensures forall|k: nat| n == #[trigger] pow2(k) ==> r == k, { n.trailing_zeros() }
pub proof fn lemma_pv(s: Seq<Fe>) ensures isres(pv(s)), pv(s).len() == s.len(), { }
