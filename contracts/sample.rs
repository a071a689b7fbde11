// ---- the random source: any sequence of draws -----------------------------------------------
#[verifier::external_body]
pub struct Rn { x: u64 }
/// the words drawn so far by next_u32
pub uninterp spec fn draws(r: Rn) -> Seq<u32>;
impl Rn {
    #[verifier::external_body]
    pub fn next_raw(&mut self) -> (r: u32) ensures draws(*final(self)) == draws(*old(self)).push(r) { unimplemented!() }
    pub fn next_u32(&mut self) -> (r: u32)
        ensures draws(*final(self)) == draws(*old(self)).push(r), draws(*final(self)).last() == r, r & 0b1 == b1(r, 0), r & 0b11 == b2(r, 0), r & 0b1 <= 1, r & 0b11 <= 3
    { let r = self.next_raw(); proof { lemma_and(r); lemma_shr0(r); } r }
    #[verifier::external_body]
    pub fn fill_bytes(&mut self, x: &mut [u8; 6]) { unimplemented!() }
}
pub fn vfill<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ let mut v = Vec::new(); let mut i = 0; while i < n invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x, decreases n - i { v.push(x); i += 1; } v }
/// the i-th piece of `chunks_exact_mut(n)`
#[verifier::external_body]
pub fn vchunkm<T>(v: &mut Vec<T>, i: usize, n: usize) -> (r: &mut [T])
    requires n > 0, (i + 1) * n <= old(v)@.len(),
    ensures r@ == old(v)@.subrange(i * n, (i + 1) * n), final(r)@.len() == n, final(v)@ == old(v)@.subrange(0, i * n) + final(r)@ + old(v)@.subrange((i + 1) * n, old(v)@.len() as int)
{ &mut v[i * n..(i + 1) * n] }
/// bit k of a draw; base-4 digit k of a draw
pub open spec fn b1(d: u32, k: int) -> u32 { (d >> (k as u32)) & 1u32 }
pub open spec fn b2(d: u32, k: int) -> u32 { (d >> ((2 * k) as u32)) & 3u32 }
/// a ternary sample from two bits: 0, 0, 1, -1
pub open spec fn tern(x: u32, m: int) -> int { if x < 2 { 0 } else if x == 2 { 1 } else { m - 1 } }
pub proof fn lemma_shr1(d: u32, k: u32) requires k < 31 ensures (d >> k) >> 1u32 == d >> ((k + 1) as u32)
{ assert(k < 31 ==> (d >> k) >> 1u32 == d >> add(k, 1)) by (bit_vector); }
pub proof fn lemma_shr2(d: u32, k: u32) requires k < 30 ensures (d >> k) >> 2u32 == d >> ((k + 2) as u32)
{ assert(k < 30 ==> (d >> k) >> 2u32 == d >> add(k, 2)) by (bit_vector); }
pub proof fn lemma_and(r: u32) ensures r & 0b1 == r & 1u32, r & 0b11 == r & 3u32, r & 1u32 <= 1, r & 3u32 <= 3
{ assert(r & 1u32 <= 1 && r & 3u32 <= 3) by (bit_vector); }
pub proof fn lemma_shr0(d: u32) ensures d >> 0u32 == d { assert(d >> 0u32 == d) by (bit_vector); }
/// entry i of a vector made of n-entry pieces, one draw a piece
pub open spec fn drawn1(v: Seq<int>, ds: Seq<u32>, base: int) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == b1(ds[base + i / 32], i % 32) }
pub open spec fn drawn2(v: Seq<int>, ds: Seq<u32>, base: int, m: int) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == tern(b2(ds[base + i / 16], i % 16), m) }
pub proof fn lemma_piece(i: int, c: int, n: int) requires n > 0, c * n <= i < (c + 1) * n ensures i / n == c, i % n == i - c * n
{ assert((c + 1) * n == c * n + n) by (nonlinear_arith); lemma_fundamental_div_mod_converse(i, n, c, i - c * n); }
pub fn vsub_ok(lo: usize, hi: usize, n: usize) requires lo <= hi, hi <= n { }
