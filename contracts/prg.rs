// FIPS-197 over 32-bit words; byte 0 of a word is its lowest byte
pub uninterp spec fn sbox(x: u8) -> u8;
#[verifier::opaque] pub open spec fn b0(x: u32) -> u8 { (x & 0xff) as u8 }
#[verifier::opaque] pub open spec fn b1(x: u32) -> u8 { ((x >> 8) & 0xff) as u8 }
#[verifier::opaque] pub open spec fn b2(x: u32) -> u8 { ((x >> 16) & 0xff) as u8 }
#[verifier::opaque] pub open spec fn b3(x: u32) -> u8 { ((x >> 24) & 0xff) as u8 }
#[verifier::opaque] pub open spec fn wd(a: u8, b: u8, c: u8, d: u8) -> u32 { (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24) }
#[verifier::opaque] pub open spec fn subw(x: u32) -> u32 { wd(sbox(b0(x)), sbox(b1(x)), sbox(b2(x)), sbox(b3(x))) }
#[verifier::opaque] pub open spec fn rotw(x: u32) -> u32 { wd(b1(x), b2(x), b3(x), b0(x)) }
pub open spec fn xt(x: u8) -> u8 { if x & 0x80 == 0 { x << 1 } else { (x << 1) ^ 0x1b } }
#[verifier::opaque] pub open spec fn mixw(x: u32) -> u32 {
    let (p, q, u, w) = (b0(x), b1(x), b2(x), b3(x));
    wd(xt(p) ^ (xt(q) ^ q) ^ u ^ w, p ^ xt(q) ^ (xt(u) ^ u) ^ w, p ^ q ^ xt(u) ^ (xt(w) ^ w), (xt(p) ^ p) ^ q ^ u ^ xt(w))
}
pub proof fn lemma_wd(a: u8, b: u8, c: u8, d: u8)
    ensures b0(wd(a, b, c, d)) == a, b1(wd(a, b, c, d)) == b, b2(wd(a, b, c, d)) == c, b3(wd(a, b, c, d)) == d
{
    reveal(wd); reveal(b0); reveal(b1); reveal(b2); reveal(b3);
    let x = wd(a, b, c, d);
    assert(((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) & 0xff == a as u32) by (bit_vector);
    assert((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) >> 8) & 0xff == b as u32) by (bit_vector);
    assert((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) >> 16) & 0xff == c as u32) by (bit_vector);
    assert((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) >> 24) & 0xff == d as u32) by (bit_vector);
}
pub proof fn lemma_subrot(x: u32) ensures subw(rotw(x)) == rotw(subw(x))
{
    reveal(subw); reveal(rotw); lemma_wd(b1(x), b2(x), b3(x), b0(x)); lemma_wd(sbox(b0(x)), sbox(b1(x)), sbox(b2(x)), sbox(b3(x)));
}
/// a 128-bit register (__m128i, __m128) as four words, lowest first
#[derive(Clone, Copy)]
pub struct Mm { pub w0: u32, pub w1: u32, pub w2: u32, pub w3: u32 }
pub open spec fn xor4(a: Mm, b: Mm) -> Mm { Mm { w0: a.w0 ^ b.w0, w1: a.w1 ^ b.w1, w2: a.w2 ^ b.w2, w3: a.w3 ^ b.w3 } }
pub open spec fn sub4(a: Mm) -> Mm { Mm { w0: subw(a.w0), w1: subw(a.w1), w2: subw(a.w2), w3: subw(a.w3) } }
pub open spec fn mix4(a: Mm) -> Mm { Mm { w0: mixw(a.w0), w1: mixw(a.w1), w2: mixw(a.w2), w3: mixw(a.w3) } }
#[verifier::opaque] pub open spec fn shrow(a: u32, b: u32, c: u32, d: u32) -> u32 { wd(b0(a), b1(b), b2(c), b3(d)) }
pub open spec fn shift4(a: Mm) -> Mm { Mm { w0: shrow(a.w0, a.w1, a.w2, a.w3), w1: shrow(a.w1, a.w2, a.w3, a.w0), w2: shrow(a.w2, a.w3, a.w0, a.w1), w3: shrow(a.w3, a.w0, a.w1, a.w2) } }
pub proof fn lemma_shsub1(a: u32, b: u32, c: u32, d: u32) ensures subw(shrow(a, b, c, d)) == shrow(subw(a), subw(b), subw(c), subw(d))
{
    reveal(subw); reveal(shrow); lemma_wd(b0(a), b1(b), b2(c), b3(d));
    lemma_wd(sbox(b0(a)), sbox(b1(a)), sbox(b2(a)), sbox(b3(a))); lemma_wd(sbox(b0(b)), sbox(b1(b)), sbox(b2(b)), sbox(b3(b)));
    lemma_wd(sbox(b0(c)), sbox(b1(c)), sbox(b2(c)), sbox(b3(c))); lemma_wd(sbox(b0(d)), sbox(b1(d)), sbox(b2(d)), sbox(b3(d)));
}
pub proof fn lemma_shsub(a: Mm) ensures sub4(shift4(a)) == shift4(sub4(a))
{
    lemma_shsub1(a.w0, a.w1, a.w2, a.w3); lemma_shsub1(a.w1, a.w2, a.w3, a.w0); lemma_shsub1(a.w2, a.w3, a.w0, a.w1); lemma_shsub1(a.w3, a.w0, a.w1, a.w2);
}
/// KeyExpansion, word i (FIPS-197, 5.2, Nk = 4)
pub open spec fn rcon(i: nat) -> u32 { if i == 1 { 1 } else if i == 2 { 2 } else if i == 3 { 4 } else if i == 4 { 8 } else if i == 5 { 16 } else if i == 6 { 32 } else if i == 7 { 64 } else if i == 8 { 128 } else if i == 9 { 27 } else { 54 } }
pub open spec fn mw(m: Mm, i: nat) -> u32 { if i == 0 { m.w0 } else if i == 1 { m.w1 } else if i == 2 { m.w2 } else { m.w3 } }
pub open spec fn kw(key: Mm, i: nat) -> u32 decreases i
{
    if i < 4 { mw(key, i) }
    else if i % 4 == 0 { kw(key, (i - 4) as nat) ^ (subw(rotw(kw(key, (i - 1) as nat))) ^ rcon(i / 4)) }
    else { kw(key, (i - 4) as nat) ^ kw(key, (i - 1) as nat) }
}
pub open spec fn rk(key: Mm, n: nat) -> Mm { Mm { w0: kw(key, 4 * n), w1: kw(key, 4 * n + 1), w2: kw(key, 4 * n + 2), w3: kw(key, 4 * n + 3) } }
pub open spec fn rks(key: Mm) -> Seq<Mm> { Seq::new(11, |n: int| rk(key, n as nat)) }
/// Cipher (FIPS-197, 5.1)
pub open spec fn fround(s: Mm, k: Mm) -> Mm { xor4(mix4(shift4(sub4(s))), k) }
pub open spec fn rnds(ks: Seq<Mm>, s: Mm, n: nat) -> Mm decreases n { if n == 0 { xor4(s, ks[0]) } else { fround(rnds(ks, s, (n - 1) as nat), ks[n as int]) } }
pub open spec fn cipher(ks: Seq<Mm>, s: Mm) -> Mm { xor4(shift4(sub4(rnds(ks, s, 9))), ks[10]) }
pub open spec fn aes128(key: Mm, s: Mm) -> Mm { cipher(rks(key), s) }
// intrinsics (Intel SDM)
#[verifier::external_body] pub fn _mm_setzero_si128() -> (r: Mm) ensures r == (Mm { w0: 0, w1: 0, w2: 0, w3: 0 }) { unimplemented!() }
pub proof fn lemma_xcomm(a: Mm, b: Mm) ensures xor4(a, b) == xor4(b, a) { let (p, q) = (a.w0, b.w0); assert(p ^ q == q ^ p) by (bit_vector); let (p, q) = (a.w1, b.w1); assert(p ^ q == q ^ p) by (bit_vector); let (p, q) = (a.w2, b.w2); assert(p ^ q == q ^ p) by (bit_vector); let (p, q) = (a.w3, b.w3); assert(p ^ q == q ^ p) by (bit_vector); }
#[verifier::external_body] pub fn _mm_xor_si128(a: Mm, b: Mm) -> (r: Mm) ensures r == xor4(a, b) { unimplemented!() }
#[verifier::external_body] pub fn _mm_castps_si128(a: Mm) -> (r: Mm) ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn _mm_castsi128_ps(a: Mm) -> (r: Mm) ensures r == a { unimplemented!() }
#[verifier::external_body] pub fn _mm_shuffle_ps(a: Mm, b: Mm, i: u8) -> (r: Mm)
    ensures r == (Mm { w0: mw(a, (i % 4) as nat), w1: mw(a, (i / 4 % 4) as nat), w2: mw(b, (i / 16 % 4) as nat), w3: mw(b, (i / 64) as nat) }) { unimplemented!() }
#[verifier::external_body] pub fn _mm_shuffle_epi32(a: Mm, i: u8) -> (r: Mm)
    ensures r == (Mm { w0: mw(a, (i % 4) as nat), w1: mw(a, (i / 4 % 4) as nat), w2: mw(a, (i / 16 % 4) as nat), w3: mw(a, (i / 64) as nat) }) { unimplemented!() }
#[verifier::external_body] pub fn _mm_aeskeygenassist_si128(a: Mm, i: u8) -> (r: Mm)
    ensures r == (Mm { w0: subw(a.w1), w1: rotw(subw(a.w1)) ^ (i as u32), w2: subw(a.w3), w3: rotw(subw(a.w3)) ^ (i as u32) }) { unimplemented!() }
#[verifier::external_body] pub fn _mm_aesenc_si128(a: Mm, k: Mm) -> (r: Mm) ensures r == xor4(mix4(sub4(shift4(a))), k) { unimplemented!() }
#[verifier::external_body] pub fn _mm_aesenclast_si128(a: Mm, k: Mm) -> (r: Mm) ensures r == xor4(sub4(shift4(a)), k) { unimplemented!() }
/// one step of the key schedule out of the shuffles
pub proof fn lemma_step(a: Mm, t: u32)
    ensures (a.w0 ^ 0) ^ 0 == a.w0, (a.w0 ^ 0) ^ 0 ^ t == a.w0 ^ t, (a.w1 ^ 0) ^ a.w0 ^ t == a.w1 ^ (a.w0 ^ t), (a.w1 ^ 0) ^ (a.w0 ^ 0) ^ t == a.w1 ^ (a.w0 ^ t),
        (a.w2 ^ a.w1) ^ (a.w0 ^ 0) ^ t == a.w2 ^ (a.w1 ^ (a.w0 ^ t)), (a.w3 ^ a.w0) ^ (a.w2 ^ a.w1) ^ t == a.w3 ^ (a.w2 ^ (a.w1 ^ (a.w0 ^ t)))
{
    let (p, q, u, w) = (a.w0, a.w1, a.w2, a.w3);
    assert((p ^ 0) ^ 0 == p && (p ^ 0) ^ 0 ^ t == p ^ t && (q ^ 0) ^ p ^ t == q ^ (p ^ t) && (q ^ 0) ^ (p ^ 0) ^ t == q ^ (p ^ t)
        && (u ^ q) ^ (p ^ 0) ^ t == u ^ (q ^ (p ^ t)) && (w ^ p) ^ (u ^ q) ^ t == w ^ (u ^ (q ^ (p ^ t)))) by (bit_vector);
}
pub proof fn lemma_rk(key: Mm, n: nat)
    ensures rk(key, n + 1).w0 == rk(key, n).w0 ^ (subw(rotw(rk(key, n).w3)) ^ rcon(n + 1)), rk(key, n + 1).w1 == rk(key, n).w1 ^ rk(key, n + 1).w0,
        rk(key, n + 1).w2 == rk(key, n).w2 ^ rk(key, n + 1).w1, rk(key, n + 1).w3 == rk(key, n).w3 ^ rk(key, n + 1).w2
{
    let i = 4 * (n + 1);
    assert(i % 4 == 0 && (i + 1) % 4 == 1 && (i + 2) % 4 == 2 && (i + 3) % 4 == 3 && i / 4 == n + 1);
    assert(kw(key, i) == kw(key, (i - 4) as nat) ^ (subw(rotw(kw(key, (i - 1) as nat))) ^ rcon(i / 4)));
    assert(kw(key, i + 1) == kw(key, (i - 3) as nat) ^ kw(key, i));
    assert(kw(key, i + 2) == kw(key, (i - 2) as nat) ^ kw(key, i + 1));
    assert(kw(key, i + 3) == kw(key, (i - 1) as nat) ^ kw(key, i + 2));
}
/// a round key out of its predecessor as the code computes it
pub open spec fn nexts(a: Mm, b: Mm, rc: u32) -> bool {
    let t = rotw(subw(a.w3)) ^ rc;
    b.w0 == a.w0 ^ t && b.w1 == a.w1 ^ (a.w0 ^ t) && b.w2 == a.w2 ^ (a.w1 ^ (a.w0 ^ t)) && b.w3 == a.w3 ^ (a.w2 ^ (a.w1 ^ (a.w0 ^ t)))
}
pub proof fn lemma_next(key: Mm, n: nat, b: Mm) requires nexts(rk(key, n), b, rcon(n + 1)) ensures b == rk(key, n + 1)
{ lemma_rk(key, n); lemma_subrot(rk(key, n).w3); }
impl Aes {
    pub open spec fn wf(&self) -> bool { self.0@.len() == 11 }
    pub open spec fn ks(&self) -> Seq<Mm> { Seq::new(11, |n: int| self.0@[n].0) }
}
impl Block {
    /// the words of the all-zero block
    pub open spec fn spec_zero() -> Block { Block(Mm { w0: 0, w1: 0, w2: 0, w3: 0 }) }
}
#[verifier::external_body] pub fn vzeros(n: usize) -> (r: Vec<Block>) ensures r@.len() == n { unimplemented!() }
pub fn vsub_ok(lo: usize, hi: usize, n: usize) requires lo <= hi, hi <= n { }
#[verifier::external_body] pub fn vcopy_in(d: &mut Vec<Block>, s: &mut [Block], lo: usize, hi: usize)
    requires lo <= hi <= old(s)@.len(), old(d)@.len() == hi - lo ensures final(d)@ == old(s)@.subrange(lo as int, hi as int), final(s)@ == old(s)@ { unimplemented!() }
#[verifier::external_body] pub fn vcopy_out(d: &mut [Block], lo: usize, hi: usize, s: &Vec<Block>)
    requires lo <= hi <= old(d)@.len(), s@.len() == hi - lo
    ensures final(d)@.len() == old(d)@.len(), forall|j: int| #![trigger final(d)@[j]] 0 <= j < final(d)@.len() ==> final(d)@[j] == (if lo <= j < hi { s@[j - lo] } else { old(d)@[j] }) { unimplemented!() }
/// bytemuck::cast of [Block; 8] to [u32; 32] and of [u64; 2], u128 to Block (little-endian)
#[verifier::external_body] pub fn vcast32(b: Vec<Block>) -> (r: Vec<u32>)
    ensures r@.len() == 4 * b@.len(), forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> r@[j] == mw(b@[j / 4].0, (j % 4) as nat) { unimplemented!() }
pub open spec fn ctr(x: u64) -> Mm { Mm { w0: (x & 0xffff_ffff) as u32, w1: (x >> 32) as u32, w2: 0, w3: 0 } }
pub open spec fn of64(x: u64, y: u64) -> Mm { Mm { w0: (x & 0xffff_ffff) as u32, w1: (x >> 32) as u32, w2: (y & 0xffff_ffff) as u32, w3: (y >> 32) as u32 } }
pub open spec fn of128(x: u128) -> Mm { Mm { w0: (x & 0xffff_ffff) as u32, w1: ((x >> 32) & 0xffff_ffff) as u32, w2: ((x >> 64) & 0xffff_ffff) as u32, w3: (x >> 96) as u32 } }
pub proof fn lemma_ctr(x: u64) ensures of64(x, 0) == ctr(x) { assert((0u64 & 0xffff_ffff) as u32 == 0 && (0u64 >> 32) as u32 == 0) by (bit_vector); }
#[verifier::external_body] pub fn vcast_64(m: [u64; 2]) -> (r: Block) ensures r.0 == of64(m@[0], m@[1]) { unimplemented!() }
#[verifier::external_body] pub fn vcast_128(m: u128) -> (r: Block) ensures r.0 == of128(m) { unimplemented!() }
/// word k of the key stream: AES-128 of the little-endian counter k / 4
pub open spec fn kword(ks: Seq<Mm>, k: int) -> u32 { mw(cipher(ks, ctr((k / 4) as u64)), (k % 4) as nat) }
pub open spec fn kbyte(ks: Seq<Mm>, k: int) -> u8 { let w = kword(ks, k / 4); if k % 4 == 0 { b0(w) } else if k % 4 == 1 { b1(w) } else if k % 4 == 2 { b2(w) } else { b3(w) } }
/// rand_core::block::BlockRng<PrgCore>: hands out the words of successive `generate` calls; pos words are consumed
#[verifier::external_body] pub struct BlockRng { x: u64 }
impl BlockRng {
    pub uninterp spec fn ks(&self) -> Seq<Mm>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body] pub fn from_seed(seed: Block) -> (r: BlockRng) ensures r.ks() == rks(seed.0), r.pos() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn next_u32(&mut self) -> (r: u32) requires 0 <= old(self).pos() < LIM() ensures r == kword(old(self).ks(), old(self).pos()), final(self).ks() == old(self).ks(), final(self).pos() == old(self).pos() + 1 { unimplemented!() }
    #[verifier::external_body] pub fn next_u64(&mut self) -> (r: u64) requires 0 <= old(self).pos() < LIM() ensures r == j64(kword(old(self).ks(), old(self).pos()), kword(old(self).ks(), old(self).pos() + 1)), final(self).ks() == old(self).ks(), final(self).pos() == old(self).pos() + 2 { unimplemented!() }
    #[verifier::external_body] pub fn fill_bytes(&mut self, dest: &mut [u8]) requires 0 <= old(self).pos() < LIM()
        ensures final(dest)@.len() == old(dest)@.len(), final(self).ks() == old(self).ks(), final(self).pos() == old(self).pos() + (old(dest)@.len() + 3) / 4,
            forall|j: int| #![trigger final(dest)@[j]] 0 <= j < final(dest)@.len() ==> final(dest)@[j] == kbyte(old(self).ks(), 4 * old(self).pos() + j) { unimplemented!() }
}
pub open spec fn LIM() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn j64(a: u32, b: u32) -> u64 { (a as u64) | ((b as u64) << 32) }

pub struct Standard;
/// n consecutive words from position p, as blocks
pub open spec fn kblk(ks: Seq<Mm>, p: int) -> Mm { Mm { w0: kword(ks, p), w1: kword(ks, p + 1), w2: kword(ks, p + 2), w3: kword(ks, p + 3) } }
impl Prg {
    /// rand: u128 of the Standard distribution is two next_u64, low half first
    #[verifier::external_body] pub fn vgen128(&mut self) -> (r: u128) requires 0 <= old(self).0.pos() < LIM()
        ensures of128(r) == kblk(old(self).0.ks(), old(self).0.pos()), final(self).0.ks() == old(self).0.ks(), final(self).0.pos() == old(self).0.pos() + 4 { unimplemented!() }
    /// rand: gen::<Block>() samples the Standard distribution
    /// bytemuck::cast_slice_mut of a block slice and fill_bytes of the bytes
    #[verifier::external_body] pub fn vfill_blocks(&mut self, buf: &mut [Block]) requires 0 <= old(self).0.pos() < LIM()
        ensures final(buf)@.len() == old(buf)@.len(), final(self).0.ks() == old(self).0.ks(), final(self).0.pos() == old(self).0.pos() + 4 * old(buf)@.len(),
            forall|j: int| #![trigger final(buf)@[j]] 0 <= j < final(buf)@.len() ==> final(buf)@[j].0 == kblk(old(self).0.ks(), old(self).0.pos() + 4 * j) { unimplemented!() }
}
/// reading n blocks at once or one at a time gives the same blocks; at a block boundary they are the counter blocks
pub proof fn thm_split(ks: Seq<Mm>, p: int, j: int) requires p % 4 == 0, p >= 0, j >= 0, p + 4 * j + 4 <= 4 * 0x1_0000_0000_0000_0000
    ensures kblk(ks, p + 4 * j) == cipher(ks, ctr((p / 4 + j) as u64))
{
    let q = p + 4 * j;
    assert(q % 4 == 0 && q / 4 == p / 4 + j && (q + 1) / 4 == q / 4 && (q + 2) / 4 == q / 4 && (q + 3) / 4 == q / 4 && (q + 1) % 4 == 1 && (q + 2) % 4 == 2 && (q + 3) % 4 == 3);
}
/// passing an array of Copy elements by value copies it
#[verifier::external_body] pub fn vdup(b: &Vec<Block>) -> (r: Vec<Block>) ensures r@ == b@ { unimplemented!() }
