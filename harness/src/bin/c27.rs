use algebra::utils::{Aes, Block, Prg};
use harness::*;
use rand::{RngCore, SeedableRng};
/// AES-128 written from FIPS-197: S-box from the field inverse, byte-oriented rounds
struct Soft { sbox: [u8; 256] }
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b > 0 {
        if b & 1 == 1 { r ^= a; }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
impl Soft {
    fn new() -> Self {
        let mut sbox = [0u8; 256];
        for x in 0..256usize {
            let inv = (0..256usize).find(|&y| gmul(x as u8, y as u8) == 1).unwrap_or(0) as u8;
            sbox[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        let s = Soft { sbox };
        let k: Vec<u8> = (0..16).collect();
        let p: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
        let want = [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a];
        assert_eq!(s.enc(&s.keys(&k.try_into().unwrap()), p.try_into().unwrap()), want);
        s
    }
    fn keys(&self, k: &[u8; 16]) -> Vec<[u8; 4]> {
        let mut w: Vec<[u8; 4]> = k.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t.rotate_left(1);
                t = t.map(|b| self.sbox[b as usize]);
                t[0] ^= rc;
                rc = gmul(rc, 2);
            }
            let p = w[i - 4];
            w.push([0, 1, 2, 3].map(|j| p[j] ^ t[j]));
        }
        w
    }
    fn enc(&self, w: &[[u8; 4]], mut s: [u8; 16]) -> [u8; 16] {
        let ark = |s: &mut [u8; 16], r: usize| for i in 0..16 { s[i] ^= w[4 * r + i / 4][i % 4]; };
        ark(&mut s, 0);
        for r in 1..=10 {
            let b = s.map(|x| self.sbox[x as usize]);
            for c in 0..4 { for q in 0..4 { s[4 * c + q] = b[4 * ((c + q) % 4) + q]; } }
            if r < 10 {
                for c in 0..4 {
                    let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                    for q in 0..4 { s[4 * c + q] = gmul(a[q], 2) ^ gmul(a[(q + 1) % 4], 3) ^ a[(q + 2) % 4] ^ a[(q + 3) % 4]; }
                }
            }
            ark(&mut s, r);
        }
        s
    }
}
fn spread(x: u128) -> u128 {
    let mut r = harness::Rng::new(x as u64 ^ (x >> 64) as u64);
    match x % 4 { 0 => x, 1 => !0 - (x >> 2), _ => r.u128() }
}
fn by(b: Block) -> u128 { b.into() }
fn main() {
    let s: &'static Soft = Box::leak(Box::new(Soft::new()));
    let aes = move |k: u128, p: u128| u128::from_le_bytes(s.enc(&s.keys(&k.to_le_bytes()), p.to_le_bytes()));
    let mut c = vec![];
    c.push(case("encrypt_block", |r| vec![r.u128() >> r.n(128), r.u128() >> r.n(128)], move |x| {
        pre!(x.len() == 2);
        let (k, p) = (spread(x[0]), spread(x[1]));
        let a = Aes::new(Block::from(k));
        eq!(by(a.encrypt_block(Block::from(p))), aes(k, p), "AES of {p:x} under {k:x}");
        eq!(by(a.encrypt_many_blocks([Block::from(p), Block::from(k)])[1]), aes(k, k), "second of two");
        Ok(true)
    }));
    c.push(case("encrypt_block_slice", |r| vec![r.u128(), r.n(70), r.n(1 << 60)], move |x| {
        pre!(x.len() == 3 && x[1] <= 5000);
        let mut r = harness::Rng::new(x[2] as u64);
        let v: Vec<u128> = (0..x[1]).map(|_| r.u128()).collect();
        let mut b: Vec<Block> = v.iter().map(|&p| Block::from(p)).collect();
        Aes::new(Block::from(x[0])).encrypt_block_slice(&mut b);
        eq!(b.len(), v.len(), "length");
        let w = s.keys(&x[0].to_le_bytes());
        for i in 0..v.len() { eq!(by(b[i]), u128::from_le_bytes(s.enc(&w, v[i].to_le_bytes())), "block {i} of {}", v.len()); }
        Ok(v.len() > 0)
    }));
    c.push(case("stream", |r| vec![r.u128() >> r.n(128), r.n(60), r.n(1 << 60)], move |x| {
        pre!(x.len() == 3 && x[1] <= 2000);
        let k = spread(x[0]);
        let w = s.keys(&k.to_le_bytes());
        let mut r = harness::Rng::new(x[2] as u64);
        let mut p = if r.n(2) == 0 { Prg::from_seed(Block::from(k)) } else { struct One(u128, usize); impl RngCore for One {
            fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { 0 }
            fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = self.0.to_le_bytes()[self.1]; self.1 += 1; } }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }
            match Prg::from_rng(One(k, 0)) { Ok(p) => p, Err(e) => return Err(format!("from_rng: {e}")) } };
        let mut at = 0usize; // words consumed
        let mut cache: Vec<u8> = vec![];
        let mut stream = |n: usize| -> Vec<u8> { while cache.len() < n { let i = cache.len() as u128 / 16; cache.extend(s.enc(&w, i.to_le_bytes())); } cache[..n].to_vec() };
        for step in 0..x[1] {
            let n = match r.n(4) { 0 => r.n(3), 1 => r.n(20), 2 => 1 + r.n(8), _ => r.n(70) } as usize;
            let op = r.n(9);
            let (got, used): (Vec<u8>, usize) = match op {
                0 => (p.next_u32().to_le_bytes().to_vec(), 1),
                1 => (p.next_u64().to_le_bytes().to_vec(), 2),
                2 => { let mut d = vec![0; n]; p.fill_bytes(&mut d); (d, (n + 3) / 4) }
                3 => { let mut d = vec![0; 4 * n]; p.random_bytes(&mut d); (d, n) }
                4 => (by(p.random_block()).to_le_bytes().to_vec(), 4),
                5 => { let mut d = vec![Block::ZERO; n]; p.random_blocks(&mut d); (d.iter().flat_map(|&b| by(b).to_le_bytes()).collect(), 4 * n) }
                6 => (vec![p.random_byte()], 1),
                7 => { let b = p.random_bool(); let t = stream(4 * at + 4); eq!(b, t[4 * at + 3] >= 128, "bool at {at}"); (vec![], 1) }
                _ => { let mut d = vec![0; 4 * n]; if p.try_fill_bytes(&mut d).is_err() { return Err("try_fill_bytes".into()); } (d, n) }
            };
            let t = stream(4 * at + got.len());
            ck!(got[..] == t[4 * at..], "step {step} op {op}: words {at}.. read {got:x?}, the key stream has {:x?}", &t[4 * at..]);
            at += used;
        }
        Ok(x[1] > 0)
    }));
    // far into the stream, around the powers of two of the counter
    c.push(case("long_stream", |r| { let e = r.n(21) as u32; vec![r.u128() >> r.n(128), (1u128 << e).saturating_sub(r.n(8)), 1 + r.n(40)] }, move |x| {
        pre!(x.len() == 3 && x[1] <= 1 << 24 && x[2] <= 1000);
        let k = spread(x[0]);
        let w = s.keys(&k.to_le_bytes());
        let mut p = Prg::from_seed(Block::from(k));
        let mut left = x[1] as usize;
        let mut buf = vec![Block::ZERO; left.min(4096)];
        while left > 0 { let n = left.min(4096); p.random_blocks(&mut buf[..n]); left -= n; }
        for i in x[1]..x[1] + x[2] { eq!(by(p.random_block()), u128::from_le_bytes(s.enc(&w, i.to_le_bytes())), "block {i} of the stream"); }
        Ok(true)
    }));
    run_main("C27", c);
}
