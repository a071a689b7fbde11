use algebra::*;
use fhe_core::{utils::*, *};
use harness::big::*;
use harness::*;
use lattice::LWE;
use rand::SeedableRng;
use vfields::*;
use zkfhe::bfhe::Evaluator;
type SRng = rand::rngs::StdRng;
fn lift(x: u128, q: u128) -> i128 { if 2 * x >= q { x as i128 - q as i128 } else { x as i128 } }
fn phase(a: &[u128], b: u128, s: &[i128], q: u128) -> u128 {
    let mut p = b % q;
    for (x, s) in a.iter().zip(s) { p = submod(p, mulmod(*x % q, s.rem_euclid(q as i128) as u128, q), q); }
    p
}
fn truth(g: u128, b: &[bool]) -> bool {
    match g { 0 => !b[0], 1 => !(b[0] && b[1]), 2 => b[0] && b[1], 3 => b[0] || b[1], 4 => !(b[0] || b[1]), 5 => b[0] != b[1], 6 => b[0] == b[1],
        7 => (b[0] as u8 + b[1] as u8 + b[2] as u8) >= 2, _ => if b[0] { b[1] } else { b[2] } }
}
const NAMES: [&str; 9] = ["not", "nand", "and", "or", "nor", "xor", "xnor", "majority", "mux"];
/// log N, n, log q, steps, kinds, basis bits, ks bits, seed, gate, bits, errors x3
fn gen(r: &mut Rng, top: u128, w: u128, lo: u128, hi: u128) -> Vec<u128> {
    let st = r.n(3);
    let lg = r.r(lo, hi + 1);
    let lq = match r.n(4) { 0 => lg + 1, 1 => r.r(4, lg + 2), _ => r.r(4, w) }.min(w - 1);
    let n = if st == 2 { 1 << lg } else { r.r(2, 9) };
    let k = r.n(4);
    vec![lg, n, lq, st, if st == 2 { k } else { k }, r.r(1, top.min(12) + 1), r.r(1, 6), r.n(1 << 40), r.n(9), r.n(8), r.u64() as u128, r.u64() as u128, r.u64() as u128, r.n(4)]
}
macro_rules! gates {
    ($c:ident, $F:ident, $T:ident, $P:expr, $C:ident, $lo:expr, $hi:expr) => {{
        type F = $F; type C = $C;
        const P: u128 = $P;
        const TOP: u128 = 128 - (P.leading_zeros() as u128);
        let w = ((C::BITS as u128).min(TOP - 1)).min(24);
        $c.push(case(format!("gates {} {}", stringify!($F), stringify!($C)), move |r| gen(r, TOP, w, $lo, $hi), move |x| {
            if x.len() != 14 { return Ok(false) }
            let (lg, n, lq, st, kind, bits, kb, seed, gate, bs, pat) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[13]);
            pre!(lg >= 2 && lg <= $hi && n >= 1 && n <= 1 << lg && lq >= 4 && lq < w.max(5) && st < 3 && kind < 4 && bits >= 1 && bits <= TOP && kb >= 1 && kb <= lq.min(6) && gate < 9 && bs < 8 && pat < 4);
            let (nn, q) = (1u128 << lg, 1u128 << lq);
            pre!((st != 2 || n == nn) && (P - 1) % (2 * nn) == 0 && 2 * nn <= C::MAX as u128 && n >= 2);
            pre!(st != 0 || (nn * (lq.div_ceil(kb)) << kb) < 30_000);
            // rounding noise of one bootstrap's output: worst case, or ten standard deviations of independent roundings
            let dims = if st == 1 { n } else { nn };
            let sd = ((dims as f64 + 1.0) / 12.0).sqrt() * 10.0;
            let out_noise = ((dims + 1) as f64 / 2.0).min(sd) + 2.0;
            pre!(out_noise * 2.0 < q as f64 / 8.0);
            let out_noise = out_noise.ceil() as i128;
            let mut g = SRng::seed_from_u64(seed as u64);
            let p = Parameters::<C, F>::new(ConstParameters {
                lwe_dimension: n as usize, lwe_plain_modulus: 4, lwe_cipher_modulus: q as C, lwe_noise_standard_deviation: 0.01,
                lwe_secret_key_type: if kind & 1 == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary },
                ring_dimension: nn as usize, ring_modulus: P as $T, ring_noise_standard_deviation: 0.01,
                ring_secret_key_type: if kind & 2 == 0 { RingSecretKeyType::Binary } else { RingSecretKeyType::Ternary },
                blind_rotation_basis_bits: bits as u32, steps: match st { 0 => Steps::BrMsKs, 1 => Steps::BrKsMs, _ => Steps::BrMs }, key_switching_basis_bits: kb as u32, key_switching_standard_deviation: 0.01,
            }).unwrap();
            let pack = SecretKeyPack::<C, F>::new(p, &mut g);
            let ev = Evaluator::new(&pack, &mut g);
            let s: Vec<i128> = pack.lwe_secret_key().iter().map(|t| lift(*t as u128, q)).collect();
            eq!(s.len(), n as usize, "secret dimension");
            let mut r = Rng::new(seed as u64 ^ 0x55);
            // inputs: total error of the combination below an eighth of the modulus
            let ins = if gate == 0 { 1 } else if gate >= 7 { 3 } else { 2 };
            let lim = (q as i128 / 8 - 1).max(0);
            let mut left = lim;
            let mut es = vec![];
            for i in 0..ins {
                let m = if i + 1 == ins && gate != 8 { left } else { left / 2 };
                let e = match pat { 0 => 0, 1 => m, 2 => -m, _ => (x[10 + i] % (2 * m as u128 + 1)) as i128 - m };
                left -= e.abs(); es.push(e);
            }
            let b: Vec<bool> = (0..ins).map(|i| bs >> i & 1 == 1).collect();
            let enc = |bit: bool, e: i128, r: &mut Rng| -> (Vec<u128>, u128) {
                let a: Vec<u128> = (0..n).map(|_| r.below(q)).collect();
                let z = phase(&a, 0, &s, q);
                (a, (submod(0, z, q) as i128 + bit as i128 * (q as i128 / 4) + e).rem_euclid(q as i128) as u128)
            };
            let cts: Vec<_> = (0..ins).map(|i| enc(b[i], es[i], &mut r)).collect();
            let mk = |c: &(Vec<u128>, u128)| LWE::new(c.0.iter().map(|t| *t as C).collect(), c.1 as C);
            let c: Vec<LWE<C>> = cts.iter().map(mk).collect();
            // what reaches the table: the switched phase modulo 2N must stay within its segment
            let comb = |v: &[(i128, &(Vec<u128>, u128))]| -> (Vec<u128>, u128) {
                let f = |k: Option<usize>| v.iter().map(|(al, c)| al * k.map_or(c.1, |k| c.0[k]) as i128).sum::<i128>().rem_euclid(q as i128) as u128;
                ((0..n as usize).map(|k| f(Some(k))).collect(), f(None))
            };
            let within = |c: &(Vec<u128>, u128), pos: i128, margin: i128| -> bool {
                let m = 2 * nn;
                let sw = |v: u128| ((2 * v * m + q) / (2 * q)) % m;
                let a: Vec<u128> = c.0.iter().map(|v| sw(*v)).collect();
                let ph = phase(&a, sw(c.1), &s, m) as i128;
                let d = lift((ph - pos * (nn as i128 / 2)).rem_euclid(m as i128) as u128, m);
                4 * d.abs() < margin
            };
            let n1 = nn as i128;
            match gate {
                0 => {}
                1..=4 => { let k = comb(&[(1, &cts[0]), (1, &cts[1])]); pre!(within(&k, b[0] as i128 + b[1] as i128, n1)); }
                5 | 6 => { let k = comb(&[(2, &cts[0]), (-2, &cts[1])]); pre!(within(&k, 2 * (b[0] as i128 - b[1] as i128), 2 * n1)); }
                7 => { let k = comb(&[(1, &cts[0]), (1, &cts[1]), (1, &cts[2])]); pre!(within(&k, b[0] as i128 + b[1] as i128 + b[2] as i128, n1)); }
                _ => {
                    let k = comb(&[(1, &cts[0]), (1, &cts[1])]); pre!(within(&k, b[0] as i128 + b[1] as i128, n1));
                    let mut ng = comb(&[(-1, &cts[0])]); ng.1 = (ng.1 + q / 4) % q;
                    let k = comb(&[(1, &ng), (1, &cts[2])]); pre!(within(&k, !b[0] as i128 + b[2] as i128, n1));
                    // the two inner results are added and rounded once more
                    let inner = if q > 2 * nn { (n as f64 + 2.0) / 2.0 * (q as f64 / (2 * nn) as f64) } else { 0.0 };
                    pre!(2.0 * out_noise as f64 + inner + 1.0 < q as f64 / 8.0);
                }
            }
            let o = match gate {
                0 => ev.not(&c[0]), 1 => ev.nand(&c[0], &c[1]), 2 => ev.and(&c[0], &c[1]), 3 => ev.or(&c[0], &c[1]), 4 => ev.nor(&c[0], &c[1]),
                5 => ev.xor(&c[0], &c[1]), 6 => ev.xnor(&c[0], &c[1]), 7 => ev.majority(&c[0], &c[1], &c[2]), _ => ev.mux(&c[0], &c[1], &c[2]),
            };
            eq!(o.a().len(), n as usize, "{}: dimension of the result", NAMES[gate as usize]);
            let oa: Vec<u128> = o.a().iter().map(|t| *t as u128).collect();
            let ob = o.b() as u128;
            let want = truth(gate, &b);
            let d = lift((phase(&oa, ob, &s, q) as i128 - want as i128 * (q as i128 / 4)).rem_euclid(q as i128) as u128, q);
            let allow = if gate == 0 { es[0].abs() } else { out_noise };
            ck!(d.abs() <= allow, "{} of {:?} with errors {:?} (q = {q}, N = {nn}, steps {st}): off by {d} from the encoding of {want} (noise at most {allow})", NAMES[gate as usize], b, es);
            if gate == 0 { for (i, t) in oa.iter().enumerate() { eq!(*t, (q - cts[0].0[i]) % q, "not: mask entry {i}"); } eq!(ob, (q + q / 4 - cts[0].1) % q, "not: body"); }
            let m: bool = pack.decrypt(&o);
            if 8 * allow < q as i128 { eq!(m, want, "{} of {:?}: decryption", NAMES[gate as usize], b); }
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c: Vec<Case> = vec![];
    gates!(c, V32, u32, 1073479681, u16, 2, 6);
    gates!(c, V32, u32, 1073479681, u8, 2, 6);
    gates!(c, DefaultFieldU32, u32, 132120577, u16, 3, 7);
    gates!(c, V16, u16, 15361, u32, 2, 5);
    gates!(c, V64, u64, 4611686018427322369, u64, 2, 5);
    c.push(case("plain gates".to_string(), |r| vec![r.n(8)], |x| {
        if x.len() != 1 { return Ok(false) }
        pre!(x[0] < 8);
        let b: Vec<bool> = (0..3).map(|i| x[0] >> i & 1 == 1).collect();
        eq!(not(b[0]), truth(0, &b), "not"); eq!(nand(b[0], b[1]), truth(1, &b), "nand"); eq!(and(b[0], b[1]), truth(2, &b), "and"); eq!(or(b[0], b[1]), truth(3, &b), "or");
        eq!(nor(b[0], b[1]), truth(4, &b), "nor"); eq!(xor(b[0], b[1]), truth(5, &b), "xor"); eq!(xnor(b[0], b[1]), truth(6, &b), "xnor"); eq!(majority(b[0], b[1], b[2]), truth(7, &b), "majority");
        Ok(true)
    }).max(200));
    run_main("C21", c);
}
