use algebra::*;
use fhe_core::*;
use harness::big::*;
use harness::*;
use rand::SeedableRng;
use vfields::*;
type SRng = rand::rngs::StdRng;
fn lift(x: u128, q: u128) -> i128 { if 2 * x >= q { x as i128 - q as i128 } else { x as i128 } }
/// log t, log q, message, magnitude of the error, its sign, dimension, key type and steps, deviation in tenths, seed
fn gen(r: &mut Rng, w: u128) -> Vec<u128> {
    let q = r.r(2, w + 1);
    let t = r.r(1, q);
    let half = 1u128 << (q - t - 1);
    vec![t, q, r.below(1 << t), if r.bit() { half - r.n(half.min(3)) } else { r.below(half + 1) }, r.n(2), r.n(12), r.n(1 << 10), r.r(1, 65), r.n(1 << 30)]
}
macro_rules! word {
    ($c:ident, $C:ident, $F:ident, $P:expr, $w:expr) => {{
        type C = $C;
        type F = $F;
        let nm = stringify!($C);
        fn pack(lt: u128, lq: u128, dim: u128, bits: u128, dev: u128, g: &mut SRng) -> SecretKeyPack<C, F> {
            let st = [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][(bits >> 2) as usize % 3];
            let n = if matches!(st, Steps::BrMs) { 8 } else { dim as usize };
            let rk = if matches!(st, Steps::BrKsMs) && bits >> 5 & 1 == 1 { RingSecretKeyType::Gaussian } else if bits & 1 == 0 { RingSecretKeyType::Binary } else { RingSecretKeyType::Ternary };
            let p = Parameters::<C, F>::new(ConstParameters {
                lwe_dimension: n, lwe_plain_modulus: (1u128 << lt) as C, lwe_cipher_modulus: (1u128 << lq) as C,
                lwe_noise_standard_deviation: dev as f64 / 10.0,
                lwe_secret_key_type: if bits >> 1 & 1 == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary },
                ring_dimension: 8, ring_modulus: $P, ring_noise_standard_deviation: if bits >> 6 & 1 == 0 && $P > 1000u128 { 3.2 } else { 0.4 }, ring_secret_key_type: rk,
                blind_rotation_basis_bits: 1, steps: st, key_switching_basis_bits: 1, key_switching_standard_deviation: 0.2,
            }).unwrap();
            SecretKeyPack::new(p, g)
        }
        fn phase(sk: &[C], a: &[C], b: C, q: u128) -> u128 {
            submod(b as u128, sk.iter().zip(a).fold(0, |s, (x, y)| (s + *x as u128 * *y as u128 % q) % q), q)
        }
        // a hand-made ciphertext with a chosen error
        $c.push(case(format!("decrypt {nm}"), |r| gen(r, $w), |x| {
            let [lt, lq, m, e, neg, dim, bits, dev, seed] = x[..] else { return Ok(false) };
            let q = 1u128 << lq.min(100);
            pre!(lt >= 1 && lt < lq && lq <= $w && m < 1 << lt && neg <= 1 && dim <= 64 && dev >= 1 && 6 * dev < 10 * q);
            let d = 1u128 << (lq - lt);
            pre!(if neg == 1 { 2 * e <= d } else { 2 * e < d });
            let mut g = SRng::seed_from_u64(seed as u64);
            let p = pack(lt, lq, dim, bits, dev, &mut g);
            let s = p.lwe_secret_key();
            let mut r = Rng::new(seed as u64);
            let a: Vec<C> = s.iter().map(|_| r.below(q) as C).collect();
            let dot = s.iter().zip(&a).fold(0, |t, (x, y)| (t + *x as u128 * *y as u128 % q) % q);
            let b = (dot + m * d + if neg == 1 { q - e } else { e }) % q;
            let ct = LWECiphertext::new(a.clone(), b as C);
            let info = format!("t = 2^{lt}, q = 2^{lq}, s = {s:?}, a = {a:?}, b = {b}, error {}{e}", if neg == 1 { "-" } else { "" });
            macro_rules! dec { ($M:ident) => {
                if m <= $M::MAX as u128 {
                    eq!(p.decrypt::<$M>(&ct) as u128, m, "decrypt to {}: {info}", stringify!($M));
                    let (v, n) = p.decrypt_with_noise::<$M>(&ct);
                    eq!(v as u128, m, "decrypt_with_noise to {}: {info}", stringify!($M));
                    eq!(n as u128, e, "reported noise: {info}");
                }
            } }
            dec!(u8); dec!(u16); dec!(u32); dec!(u64);
            if m < 2 {
                eq!(p.decrypt::<bool>(&ct), m == 1, "decrypt to bool: {info}");
                eq!(p.decrypt_with_noise::<bool>(&ct).1 as u128, e, "reported noise (bool): {info}");
            }
            let de = zkfhe::Decryptor::new(p);
            if m < 256 {
                eq!(de.decrypt::<u8>(&ct) as u128, m, "Decryptor::decrypt: {info}");
                let (v, n) = de.decrypt_with_noise::<u8>(&ct);
                eq!((v as u128, n as u128), (m, e), "Decryptor::decrypt_with_noise: {info}");
            }
            Ok(true)
        }));
        // what encryption produces
        $c.push(case(format!("encrypt {nm}"), |r| gen(r, $w), |x| {
            let [lt, lq, m, _, _, dim, bits, dev, seed] = x[..] else { return Ok(false) };
            let q = 1u128 << lq.min(100);
            pre!(lt >= 1 && lt < lq && lq <= $w && m < 1 << lt && m < 1 << 8 && dim <= 64 && dev >= 1 && 6 * dev + 10 < 10 * q);
            let d = 1u128 << (lq - lt);
            let mut g = SRng::seed_from_u64(seed as u64);
            let p = pack(lt, lq, dim, bits, dev, &mut g);
            let s = p.lwe_secret_key().to_vec();
            for v in &s {
                let v = *v as u128;
                ck!(v < 2 || (bits >> 1 & 1 == 1 && v == q - 1), "secret key entry {v}");
            }
            // largest error the distribution yields
            let top = 6 * dev / 10 + 1;
            let en = zkfhe::Encryptor::new(p.clone());
            let mut masks = vec![];
            for k in 0..4 {
                let ct = match k { 0 => p.encrypt(m as u8, &mut g), 1 => p.encrypt(m as u64, &mut g), 2 => en.encrypt(m as u8, &mut g), _ if m < 2 => en.encrypt(m == 1, &mut g), _ => en.encrypt(m as u16, &mut g) };
                eq!(ct.a().len(), s.len(), "mask length");
                ck!(ct.a().iter().all(|t| (*t as u128) < q) && (ct.b() as u128) < q, "not reduced modulo q = 2^{lq}: {:?} {}", ct.a(), ct.b());
                let e = lift(submod(phase(&s, ct.a(), ct.b(), q), m * d % q, q), q);
                ck!(2 * top >= q || e.unsigned_abs() <= top, "encryption {k} of {m}: error {e} beyond the support {top}, t = 2^{lt}, q = 2^{lq}, s = {s:?}");
                if 2 * top < d {
                    let (v, n) = p.decrypt_with_noise::<u8>(&ct);
                    eq!((v as u128, n as u128), (m, e.unsigned_abs()), "round trip {k} of {m}, t = 2^{lt}, q = 2^{lq}");
                }
                masks.push(ct.a().to_vec());
            }
            if s.len() as u128 * lq >= 100 { ck!(masks[0] != masks[1] && masks[1] != masks[2], "the mask does not change"); }
            Ok(true)
        }));
        // a message outside the space is refused; the pack's keys agree with one another
        $c.push(case(format!("pack {nm}"), |r| gen(r, $w), |x| {
            let [lt, lq, m, _, _, dim, bits, dev, seed] = x[..] else { return Ok(false) };
            let q = 1u128 << lq.min(100);
            pre!(lt >= 1 && lt < lq && lq <= $w && m < 1 << lt && dim <= 64 && dev >= 1 && 6 * dev < 10 * q);
            let mut g = SRng::seed_from_u64(seed as u64);
            let p = pack(lt, lq, dim, bits, dev, &mut g);
            if lt < 63 { ck!(panics(|| p.encrypt((1u64 << lt) + m as u64, &mut SRng::seed_from_u64(1))), "message {} accepted with t = 2^{lt}", (1 << lt) + m); }
            let rk = p.ring_secret_key();
            eq!(rk.coeff_count(), 8, "ring key length");
            let mut t = rk.clone().into_ntt_polynomial();
            eq!(t.data(), p.ntt_ring_secret_key().clone().data(), "transformed ring key");
            if matches!(p.parameters().steps(), Steps::BrMs) {
                for (a, b) in p.lwe_secret_key().iter().zip(rk.iter()) {
                    let b = b.value() as u128 % $P;
                    ck!(lift(*a as u128, q) == lift(b, $P) || (*a as u128 == 1 && b == 1), "ring key {b} for LWE key {a}");
                }
            } else if p.parameters().ring_secret_key_type() != RingSecretKeyType::Gaussian {
                for b in rk.iter() { let b = b.value() as u128 % $P; ck!(b < 2 || (bits & 1 == 1 && b == $P - 1), "ring key entry {b}"); }
            }
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c = vec![];
    word!(c, u8, V8, 17, 7);
    word!(c, u16, V16, 15361, 15);
    word!(c, u32, V32, 1073479681, 31);
    word!(c, u64, V64, 4611686018427322369, 63);
    word!(c, u32, DefaultQks, 15361, 31);
    word!(c, u16, DefaultFieldU32, 132120577, 15);
    let mut seen = std::collections::HashMap::new();
    for k in c.iter_mut() { let n = seen.entry(k.name.clone()).or_insert(0); *n += 1; if *n > 1 { k.name += " (again)"; } }
    run_main("C18", c);
}
