use algebra::*;
use fhe_core::*;
use harness::*;
use rand::SeedableRng;
use vfields::*;
type SRng = rand::rngs::StdRng;
/// t, q, N, ring modulus, basis bits (blind rotation, key switching), LWE dimension, kinds, deviations
fn gen(r: &mut Rng, w: u128, p: u128, fw: u128) -> Vec<u128> {
    let p2 = |r: &mut Rng| 1u128 << r.n(w);
    let q = if r.n(8) == 0 { r.below(1 << w) } else { p2(r) };
    let t = match r.n(8) { 0 => r.below(1 << w), 1 => q, 2 => (2 * q) % (1 << w), 3 => p2(r), _ => 1u128 << r.n(q.max(1).ilog2() as u128 + 1) };
    let lg = (p - 1).trailing_zeros() as u128;
    let n = match r.n(12) { 0 => r.n(1 << 12), 1 => 0, 2 => (1u128 << r.n(64)) + r.n(2), 3 => 1 << 63, 4 => 1 << lg, 5 => 1 << lg - 1, _ => 1u128 << r.n(lg) };
    let rm = match r.n(12) { 0 => r.below(1 << fw), 1 => 0, 2 => 1, 3 => p - 1, 4 => p + 2 * n, 5 => p / 2 + 1, _ => p } % (1 << fw);
    vec![t, q, n, rm, r.r(1, 70), r.r(1, 40), r.n(1 << 40), r.n(1 << 8), r.n(1 << 20)]
}
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr, $maxlog:expr, $($C:ident $w:expr),*) => {{ $({
        type F = $F;
        type C = $C;
        const P: u128 = $P;
        fn make(x: &[u128]) -> ConstParameters<C, $T> {
            let d = |k: u128| (k % 1021) as f64 / 7.0;
            ConstParameters {
                lwe_dimension: x[6] as usize, lwe_plain_modulus: x[0] as C, lwe_cipher_modulus: x[1] as C, lwe_noise_standard_deviation: d(x[8]),
                lwe_secret_key_type: if x[7] & 1 == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary },
                ring_dimension: x[2] as usize, ring_modulus: x[3] as $T, ring_noise_standard_deviation: d(x[8] / 3 + 1),
                ring_secret_key_type: [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian][(x[7] >> 1) as usize % 3],
                blind_rotation_basis_bits: x[4] as u32, steps: [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][(x[7] >> 4) as usize % 3],
                key_switching_basis_bits: x[5] as u32, key_switching_standard_deviation: d(x[8] / 11 + 2),
            }
        }
        fn same(a: Steps, b: Steps) -> bool { format!("{a:?}") == format!("{b:?}") }
        $c.push(case(format!("new {} {}", stringify!($F), stringify!($C)), |r| gen(r, $w, P, <$T>::BITS as u128), |x| {
            pre!(x.len() == 9 && x[0] <= C::MAX as u128 && x[1] <= C::MAX as u128 && x[2] <= u64::MAX as u128 && x[3] <= <$T>::MAX as u128 && x[4] >= 1 && x[4] <= 70 && x[5] <= 70 && x[6] <= 1 << 50 && x[8] <= 1 << 40);
            let (t, q, n, rm, bits) = (x[0], x[1], x[2], x[3], x[4]);
            let ring = n.is_power_of_two() && rm == P && (P - 1) % (2 * n) == 0;
            let lwe = t.is_power_of_two() && q.is_power_of_two() && t <= q && bits <= (128 - P.leading_zeros()) as u128;
            let y = x.to_vec();
            let got = std::sync::Mutex::new(None);
            let bad = panics(|| { *got.lock().unwrap() = Some(Parameters::<C, F>::new(make(&y))); });
            let got = got.into_inner().ok().flatten();
            if ring && lwe {
                ck!(!bad, "admissible setting refused by a panic");
                let p = match got { Some(Ok(p)) => p, Some(Err(e)) => return Err(format!("admissible setting refused: {e:?}")), None => return Err("no result".into()) };
                let w = make(x);
                eq!((p.lwe_dimension() as u128, p.lwe_plain_modulus() as u128, p.lwe_cipher_modulus_value() as u128), (x[6], t, q), "LWE values");
                if q > 1 { eq!(p.lwe_cipher_modulus().mask() as u128, q - 1, "LWE modulus"); }
                eq!((p.ring_dimension() as u128, p.ring_modulus() as u128), (n, P), "ring values");
                eq!((p.lwe_noise_standard_deviation(), p.ring_noise_standard_deviation(), p.key_switching_noise_standard_deviation()), (w.lwe_noise_standard_deviation, w.ring_noise_standard_deviation, w.key_switching_standard_deviation), "deviations");
                ck!(p.lwe_secret_key_type() == w.lwe_secret_key_type && p.ring_secret_key_type() == w.ring_secret_key_type, "key types");
                ck!(same(p.steps(), w.steps), "steps {:?}, given {:?}", p.steps(), w.steps);
                eq!(p.blind_rotation_basis().bits() as u128, bits, "basis bits");
                eq!(p.key_switching_basis_bits() as u128, x[5], "key switching bits");
                let l = p.lwe_params();
                eq!((l.dimension as u128, l.plain_modulus as u128, l.cipher_modulus as u128, l.noise_standard_deviation), (x[6], t, q, w.lwe_noise_standard_deviation), "lwe_params");
                ck!(l.secret_key_type == w.lwe_secret_key_type, "lwe_params key type");
                eq!((p.lwe_noise_distribution().mean(), p.lwe_noise_distribution().std_dev()), (0.0, w.lwe_noise_standard_deviation), "LWE noise");
                eq!((p.ring_noise_distribution().mean(), p.ring_noise_distribution().std_dev()), (0.0, w.ring_noise_standard_deviation), "ring noise");
                eq!((p.key_switching_noise_distribution_for_lwe().mean(), p.key_switching_noise_distribution_for_lwe().std_dev()), (0.0, w.key_switching_standard_deviation), "key switching noise (LWE)");
                eq!((p.key_switching_noise_distribution_for_ring().mean(), p.key_switching_noise_distribution_for_ring().std_dev()), (0.0, w.key_switching_standard_deviation), "key switching noise (ring)");
                return Ok(true);
            }
            match got {
                Some(Ok(_)) => return Err(format!("accepted (ring setting {}, LWE setting and basis {})", if ring { "fine" } else { "inconsistent" }, if lwe { "fine" } else { "inconsistent" })),
                Some(Err(FHECoreError::RingDimensionUnValid(m))) => ck!(m as u128 == n && !n.is_power_of_two(), "RingDimensionUnValid({m})"),
                Some(Err(FHECoreError::RingModulusAndDimensionNotCompatible { coeff_modulus, ring_dimension })) => ck!(coeff_modulus as u128 == rm && ring_dimension as u128 == n && n.is_power_of_two() && !ring, "RingModulusAndDimensionNotCompatible({coeff_modulus}, {ring_dimension})"),
                Some(Err(e)) => return Err(format!("unexpected error {e:?}")),
                None => ck!(ring && !lwe || n == 1 << 63 || n.is_power_of_two() && !lwe, "a panic where an error is due"),
            }
            Ok(true)
        }));
        $c.push(case(format!("keys {} {}", stringify!($F), stringify!($C)), |r| { let mut x = gen(r, $w, P, <$T>::BITS as u128); x[1] = 1 << r.r(1, $w); x[0] = 1 << r.n(x[1].ilog2() as u128 + 1); x[2] = 1 << r.r(1, $maxlog + 1); x[3] = P; x[4] = 1; x[6] = if r.bit() { x[2] } else { r.n(200) }; x[8] = r.r(2000, 3000); x }, |x| {
            pre!(x.len() == 9 && x[1] <= C::MAX as u128 && x[1] >= 2 && x[1].is_power_of_two() && x[0].is_power_of_two() && x[0] <= x[1] && x[2].is_power_of_two() && x[2] >= 2 && x[2] <= 1 << $maxlog && x[3] == P && x[4] == 1 && x[5] <= 70 && x[6] <= 1 << 12 && x[8] < 1 << 30);
            let w = make(x);
            let dev = w.ring_noise_standard_deviation;
            let gauss = w.ring_secret_key_type == RingSecretKeyType::Gaussian;
            pre!(!gauss || dev > 0.2 && dev * 12.0 + 50.0 < P as f64);
            let (n, q, st) = (x[2], x[1], w.steps);
            let dim = x[6];
            let refuse = match st { Steps::BrMsKs => gauss, Steps::BrKsMs => false, Steps::BrMs => gauss || dim != n };
            let (lt, rt) = (w.lwe_secret_key_type, w.ring_secret_key_type);
            let p = Parameters::<C, F>::new(w).map_err(|e| format!("{e:?}"))?;
            if refuse {
                ck!(panics(|| { SecretKeyPack::new(p, &mut SRng::seed_from_u64(1)); }), "{st:?} with a {rt:?} ring key and n = {dim}, N = {n} accepted");
                return Ok(true);
            }
            let k = SecretKeyPack::new(p, &mut SRng::seed_from_u64(x[8] as u64));
            let s: Vec<u128> = k.lwe_secret_key().iter().map(|t| *t as u128).collect();
            eq!(s.len() as u128, dim, "LWE key length");
            for v in &s { ck!(*v < 2 || lt == LWESecretKeyType::Ternary && *v == q - 1, "{lt:?} LWE key holds {v} (q = {q})"); }
            let z: Vec<u128> = k.ring_secret_key().iter().map(|t| t.value() as u128 % P).collect();
            eq!(z.len() as u128, n, "ring key length");
            if matches!(st, Steps::BrMs) {
                let lift: Vec<u128> = s.iter().map(|v| if *v < 2 { *v } else { P - 1 }).collect();
                eq!(z, lift, "ring key against the LWE key");
            } else {
                let b = (dev * 6.0).ceil().max(if dev == 3.2 { 21.0 } else { 0.0 }) as u128;
                for v in &z { ck!(match rt { RingSecretKeyType::Binary => *v < 2, RingSecretKeyType::Ternary => *v < 2 || *v == P - 1, _ => *v <= b || P - *v <= b }, "{rt:?} ring key holds {v}"); }
                if n >= 128 {
                    ck!(z.iter().any(|v| *v == 1) || gauss, "the ring key has no one: {z:?}");
                    ck!(rt != RingSecretKeyType::Ternary || z.iter().any(|v| *v == P - 1), "a ternary ring key without -1: {z:?}");
                    ck!(!gauss || dev < 3.0 || z.iter().any(|v| *v > 1 && *v < P - 1), "a Gaussian ring key without noise: {z:?}");
                }
            }
            if dim >= 150 && q > 2 { ck!(lt != LWESecretKeyType::Ternary || s.iter().any(|v| *v == q - 1), "a ternary LWE key without -1: {s:?}"); }
            let mut t = k.ring_secret_key().clone().into_ntt_polynomial();
            eq!(t.data(), k.ntt_ring_secret_key().clone().data(), "transformed ring key");
            eq!((k.parameters().ring_dimension() as u128, k.parameters().lwe_dimension() as u128), (n, dim), "the pack's parameters");
            Ok(true)
        }));
    })* }};
}
fn main() {
    let mut c = vec![];
    field!(c, V8, u8, 17, 3, u8 8, u64 64);
    field!(c, V16, u16, 15361, 6, u16 16, u32 32);
    field!(c, V32, u32, 1073479681, 6, u32 32, u8 8);
    field!(c, V64, u64, 4611686018427322369, 6, u64 64, u16 16);
    field!(c, DefaultFieldU32, u32, 132120577, 7, u16 16);
    field!(c, DefaultQks, u32, 15361, 5, u32 32);
    run_main("C25", c);
}
