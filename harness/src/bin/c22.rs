use algebra::*;
use fhe_core::*;
use harness::big::*;
use harness::*;
use lattice::*;
use rand::SeedableRng;
use vfields::*;
type SRng = rand::rngs::StdRng;
fn lift(x: u128, q: u128) -> i128 { if 2 * x >= q { x as i128 - q as i128 } else { x as i128 } }
/// log n, basis bits, kinds, seed, shape of the look-up table, b, then a
fn gen(r: &mut Rng, top: u128, maxlog: u128, w: u128) -> Vec<u128> {
    let lg = r.r(1, maxlog + 1);
    let m = (2u128 << lg).min(1 << w);
    // small secrets make every phase likely
    let dim = if r.bit() { r.r(1, 4) } else { r.r(1, 20) };
    let mode = r.n(5);
    let mut v = vec![lg, r.r(1, top + 1), r.n(1 << 8), r.n(1 << 30), r.n(4), match r.n(5) { 0 => 0, 1 => m / 2, 2 => m - 1, _ => r.below(m) }];
    for _ in 0..dim { v.push(match mode { 0 => 0, 1 if r.bit() => 0, 2 if r.bit() => m / 2, 3 => [0, 1, m - 1, m / 2, m / 2 - 1, (m / 2 + 1) % m][r.n(6) as usize], _ => r.below(m) }); }
    v
}
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr, $($C:ident $w:expr),*) => {{ $({
        type F = $F;
        type C = $C;
        const P: u128 = $P;
        fn val(v: &[F]) -> Vec<u128> { v.iter().map(|t| t.value() as u128 % P).collect() }
        fn setup(lg: u128, bits: u128, kind: u128, dim: usize, g: &mut SRng) -> (SecretKeyPack<C, F>, BlindRotationKey<F>) {
            let p = Parameters::<C, F>::new(ConstParameters {
                lwe_dimension: dim, lwe_plain_modulus: 4, lwe_cipher_modulus: 1 << ($w - 1), lwe_noise_standard_deviation: 0.01,
                lwe_secret_key_type: if kind & 1 == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary },
                ring_dimension: 1 << lg, ring_modulus: P as $T,
                ring_noise_standard_deviation: 0.01, // every sample rounds to zero
                ring_secret_key_type: if kind & 2 == 0 { RingSecretKeyType::Binary } else { RingSecretKeyType::Ternary },
                blind_rotation_basis_bits: bits as u32, steps: Steps::BrMsKs, key_switching_basis_bits: 1, key_switching_standard_deviation: 0.2,
            }).unwrap();
            let s = SecretKeyPack::new(p, g);
            let k = BlindRotationKey::generate(&s, g);
            (s, k)
        }
        $c.push(case(format!("blind_rotate {} {}", stringify!($F), stringify!($C)), |r| gen(r, (128 - P.leading_zeros()) as u128, $lg, $w), |x| {
            if x.len() < 7 || x.len() > 70 { return Ok(false) }
            let (lg, bits, kind, seed, shape, b) = (x[0], x[1], x[2], x[3], x[4], x[5]);
            pre!(lg >= 1 && lg <= $lg && bits >= 1 && bits < <$T>::BITS as u128 && bits <= (128 - P.leading_zeros()) as u128);
            let n = 1usize << lg;
            pre!(x[5..].iter().all(|t| *t < 2 * n as u128 && *t <= C::MAX as u128) && kind < 256 && shape < 4);
            let a: Vec<C> = x[6..].iter().map(|t| *t as C).collect();
            let mut g = SRng::seed_from_u64(seed as u64);
            let (pack, key) = setup(lg, bits, kind, a.len(), &mut g);
            ck!(matches!(&key, BlindRotationKey::Binary(_)) == (kind & 1 == 0), "key kind");
            let mut r = Rng::new(seed as u64);
            let lut: Vec<u128> = (0..n).map(|i| match shape { 0 => r.below(P), 1 => (i == 0) as u128, 2 => i as u128 % P, _ => P / 8 }).collect();
            let qc = 1u128 << ($w - 1);
            let z: Vec<i128> = pack.lwe_secret_key().iter().map(|t| lift(*t as u128, qc)).collect();
            for t in &z { ck!((-((kind & 1) as i128)..=1).contains(t), "secret {t}"); }
            let m = (b as i128 - z.iter().zip(&a).map(|(z, a)| z * *a as i128).sum::<i128>()).rem_euclid(2 * n as i128) as usize;
            let poly = Polynomial::new(lut.iter().map(|t| F::new(*t as $T)).collect());
            let out = key.blind_rotate(poly, &LWE::new(a, b as C), pack.parameters().blind_rotation_basis());
            let s = val(pack.ring_secret_key().as_slice());
            let (oa, ob) = (val(out.a_slice()), val(out.b_slice()));
            eq!((oa.len(), ob.len()), (n, n), "length");
            let ph: Vec<u128> = ob.iter().zip(negmul(&oa, &s, P)).map(|(x, y)| submod(*x, y, P)).collect();
            // X^-m * lut
            let want: Vec<u128> = (0..n).map(|i| { let j = (i + m) % (2 * n); if j < n { lut[j] } else { submod(0, lut[j - n], P) } }).collect();
            eq!(ph, want, "N = {n}, bits = {bits}, z = {z:?}, phase = {m}");
            Ok(true)
        }));
    })* }};
}
fn main() {
    let mut c = vec![];
    field!(c, V8, u8, 17, 3, u8 8, u32 32);
    field!(c, V16, u16, 15361, 6, u16 16, u8 8);
    field!(c, V32, u32, 1073479681, 6, u32 32, u64 64);
    field!(c, V64, u64, 4611686018427322369, 6, u64 64, u16 16);
    field!(c, DefaultFieldU32, u32, 132120577, 7, u16 16);
    field!(c, DefaultQks, u32, 15361, 5, u16 16);
    run_main("C22", c);
}
