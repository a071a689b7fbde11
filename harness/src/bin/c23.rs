use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec};
use algebra::*;
use harness::*;
use lattice::{sample_binary_values, sample_ternary_values, BinarySampler, DiscreteGaussian, TernarySampler};
use rand::{distributions::Distribution, CryptoRng, RngCore};
use vfields::*;
/// a source under the case's control: some chosen words first, then pseudo-random ones; keeps what it gave
struct Src { script: Vec<u64>, at: usize, rest: harness::Rng, w32: Vec<u32>, w64: Vec<u64> }
impl Src {
    fn new(kind: u128, len: u128, seed: u128) -> Self {
        let mut r = harness::Rng::new(seed as u64);
        let script = (0..len as usize).map(|i| match kind % 8 {
            0 => 0, 1 => u64::MAX, 2 => 1, 3 => 1 << 63 | 1 << 31, 4 => u64::MAX - (r.n(5) as u64), 5 => (r.n(6) as u64) * 0x1_0000_0001, 6 => if i % 2 == 0 { 0 } else { u64::MAX }, _ => r.u64(),
        }).collect();
        Src { script, at: 0, rest: r, w32: vec![], w64: vec![] }
    }
    fn next(&mut self) -> u64 {
        self.at += 1;
        self.script.get(self.at - 1).copied().unwrap_or_else(|| self.rest.u64())
    }
}
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 { let x = self.next() as u32; self.w32.push(x); x }
    fn next_u64(&mut self) -> u64 { let x = self.next(); self.w64.push(x); x }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = self.next() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Src {}
fn gen(r: &mut harness::Rng) -> Vec<u128> {
    let n = match r.n(4) { 0 => r.n(5), 1 => 16 * r.n(6) + r.n(3), 2 => (16 * r.r(1, 6)) - 1, _ => r.n(140) };
    vec![n, r.n(8), r.n(40), r.n(1 << 60)]
}
fn src(x: &[u128]) -> Src { Src::new(x[1], x[2], x[3]) }
fn bits(w: &[u32], n: usize, b: usize) -> Vec<u32> { (0..n).map(|i| w[i / (32 / b)] >> (b * (i % (32 / b))) & ((1 << b) - 1)).collect() }
fn tern(x: u32, p: u128) -> u128 { match x { 0 | 1 => 0, 2 => 1, _ => p - 1 } }
/// deviations and means small enough for the modulus; the widest deviation allowed with it
fn dev(x: &[u128], p: u128) -> (f64, f64, f64) {
    let p = p as f64;
    let sd = [0.25, 0.5, 1.0, 3.2, 8.0, 12.6, 40.0, 1e3, 1e6][x[4] as usize % 9];
    let mean = [0.0, -0.0, 0.5, -0.5, 1.49999, -3.0, 7.25, -100.75, 1e5][x[5] as usize % 9];
    let max = [6.0 * sd, 6.0 * sd, sd * 1.0001, sd * 2.0, sd * 20.0, p - 0.5 - f64::abs(mean)][x[6] as usize % 6];
    (mean, sd, max)
}
fn fits(mean: f64, sd: f64, max: f64, p: u128) -> bool { sd >= 0.0 && max > sd && mean.abs() + max + 0.5 <= p as f64 && (p as f64) < 9e15 }
fn near(v: u128, p: u128, mean: f64, max: f64) -> bool {
    let ok = |k: f64| (k - mean).abs() <= max + 0.5;
    v < p && (ok(v as f64) || v > 0 && ok(-((p - v) as f64)))
}
const ODD: [f64; 12] = [-1.0, -1e-300, -0.0, 0.0, 5e-324, 1.0, 3.2, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 6.4];
fn refuse(sd: f64, max: Option<f64>) -> bool { !(sd.is_finite() && sd >= 0.0) || max.map_or(false, |m| m <= sd) }
macro_rules! word { ($c:ident, $($T:ident)*) => { $(
    $c.push(case(concat!("binary ", stringify!($T)), gen, |x| {
        pre!(x.len() == 4 && x[0] < 1000);
        let mut s = src(x);
        let v: Vec<$T> = sample_binary_values(x[0] as usize, &mut s);
        eq!(v.len() as u128, x[0], "length");
        ck!(v.iter().all(|&e| e <= 1), "not binary: {v:?}");
        eq!(v.iter().map(|&e| e as u32).collect::<Vec<_>>(), bits(&s.w32, v.len(), 1), "own bits");
        let e: $T = BinarySampler.sample(&mut s);
        eq!(e as u32, s.w32.last().copied().unwrap_or(9) & 1, "BinarySampler");
        Ok(true)
    }));
    $c.push(case(concat!("ternary ", stringify!($T)), |r| { let mut v = gen(r); v.push(r.word(<$T>::BITS)); v }, |x| {
        pre!(x.len() == 5 && x[0] < 1000 && x[4] >= 1 && x[4] <= <$T>::MAX as u128);
        let mut s = src(x);
        let p = x[4];
        let v: Vec<$T> = sample_ternary_values(p as $T, x[0] as usize, &mut s);
        eq!(v.len() as u128, x[0], "length");
        ck!(v.iter().all(|&e| e == 0 || e == 1 || e as u128 == p - 1), "not ternary: {v:?}");
        eq!(v.iter().map(|&e| e as u128).collect::<Vec<_>>(), bits(&s.w32, v.len(), 2).iter().map(|&b| tern(b, p)).collect::<Vec<_>>(), "own bits");
        let e: $T = TernarySampler::<$T>::new(p as $T).sample(&mut s);
        eq!(e as u128, tern(s.w32.last().copied().unwrap_or(0) & 3, p), "TernarySampler");
        Ok(true)
    }));
    $c.push(case(concat!("gaussian ", stringify!($T)), |r| { let mut v = gen(r); v[0] %= 30; v.extend([r.n(9), r.n(9), r.n(6), r.word(<$T>::BITS)]); v }, |x| {
        pre!(x.len() == 8 && x[0] < 1000 && x[7] >= 1 && x[7] <= <$T>::MAX as u128);
        let p = x[7];
        let (mean, sd, max) = dev(x, p);
        pre!(fits(mean, sd, max, p));
        let d = if x[6] % 2 == 0 && max == 6.0 * sd { DiscreteGaussian::<$T>::new(p as $T, mean, sd) } else { DiscreteGaussian::<$T>::new_with_max_limit(p as $T, mean, sd, max) };
        let d = match d { Ok(d) => d, Err(_) => return Err("refused".into()) };
        eq!((d.mean().to_bits(), d.std_dev().to_bits(), d.max_std_dev().to_bits()), (mean.to_bits(), sd.to_bits(), max.to_bits()), "parameters");
        let mut s = src(&[x[0], x[1], x[2] % 3, x[3]]);
        for _ in 0..x[0] { let e: $T = d.sample(&mut s); ck!(near(e as u128, p, mean, max), "{e} with mean {mean}, bound {max}, modulus {p}"); }
        Ok(true)
    }));
    $c.push(case(concat!("refuse ", stringify!($T)), |r| vec![r.n(12), r.n(12), r.n(12)], |x| {
        pre!(x.len() == 3 && x.iter().all(|&i| i < 12));
        let (mean, sd, max) = (ODD[x[0] as usize], ODD[x[1] as usize], ODD[x[2] as usize]);
        eq!(DiscreteGaussian::<$T>::new(100, mean, sd).is_err(), refuse(sd, None), "new");
        eq!(DiscreteGaussian::<$T>::new_with_max_limit(100, mean, sd, max).is_err(), refuse(sd, Some(max)), "new_with_max_limit");
        Ok(true)
    }));
)* } }
macro_rules! field { ($c:ident, $($F:ident $T:ident $draw:ident $D:ident $P:expr),*) => { $(
    $c.push(case(concat!("binary ", stringify!($F)), gen, |x| {
        pre!(x.len() == 4 && x[0] < 1000);
        let n = x[0] as usize;
        let get = |v: Vec<$F>| v.iter().map(|&e| e.value() as u128).collect::<Vec<_>>();
        let want = |s: &Src, b: usize| bits(&s.w32, n, b).iter().map(|&k| if b == 1 { k as u128 } else { tern(k, $P) }).collect::<Vec<_>>();
        let mut s = src(x);
        let v = get(sample_binary_field_vec(n, &mut s));
        eq!(v, want(&s, 1), "binary vector");
        let mut s = src(x);
        let v = get(sample_ternary_field_vec(n, &mut s));
        eq!(v, want(&s, 2), "ternary vector");
        let mut s = src(x);
        let v = get(Polynomial::<$F>::random_with_binary(n, &mut s).data());
        eq!(v, want(&s, 1), "random_with_binary");
        let mut s = src(x);
        let v = get(Polynomial::<$F>::random_with_ternary(n, &mut s).data());
        eq!(v, want(&s, 2), "random_with_ternary");
        let e: $F = FieldBinarySampler.sample(&mut s);
        eq!(e.value() as u128, (s.w32.last().copied().unwrap_or(9) & 1) as u128, "FieldBinarySampler");
        let e: $F = FieldTernarySampler.sample(&mut s);
        eq!(e.value() as u128, tern(s.w32.last().copied().unwrap_or(0) & 3, $P), "FieldTernarySampler");
        for v in [get(Polynomial::<$F>::random_with_distribution(n, &mut s, FieldBinarySampler).data()), get(NTTPolynomial::<$F>::random_with_distribution(n, &mut s, FieldBinarySampler).data())] {
            ck!(v.len() == n && v.iter().all(|&e| e <= 1), "random_with_distribution(binary): {v:?}");
        }
        for v in [get(Polynomial::<$F>::random_with_distribution(n, &mut s, FieldTernarySampler).data()), get(NTTPolynomial::<$F>::random_with_distribution(n, &mut s, FieldTernarySampler).data())] {
            ck!(v.len() == n && v.iter().all(|&e| e <= 1 || e == $P - 1), "random_with_distribution(ternary): {v:?}");
        }
        Ok(true)
    }));
    $c.push(case(concat!("uniform ", stringify!($F)), gen, |x| {
        pre!(x.len() == 4 && x[0] < 1000);
        let n = x[0] as usize;
        let mut s = src(x);
        let b = 1u128 << $D::BITS;
        let mut one = |s: &mut Src, e: $F, what: &str| {
            let z = (s.$draw.last().copied().unwrap_or(0) as u128) * $P;
            eq!(e.value() as u128, z / b, "{what}");
            ck!(e.value() as u128 <= $P - 1 && z % b >= b % $P, "{what}: a draw below the threshold was accepted");
            Ok::<(), String>(())
        };
        for _ in 0..n.min(40) {
            let e: $F = FieldUniformSampler::new().sample(&mut s);
            one(&mut s, e, "FieldUniformSampler")?;
            let e = $F::random(&mut s);
            one(&mut s, e, "Field::random")?;
        }
        for v in [Polynomial::<$F>::random(n, &mut s).data(), NTTPolynomial::<$F>::random(n, &mut s).data(), Polynomial::<$F>::random_with_distribution(n, &mut s, FieldUniformSampler::new()).data()] {
            ck!(v.len() == n && v.iter().all(|e| (e.value() as u128) < $P), "random polynomial");
        }
        Ok(true)
    }));
    $c.push(case(concat!("cbd ", stringify!($F)), gen, |x| {
        pre!(x.len() == 4 && x[0] < 1000 && $P > 21);
        let n = x[0] as usize;
        let ok = |v: &[$F]| v.len() == n && v.iter().all(|e| { let e = e.value() as u128; e <= 21 || e < $P && e + 21 >= $P });
        let mut s = Src::new(x[1], 6 * x[2], x[3]);
        let v: Vec<$F> = sample_cbd_field_vec(n, &mut s);
        ck!(ok(&v), "cbd: {v:?}");
        let g = match FieldDiscreteGaussianSampler::new(0.0, 3.2) { Ok(g) => g, Err(_) => return Err("refused".into()) };
        ck!(g.cbd_enable(), "cbd_enable");
        ck!(ok(Polynomial::<$F>::random_with_gaussian(n, &mut s, g).as_slice()), "random_with_gaussian by cbd");
        Ok(true)
    }));
    $c.push(case(concat!("gaussian ", stringify!($F)), |r| { let mut v = gen(r); v[0] %= 20; v.extend([r.n(9), r.n(9), r.n(6)]); v }, |x| {
        pre!(x.len() == 7 && x[0] < 1000);
        let (mean, sd, max) = dev(x, $P);
        pre!(sd >= 0.0 && max > sd && mean.abs() + max + 0.5 <= $P as f64 && max < 4e15);
        let d = if x[6] % 2 == 0 && max == 6.0 * sd { FieldDiscreteGaussianSampler::new(mean, sd) } else { FieldDiscreteGaussianSampler::new_with_max(mean, sd, max) };
        let d = match d { Ok(d) => d, Err(_) => return Err("refused".into()) };
        eq!((d.mean().to_bits(), d.std_dev().to_bits(), d.max_std_dev().to_bits()), (mean.to_bits(), sd.to_bits(), max.to_bits()), "parameters");
        eq!(d.cbd_enable(), mean.to_bits() == 0 && sd == 3.2, "cbd_enable");
        let mut s = src(&[x[0], x[1], x[2] % 3, x[3]]);
        let mut v: Vec<$F> = (0..x[0]).map(|_| d.sample(&mut s)).collect();
        if !d.cbd_enable() { v.extend(Polynomial::<$F>::random_with_gaussian(x[0] as usize, &mut s, d).data()); }
        v.extend(Polynomial::<$F>::random_with_distribution(x[0] as usize, &mut s, d).data());
        for e in v { ck!(near(e.value() as u128, $P, mean, max), "{e} with mean {mean}, bound {max}"); }
        Ok(true)
    }));
)* } }
fn main() {
    let mut c = Vec::new();
    word!(c, u8 u16 u32 u64);
    field!(c, V8 u8 w32 u32 17u128, V16 u16 w32 u32 15361u128, V32 u32 w32 u32 1073479681u128, V64 u64 w64 u64 4611686018427322369u128);
    c.push(case("refuse field", |r| vec![r.n(12), r.n(12), r.n(12)], |x| {
        pre!(x.len() == 3 && x.iter().all(|&i| i < 12));
        let (mean, sd, max) = (ODD[x[0] as usize], ODD[x[1] as usize], ODD[x[2] as usize]);
        eq!(FieldDiscreteGaussianSampler::new(mean, sd).is_err(), refuse(sd, None), "new");
        eq!(FieldDiscreteGaussianSampler::new_with_max(mean, sd, max).is_err(), refuse(sd, Some(max)), "new_with_max");
        Ok(true)
    }));
    run_main("C23", c);
}
