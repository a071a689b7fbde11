use algebra::*;
use fhe_core::*;
use harness::big::*;
use harness::*;
use lattice::{LWE, RLWE};
use rand::SeedableRng;
use vfields::*;
type SRng = rand::rngs::StdRng;
fn lift(x: u128, q: u128) -> i128 { if 2 * x >= q { x as i128 - q as i128 } else { x as i128 } }
fn digits(mut x: u128, bits: u128, len: usize) -> Vec<u128> { (0..len).map(|_| { let d = x & ((1 << bits) - 1); x >>= bits; d }).collect() }
/// (b - <a, s>) mod q
fn phase(a: &[u128], b: u128, s: &[i128], q: u128) -> u128 {
    let mut p = b % q;
    for (x, s) in a.iter().zip(s) { p = submod(p, mulmod(*x % q, s.rem_euclid(q as i128) as u128, q), q); }
    p
}
/// ks basis bits, kinds, seed, sd selector, log N, n
fn setup<C: LWEModulusType, F: NTTField>(lg: u128, n: u128, q: C, p: F::Value, kind: u128, bits: u128, sd: f64) -> Parameters<C, F> {
    Parameters::<C, F>::new(ConstParameters {
        lwe_dimension: n as usize, lwe_plain_modulus: C::ONE + C::ONE, lwe_cipher_modulus: q, lwe_noise_standard_deviation: 0.01,
        lwe_secret_key_type: if kind & 1 == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary },
        ring_dimension: 1 << lg, ring_modulus: p, ring_noise_standard_deviation: 0.01,
        ring_secret_key_type: if kind & 2 == 0 { RingSecretKeyType::Binary } else { RingSecretKeyType::Ternary },
        blind_rotation_basis_bits: 1, steps: Steps::BrMsKs, key_switching_basis_bits: bits as u32, key_switching_standard_deviation: sd,
    }).unwrap()
}
fn sdev(k: u128, q: u128) -> f64 { match k { 0 => 0.01, 1 => 0.4f64.min(q as f64 / 13.0), _ => 3.2f64.min(q as f64 / 13.0) } }
fn bound(sd: f64) -> i128 { (6.0 * sd).round() as i128 }
/// log N, n, log q, ks bits, kinds, seed, sd, b, pattern
fn gen_lwe(r: &mut Rng, maxlog: u128, w: u128) -> Vec<u128> {
    let lq = if r.bit() { w - 1 } else { r.r(1, w) };
    let bits = r.r(1, lq.min(7) + 1);
    vec![r.r(1, maxlog + 1), r.r(1, 14), lq, bits, r.n(4), r.n(1 << 30), r.n(3), r.below(1 << lq), r.n(6)]
}
macro_rules! scalar {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr, $C:ident, $w:expr) => {{
        type F = $F; type C = $C;
        $c.push(case(format!("key_switch_for_lwe scalar rows {} {}", stringify!($F), stringify!($C)), |r| gen_lwe(r, $lg, $w), |x| {
            if x.len() != 9 { return Ok(false) }
            let (lg, n, lq, bits, kind, seed, sd, b, pat) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]);
            pre!(lg >= 1 && lg <= $lg && n >= 1 && n <= 20 && lq >= 1 && lq < $w && bits >= 1 && bits <= lq && bits <= 8 && kind < 4 && sd < 3 && b < 1 << lq && pat < 6);
            let q = 1u128 << lq;
            let (nn, len) = (1usize << lg, ((lq + bits - 1) / bits) as usize);
            pre!(nn * len << bits < 40_000);
            let mut g = SRng::seed_from_u64(seed as u64);
            let sd = sdev(sd, q);
            let p = setup::<C, F>(lg, n, q as C, $P as $T, kind, bits, sd);
            let pack = SecretKeyPack::new(p, &mut g);
            let key = KeySwitchingLWEKey::generate(&pack, &mut g);
            let s: Vec<i128> = pack.lwe_secret_key().iter().map(|t| lift(*t as u128, q)).collect();
            let z: Vec<i128> = pack.ring_secret_key().as_slice().iter().map(|t| lift(t.value() as u128 % $P, $P)).collect();
            let mut r = Rng::new(seed as u64);
            let a: Vec<u128> = (0..nn).map(|i| match pat { 0 => 0, 1 => q - 1, 2 => (i == seed as usize % nn) as u128 * r.below(q), 3 => q / 2, _ => r.below(q) }).collect();
            let sw = |a: &[u128], b: u128| { let o = key.key_switch_for_lwe(LWE::new(a.iter().map(|t| *t as C).collect(), b as C)); (o.a().iter().map(|t| *t as u128).collect::<Vec<_>>(), o.b() as u128) };
            let (oa, ob) = sw(&a, b);
            eq!(oa.len(), n as usize, "dimension");
            ck!(oa.iter().all(|t| *t < q) && ob < q, "not below q");
            let got = phase(&oa, ob, &s, q);
            let e = bound(sd);
            let old = phase(&a, b, &z, q);
            let nz: usize = a.iter().map(|t| digits(*t, bits, len).iter().filter(|d| **d != 0).count()).sum();
            let d = lift(submod(got, old, q), q);
            ck!(d.abs() <= e * nz as i128, "q = {q}, bits = {bits}: phase {got} instead of {old}: more than the key's noise ({nz} rows of at most {e})");
            // row by row: exactly the errors of the rows the digits select
            let mut sum = b % q;
            for (i, t) in a.iter().enumerate() { for (j, d) in digits(*t, bits, len).into_iter().enumerate() { if d != 0 {
                let mut u = vec![0; nn]; u[i] = d << (bits * j as u128);
                let (ra, rb) = sw(&u, 0);
                let ph = phase(&ra, rb, &s, q);
                let er = lift(submod(ph, phase(&u, 0, &z, q), q), q);
                ck!(er.abs() <= e, "q = {q}, bits = {bits}: row ({j}, {i}, {d}) off by {er} > {e}");
                sum = addmod(sum, ph, q);
            } } }
            eq!(got, sum, "q = {q}, bits = {bits}: not the sum of the rows");
            Ok(true)
        }));
    }};
}
/// log N, n, ks bits, kinds, seed, sd, b, pattern
fn gen_rlwe(r: &mut Rng, top: u128, maxlog: u128) -> Vec<u128> {
    let lg = r.r(1, maxlog + 1);
    let n = match r.n(4) { 0 => 1 << lg, 1 => (1 << r.r(1, lg + 1)) as u128, _ => r.r(2, (1 << lg) + 1) };
    vec![lg, n, r.r(1, top + 1), r.n(4), r.n(1 << 30), r.n(3), r.u128() >> 1, r.n(6)]
}
macro_rules! ring {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr) => {{
        type F = $F; type C = u16;
        const P: u128 = $P;
        const TOP: u128 = 128 - (P.leading_zeros() as u128);
        for rl in [false, true] {
        $c.push(case(format!("{} ring rows {}", if rl { "key_switch_for_rlwe" } else { "key_switch_for_lwe" }, stringify!($F)), |r| gen_rlwe(r, TOP, $lg), move |x| {
            if x.len() != 8 { return Ok(false) }
            let (lg, n, bits, kind, seed, sd, b, pat) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6] % P, x[7]);
            pre!(lg >= 1 && lg <= $lg && n >= 2 && n <= 1 << lg && bits >= 1 && bits <= TOP && bits < <$T>::BITS as u128 && kind < 4 && sd < 3 && pat < 6);
            let nn = 1usize << lg;
            let ext = (n as usize).next_power_of_two();
            let mut g = SRng::seed_from_u64(seed as u64);
            let sd = if P < 200 { 0.01 } else { sdev(sd, P) };
            let pack = SecretKeyPack::new(setup::<C, F>(lg, n, 1 << 15, P as $T, kind, bits, sd), &mut g);
            let key = KeySwitchingRLWEKey::generate(&pack, &mut g);
            let s: Vec<i128> = pack.lwe_secret_key().iter().map(|t| lift(*t as u128, 1 << 15)).collect();
            let z: Vec<i128> = pack.ring_secret_key().as_slice().iter().map(|t| lift(t.value() as u128 % P, P)).collect();
            let mut r = Rng::new(seed as u64);
            // the mask as an LWE ciphertext
            let a: Vec<u128> = (0..nn).map(|i| match pat { 0 => 0, 1 => P - 1, 2 => (i == seed as usize % nn) as u128 * r.below(P), 3 => 1, _ => r.below(P) }).collect();
            let f = |x: u128| F::new(x as $T);
            let rest: Vec<u128> = (0..nn).map(|_| r.below(P)).collect();
            let sw = |a: &[u128], b: u128| {
                let o = if rl {
                    // constant coefficient: mask a is a_0, then minus the coefficients from the top
                    let ra = (0..nn).map(|i| if i == 0 { f(a[0]) } else { f(submod(0, a[nn - i], P)) }).collect();
                    let mut rb: Vec<F> = rest.iter().map(|t| f(*t)).collect(); rb[0] = f(b);
                    key.key_switch_for_rlwe(RLWE::new(Polynomial::new(ra), Polynomial::new(rb)))
                } else { key.key_switch_for_lwe(LWE::new(a.iter().map(|t| f(*t)).collect(), f(b))) };
                (o.a().iter().map(|t| t.value() as u128).collect::<Vec<_>>(), o.b().value() as u128)
            };
            let (oa, ob) = sw(&a, b);
            eq!(oa.len(), n as usize, "dimension");
            ck!(oa.iter().all(|t| *t < P) && ob < P, "not canonical");
            let got = phase(&oa, ob, &s, P);
            let old = phase(&a, b, &z, P);
            let e = bound(sd);
            if e == 0 { eq!(got, old, "N = {nn}, n = {n}, bits = {bits}, noiseless"); }
            // the negated rearranged coefficients are decomposed: of a chunk, the first one negated and the others as they are
            let len = ((TOP + bits - 1) / bits) as usize;
            let re = |i: usize, t: u128| if i % ext != 0 { t } else { submod(0, t, P) };
            let mut sum = b;
            if nn * len <= 600 {
                for i in 0..nn { for (j, d) in digits(re(i, a[i]), bits, len).into_iter().enumerate() { if d != 0 {
                    if (1u128 << (bits * j as u128)) >= P { return Err(format!("digit {d} at level {j}")) }
                    let mut u = vec![0; nn]; u[i] = re(i, 1 << (bits * j as u128));
                    let (ra, rb) = sw(&u, 0);
                    let ph = phase(&ra, rb, &s, P);
                    let er = lift(submod(ph, phase(&u, 0, &z, P), P), P);
                    ck!(er.abs() <= e, "N = {nn}, n = {n}, bits = {bits}: coefficient {i}, level {j}: off by {er} > {e}");
                    sum = addmod(sum, mulmod(d, ph, P), P);
                } } }
                eq!(got, sum, "N = {nn}, n = {n}, bits = {bits}: not the digits times the rows' phases");
            }
            Ok(true)
        }));
        }
    }};
}
fn main() {
    let mut c = vec![];
    scalar!(c, V16, u16, 15361, 5, u16, 16);
    scalar!(c, V32, u32, 1073479681, 5, u32, 32);
    scalar!(c, V8, u8, 17, 3, u8, 8);
    scalar!(c, V64, u64, 4611686018427322369, 4, u64, 64);
    scalar!(c, DefaultFieldU32, u32, 132120577, 6, u16, 16);
    ring!(c, V8, u8, 17, 3);
    ring!(c, V16, u16, 15361, 6);
    ring!(c, V32, u32, 1073479681, 6);
    ring!(c, V64, u64, 4611686018427322369, 5);
    ring!(c, DefaultFieldU32, u32, 132120577, 6);
    ring!(c, DefaultQks, u32, 15361, 6);
    run_main("C20", c);
}
