use algebra::*;
use fhe_core::*;
use harness::*;
use lattice::LWE;
use vfields::*;
fn sw(v: u128, q: u128, d: u128) -> u128 { ((2 * v * q + d) / (2 * d)) % q }
/// coefficients close to a rounding boundary, to the wrap-around, or anywhere
fn coeff(r: &mut Rng, q: u128, d: u128) -> u128 {
    let v = match r.n(4) {
        0 => ((2 * r.below(q) + 1) * d / (2 * q) + r.n(3)).saturating_sub(1),
        1 => d - 1 - r.n((d / q + 2).min(d)),
        2 => r.n(d.min(3)),
        _ => r.below(d),
    };
    v.min(d - 1)
}
/// q, then (b, a..)
fn gen(r: &mut Rng, d: u128, cmax: u128) -> Vec<u128> {
    let top = cmax.min((1 << 52) / d);
    let q = if r.n(3) > 0 { 1u128 << r.n((128 - top.leading_zeros()) as u128) } else { r.r(1, top + 1) };
    let n = r.n(6);
    let mut v = vec![q.min(top)];
    for _ in 0..n + 1 { v.push(coeff(r, v[0], d)); }
    v
}
macro_rules! fld {
    ($c:ident, $F:ident, $T:ident, $P:expr, $($C:ident)*) => {$({
        $c.push(case(concat!(stringify!($F), " to ", stringify!($C)), |r| gen(r, $P, $C::MAX as u128), |x| {
            const P: u128 = $P;
            pre!(x.len() >= 2 && x.len() < 40);
            let q = x[0];
            pre!(q >= 1 && q <= $C::MAX as u128 && P * q <= 1 << 52 && x[1..].iter().all(|t| *t < P));
            let el = |t: &u128| <$F>::new(*t as $T);
            let ct = LWE::<$F>::new(x[2..].iter().map(el).collect::<Vec<_>>(), el(&x[1]));
            let r: LWECiphertext<$C> = lwe_modulus_switch(ct.clone(), q as $C);
            let want: Vec<u128> = x[1..].iter().map(|t| sw(*t, q, P)).collect();
            let got = |c: &LWECiphertext<$C>| -> Vec<u128> { std::iter::once(c.b() as u128).chain(c.a().iter().map(|t| *t as u128)).collect() };
            eq!(got(&r), want, "switch (body first) from {} to {q}", P);
            let mut d = LWECiphertext::<$C>::new(vec![3 as $C; x.len() - 2], 5 as $C);
            lwe_modulus_switch_inplace(ct, q as $C, &mut d);
            eq!(got(&d), want, "switch in place from {} to {q}", P);
            Ok(true)
        }));
    })*};
}
macro_rules! word {
    ($c:ident, $($C:ident $w:expr),*) => {$({
        $c.push(case(concat!("between ", stringify!($C)), |r| {
            let lb = r.n($w.min(52)) as u32;
            let mut v = vec![lb as u128, r.n(($w as u128).min(53 - lb as u128))];
            for _ in 0..r.n(6) + 1 { v.push(coeff(r, 1 << v[1], 1 << v[0])); }
            v
        }, |x| {
            pre!(x.len() >= 3 && x.len() < 40 && x[0] < $w && x[1] < $w && x[0] + x[1] <= 52 && x[2..].iter().all(|t| *t < 1 << x[0]));
            let (d, q) = (1u128 << x[0], 1u128 << x[1]);
            let mut ct = LWE::<$C>::new(x[3..].iter().map(|t| *t as $C).collect::<Vec<_>>(), x[2] as $C);
            lwe_modulus_switch_assign_between_modulus(&mut ct, d as $C, q as $C);
            let got: Vec<u128> = std::iter::once(ct.b() as u128).chain(ct.a().iter().map(|t| *t as u128)).collect();
            eq!(got, x[2..].iter().map(|t| sw(*t, q, d)).collect::<Vec<_>>(), "switch (body first) from {d} to {q}");
            Ok(true)
        }));
    })*};
}
fn main() {
    let mut c = vec![];
    fld!(c, V8, u8, 17, u8 u16 u32 u64);
    fld!(c, V16, u16, 15361, u8 u16 u32 u64);
    fld!(c, DefaultQks, u32, 15361, u16 u32);
    fld!(c, DefaultFieldU32, u32, 132120577, u8 u16 u32 u64);
    fld!(c, V32, u32, 1073479681, u8 u16 u32 u64);
    word!(c, u8 8u128, u16 16u128, u32 32u128, u64 64u128);
    run_main("C19", c);
}
