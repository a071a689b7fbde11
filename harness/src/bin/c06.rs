use algebra::modulus::BarrettModulus;
use algebra::reduce::*;
use algebra::utils::ExtendedGCD;
use harness::*;
macro_rules! go {
    ($v:ident, $($T:ident),*) => {$({
        const B: u32 = <$T>::BITS;
        const Q: u128 = 1 << (B - 2);
        $v.push(case(concat!("gcd ", stringify!($T)), |r| { let g = r.between(1, 1 << (B / 4)); let f = |r: &mut Rng, g: u128| if r.bit() { r.word(B) } else { r.n((1u128 << B) / g) * g }; vec![f(r, g), f(r, g)] }, |x| {
            let (a, b) = (x[0] as $T, x[1] as $T);
            let g = big::gcd(x[0], x[1]);
            eq!(a.gcd(b) as u128, g, "gcd");
            eq!(a.coprime(b), g <= 1, "coprime");
            eq!(a.not_coprime(b), g > 1, "not_coprime");
            Ok(g > 1)
        }));
        $v.push(case(concat!("xgcd ", stringify!($T)), |r| { let g = r.between(1, 1 << (B / 4)); let f = |r: &mut Rng, g: u128| if r.bit() { r.between(1, Q) } else { (r.n(Q / g) * g).max(1) }; vec![f(r, g), f(r, g)] }, |x| {
            pre!(x[0] > 0 && x[1] > 0 && x[0] < Q && x[1] < Q);
            let (a, b) = (x[0] as $T, x[1] as $T);
            let g = big::gcd(x[0], x[1]);
            let (s, t, d) = <$T>::extended_gcd(a, b);
            eq!(d as u128, g, "extended_gcd gcd");
            ck!(s as i128 * a as i128 + t as i128 * b as i128 == d as i128, "Bezout: {s}*{a} + {t}*{b} != {d}");
            Ok(g > 1)
        }));
        $v.push(case(concat!("inv ", stringify!($T)), |r| { let m = r.between(2, Q); vec![m, if r.n(4) == 0 { let g = r.between(1, m); r.n(m / g) * g } else { r.below(m) }, r.below(m)] }, |x| {
            pre!(x[0] >= 2 && x[0] < Q && x[1] < x[0] && x[2] < x[0]);
            let (m, a, c) = (x[0] as $T, x[1] as $T, x[2] as $T);
            let g = big::gcd(x[0], x[1]); // of zero: the modulus
            let k = BarrettModulus::<$T>::new(m);
            match a.try_inv_reduce(m) {
                Ok(i) => {
                    ck!(g == 1, "try_inv_reduce inverted a non-unit");
                    ck!((i as u128) < x[0] && i as u128 * x[1] % x[0] == 1 % x[0], "try_inv_reduce gave {i}");
                    eq!(a.inv_reduce(m), i, "inv_reduce");
                    eq!(a.inv_reduce(k), i, "barrett inv_reduce");
                    let mut t = a; t.inv_reduce_assign(k); eq!(t, i, "barrett inv_reduce_assign");
                    let q = x[2] * i as u128 % x[0];
                    eq!(c.div_reduce(a, k) as u128, q, "div_reduce");
                    let mut t = c; t.div_reduce_assign(a, k); eq!(t as u128, q, "div_reduce_assign");
                }
                Err(_) => {
                    ck!(g != 1, "try_inv_reduce refused a unit");
                    ck!(panics(|| a.inv_reduce(m)), "inv_reduce of a non-unit returned");
                }
            }
            Ok(g == 1)
        }));
    })*};
}
fn main() {
    let mut v = Vec::new();
    go!(v, u8, u16, u32, u64);
    run_main("C06", v);
}
