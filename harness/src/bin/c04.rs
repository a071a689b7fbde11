use algebra::modulus::{BarrettModulus, ShoupFactor};
use algebra::reduce::*;
use harness::*;
macro_rules! go {
    ($v:ident, $($T:ident),*) => {$({
        const B: u32 = <$T>::BITS;
        const Q: u128 = 1 << (B - 2);
        const H: u128 = 1 << (B - 1);
        $v.push(case(concat!("barrett ", stringify!($T)), |r| { let m = r.between(2, Q); vec![m, r.word(B), if r.n(3) == 0 { m - 1 } else { r.word(B) }] }, |x| {
            pre!(x[0] >= 2 && x[0] < Q);
            let (m, a, b) = (x[0], x[1] as $T, x[2] as $T);
            let k = BarrettModulus::<$T>::new(m as $T);
            let e = x[1] * x[2] % m;
            eq!(a.mul_reduce(b, k) as u128, e, "mul_reduce");
            let mut t = a; t.mul_reduce_assign(b, k); eq!(t as u128, e, "mul_reduce_assign");
            let l = a.lazy_mul_reduce(b, k) as u128;
            ck!(l < 2 * m && l % m == e, "lazy_mul_reduce gave {l}");
            let mut t = a; t.lazy_mul_reduce_assign(b, k);
            let l = t as u128;
            ck!(l < 2 * m && l % m == e, "lazy_mul_reduce_assign gave {l}");
            Ok(a > 1 && b > 1)
        }));
        $v.push(case(concat!("shoup ", stringify!($T)), |r| { let m = r.between(1, H + 1); vec![m, r.below(m), r.word(B)] }, |x| {
            pre!(x[0] >= 1 && x[0] <= H && x[1] < x[0]);
            let (m, a, b) = (x[0], x[1] as $T, x[2] as $T);
            let mt = m as $T;
            let f = ShoupFactor::<$T>::new(a, mt);
            let q = ((x[1] << B) / m) as $T;
            eq!(f.value(), a, "value");
            eq!(f.quotient(), q, "quotient");
            let e = x[1] * x[2] % m;
            let l = f.mul_reduce_lazy(b, mt) as u128;
            ck!(l < 2 * m && l % m == e, "mul_reduce_lazy gave {l}");
            eq!(b.mul_reduce(f, mt) as u128, e, "word * factor");
            eq!(f.mul_reduce(b, mt) as u128, e, "factor * word");
            let mut t = b; t.mul_reduce_assign(f, mt); eq!(t as u128, e, "mul_reduce_assign");
            let mut g = ShoupFactor::<$T>::new(0, 1);
            g.set(a, mt);
            eq!((g.value(), g.quotient()), (a, q), "set");
            let m2 = (m + 1).min(H) as $T;
            g.set_modulus(m2);
            eq!((g.value(), g.quotient()), (a, ((x[1] << B) / m2 as u128) as $T), "set_modulus");
            Ok(a > 1 && b > 1)
        }));
    })*};
}
fn main() {
    let mut v = Vec::new();
    go!(v, u8, u16, u32, u64);
    run_main("C04", v);
}
