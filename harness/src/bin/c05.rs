use algebra::modulus::BarrettModulus;
use algebra::reduce::*;
use harness::*;
macro_rules! exps { ($a:ident, $k:ident, $x:ident, $m:ident, $($E:ident),*) => {$(
    { let e = $x[2] as $E; eq!($a.exp_reduce(e, $k) as u128, big::powmod($x[1], e as u128, $m), concat!("exp_reduce ", stringify!($E))); }
)*} }
macro_rules! go {
    ($v:ident, $($T:ident),*) => {$({
        const B: u32 = <$T>::BITS;
        const Q: u128 = 1 << (B - 2);
        $v.push(case(concat!("exp ", stringify!($T)), |r| { let m = r.between(2, Q); let b = [8u32, 16, 32, 64, 128][r.n(5) as usize]; vec![m, r.below(m), r.word(b), r.n(70)] }, |x| {
            pre!(x[0] >= 2 && x[0] < Q && x[1] < x[0]);
            let (m, a) = (x[0], x[1] as $T);
            let k = BarrettModulus::<$T>::new(m as $T);
            exps!(a, k, x, m, u8, u16, u32, u64, u128);
            let mut e = x[1];
            for _ in 0..x[3] { e = e * e % m; }
            eq!(a.exp_power_of_2_reduce(x[3] as u32, k) as u128, e, "exp_power_of_2_reduce");
            Ok(x[2] > 1 && x[1] > 1)
        }));
        $v.push(case(concat!("dot ", stringify!($T)), |r| {
            let m = r.between(2, Q);
            let n = r.n(70);
            let big = r.n(3) == 0;
            let mut x = vec![m];
            for _ in 0..2 * n { x.push(if big { m - 1 } else { r.below(m) }); }
            x }, |x| {
            let m = x[0];
            pre!(m >= 2 && m < Q && x[1..].iter().all(|&v| v < m));
            let n = (x.len() - 1) / 2;
            let k = BarrettModulus::<$T>::new(m as $T);
            let a: Vec<$T> = x[1..1 + n].iter().map(|&v| v as $T).collect();
            let b: Vec<$T> = x[1 + n..1 + 2 * n].iter().map(|&v| v as $T).collect();
            let e = (0..n).fold(0u128, |s, i| (s + a[i] as u128 * b[i] as u128) % m);
            eq!(<$T>::dot_product_reduce(&a, &b, k) as u128, e, "dot_product_reduce of length {n}");
            Ok(n > 1)
        }));
    })*};
}
fn main() {
    let mut v = Vec::new();
    go!(v, u8, u16, u32, u64);
    run_main("C05", v);
}
