use algebra::modulus::BarrettModulus;
use algebra::reduce::*;
use harness::*;
macro_rules! go {
    ($v:ident, $($T:ident),*) => {$({
        const B: u32 = <$T>::BITS;
        const H: u128 = 1 << (B - 1);
        $v.push(case(concat!("plain ", stringify!($T)), |r| { let m = r.between(1, H + 1); let a = r.below(m); let b = if r.n(4) == 0 { (m - a) % m } else if r.n(4) == 0 { a } else { r.below(m) }; vec![m, a, b] }, |x| {
            pre!(x[0] >= 1 && x[0] <= H && x[1] < x[0] && x[2] < x[0]);
            let (m, a, b) = (x[0] as $T, x[1] as $T, x[2] as $T);
            let w = |v: u128| -> $T { (v % x[0]) as $T };
            let (s, d, n) = (w(x[1] + x[2]), w(x[1] + x[0] - x[2]), w(x[0] - x[1]));
            eq!(a.add_reduce(b, m), s, "add_reduce");
            eq!(a.sub_reduce(b, m), d, "sub_reduce");
            eq!(a.neg_reduce(m), n, "neg_reduce");
            let mut t = a; t.add_reduce_assign(b, m); eq!(t, s, "add_reduce_assign");
            let mut t = a; t.sub_reduce_assign(b, m); eq!(t, d, "sub_reduce_assign");
            let mut t = a; t.neg_reduce_assign(m); eq!(t, n, "neg_reduce_assign");
            if m >= 2 && (m as u128) < H / 2 {
                let k = BarrettModulus::<$T>::new(m);
                eq!(a.add_reduce(b, k), s, "barrett add_reduce");
                eq!(a.sub_reduce(b, k), d, "barrett sub_reduce");
                eq!(a.neg_reduce(k), n, "barrett neg_reduce");
                let mut t = a; t.add_reduce_assign(b, k); eq!(t, s, "barrett add_reduce_assign");
                let mut t = a; t.sub_reduce_assign(b, k); eq!(t, d, "barrett sub_reduce_assign");
                let mut t = a; t.neg_reduce_assign(k); eq!(t, n, "barrett neg_reduce_assign");
            }
            Ok(m > 2 && (a != 0 || b != 0))
        }));
        $v.push(case(concat!("wrapping ", stringify!($T)), |r| vec![r.word(B), r.word(B)], |x| {
            let (a, b) = (x[0] as $T, x[1] as $T);
            eq!(a.add_reduce(b, ()), a.wrapping_add(b), "native add");
            eq!(a.sub_reduce(b, ()), a.wrapping_sub(b), "native sub");
            eq!(a.neg_reduce(()), a.wrapping_neg(), "native neg");
            let mut t = a; t.add_reduce_assign(b, ()); eq!(t, a.wrapping_add(b), "native add_assign");
            let mut t = a; t.sub_reduce_assign(b, ()); eq!(t, a.wrapping_sub(b), "native sub_assign");
            let mut t = a; t.neg_reduce_assign(()); eq!(t, a.wrapping_neg(), "native neg_assign");
            Ok(true)
        }));
    })*};
}
fn main() {
    let mut v = Vec::new();
    go!(v, u8, u16, u32, u64);
    run_main("C03", v);
}
