use algebra::modulus::PowOf2Modulus;
use algebra::reduce::*;
use harness::*;
macro_rules! exps { ($a:ident, $k:ident, $x:ident, $mask:ident, $T:ident, $($E:ident),*) => {$(
    { let e = $x[3] as $E; let mut p: $T = 1; let mut b = $a; let mut n = e; while n != 0 { if n & 1 == 1 { p = p.wrapping_mul(b); } b = b.wrapping_mul(b); n >>= 1; }
      if $mask == 0 { p = 0; }
      eq!($a.exp_reduce(e, $k), p & $mask, concat!("exp_reduce ", stringify!($E))); }
)*} }
macro_rules! go {
    ($v:ident, $($T:ident),*) => {$({
        const B: u32 = <$T>::BITS;
        $v.push(case(concat!("new ", stringify!($T)), |r| vec![if r.bit() { 1u128 << r.n(B as u128) } else { r.word(B) }], |x| {
            let m = x[0] as $T;
            if m > 1 && m.count_ones() == 1 {
                let k = PowOf2Modulus::<$T>::new(m);
                eq!(k.mask(), m - 1, "mask");
                eq!(k.value(), m, "value");
                Ok(true)
            } else {
                ck!(panics(|| PowOf2Modulus::<$T>::new(m)), "PowOf2Modulus::new({m}) accepted");
                Ok(false)
            }
        }));
        $v.push(case(concat!("ops ", stringify!($T)), |r| { let l = 1 + r.n(B as u128 - 1) as u32; let m = 1u128 << l; let e = [8u32, 16, 32, 64, 128][r.n(5) as usize]; vec![l as u128, r.below(m), r.below(m), r.word(e), r.n(B as u128 + 3), r.word(B)] }, |x| {
            let l = x[0] as u32;
            pre!(l >= 1 && l < B && x[1] >> l == 0 && x[2] >> l == 0);
            let mask = ((1 as $T) << l) - 1;
            let (a, b) = (x[1] as $T, x[2] as $T);
            let k = PowOf2Modulus::<$T>::new((1 as $T) << l);
            let c = x[5] as $T;
            eq!(c.reduce(k), c & mask, "reduce");
            let mut t = c; t.reduce_assign(k); eq!(t, c & mask, "reduce_assign");
            let s = a.wrapping_add(b) & mask;
            let d = a.wrapping_sub(b) & mask;
            let n = a.wrapping_neg() & mask;
            let p = a.wrapping_mul(b) & mask;
            eq!(a.add_reduce(b, k), s, "add"); eq!(a.sub_reduce(b, k), d, "sub"); eq!(a.neg_reduce(k), n, "neg"); eq!(a.mul_reduce(b, k), p, "mul");
            let mut t = a; t.add_reduce_assign(b, k); eq!(t, s, "add_assign");
            let mut t = a; t.sub_reduce_assign(b, k); eq!(t, d, "sub_assign");
            let mut t = a; t.neg_reduce_assign(k); eq!(t, n, "neg_assign");
            let mut t = a; t.mul_reduce_assign(b, k); eq!(t, p, "mul_assign");
            exps!(a, k, x, mask, $T, u8, u16, u32, u64, u128);
            let mut e = a;
            for _ in 0..x[4] { e = e.wrapping_mul(e) & mask; }
            eq!(a.exp_power_of_2_reduce(x[4] as u32, k), e, "exp_power_of_2_reduce");
            Ok(a > 1 && b > 1)
        }).w(2));
        $v.push(case(concat!("dot ", stringify!($T)), |r| { let l = 1 + r.n(B as u128 - 1) as u32; let m = 1u128 << l; let n = r.n(40); let mut x = vec![l as u128]; for _ in 0..2 * n { x.push(r.below(m)); } x }, |x| {
            let l = x[0] as u32;
            pre!(l >= 1 && l < B && x[1..].iter().all(|v| v >> l == 0));
            let n = (x.len() - 1) / 2;
            let k = PowOf2Modulus::<$T>::new((1 as $T) << l);
            let mask = ((1 as $T) << l) - 1;
            let a: Vec<$T> = x[1..1 + n].iter().map(|&v| v as $T).collect();
            let b: Vec<$T> = x[1 + n..1 + 2 * n].iter().map(|&v| v as $T).collect();
            let e = (0..n).fold(0 as $T, |s, i| s.wrapping_add(a[i].wrapping_mul(b[i]))) & mask;
            eq!(<$T>::dot_product_reduce(&a, &b, k), e, "dot_product_reduce of length {n}");
            Ok(n > 1)
        }));
    })*};
}
fn main() {
    let mut v = Vec::new();
    go!(v, u8, u16, u32, u64, u128);
    run_main("C07", v);
}
