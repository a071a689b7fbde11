use algebra::utils::ReverseLsbs;
use algebra::*;
use harness::*;
macro_rules! wide {
    ($v:ident, $T:ident, $W:ident) => {{
        let b = <$T>::BITS;
        $v.push(case(concat!("widening ", stringify!($T)), move |r| vec![r.word(b), r.word(b), r.word(b)], |x| {
            let (a, c, d) = (x[0] as $T, x[1] as $T, x[2] as $T);
            let p = a as $W * c as $W;
            eq!(WideningMul::widening_mul(a, c), (p as $T, (p >> <$T>::BITS) as $T), "widening_mul");
            eq!(WideningMul::widening_mul_hw(a, c), (p >> <$T>::BITS) as $T, "widening_mul_hw");
            let p = p + d as $W;
            eq!(CarryingMul::carrying_mul(a, c, d), (p as $T, (p >> <$T>::BITS) as $T), "carrying_mul");
            eq!(CarryingMul::carrying_mul_hw(a, c, d), (p >> <$T>::BITS) as $T, "carrying_mul_hw");
            Ok(a > 1 && c > 1)
        }));
        $v.push(case(concat!("carry ", stringify!($T)), move |r| vec![r.word(b), r.word(b), r.n(2)], |x| {
            let (a, c, f) = (x[0] as $T, x[1] as $T, x[2] & 1 == 1);
            let s = a as $W + c as $W + f as $W;
            eq!(CarryingAdd::carrying_add(a, c, f), (s as $T, s >> <$T>::BITS != 0), "carrying_add");
            let s = (a as $W).wrapping_sub(c as $W).wrapping_sub(f as $W);
            eq!(BorrowingSub::borrowing_sub(a, c, f), (s as $T, (a as $W) < c as $W + f as $W), "borrowing_sub");
            Ok(true)
        }));
    }};
}
macro_rules! rev {
    ($v:ident, $($T:ident),*) => {$(
        $v.push(case(concat!("reverse ", stringify!($T)), |r| vec![r.word(<$T>::BITS), r.n(<$T>::BITS as u128)], |x| {
            let (a, n) = (x[0] as $T, x[1] as u32);
            let mut e: $T = 0;
            for i in 0..n { if a >> i & 1 == 1 { e |= 1 << (n - 1 - i); } }
            eq!(a.reverse_lsbs(n), e, "reverse_lsbs");
            Ok(a != 0 && n > 1)
        }));
    )*};
}
fn main() {
    let mut v = Vec::new();
    wide!(v, u8, u16);
    wide!(v, u16, u32);
    wide!(v, u32, u64);
    wide!(v, u64, u128);
    rev!(v, u8, u16, u32, u64, u128, usize);
    run_main("C01", v);
}
