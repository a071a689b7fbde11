use algebra::modulus::BarrettModulus;
use algebra::reduce::*;
use harness::*;
macro_rules! go {
    ($v:ident, $($T:ident),*) => {$({
        const B: u32 = <$T>::BITS;
        const Q: u128 = 1 << (B - 2);
        $v.push(case(concat!("new ", stringify!($T)), |r| { vec![if r.n(4) == 0 { r.word(B) } else { r.between(2, Q) }] }, |x| {
            let m = x[0] as $T;
            if !(m >= 2 && (m as u128) < Q) {
                ck!(panics(|| BarrettModulus::<$T>::new(m)), "BarrettModulus::new({m}) accepted a value outside 2..2^(BITS-2)");
                return Ok(false);
            }
            let k = BarrettModulus::<$T>::new(m);
            eq!(k.value(), m, "value");
            let (q, rem) = if B == 64 { (u128::MAX / m as u128, u128::MAX % m as u128) } else { ((1u128 << (2 * B)) / m as u128, 0) };
            let q = if B == 64 && rem + 1 == m as u128 { q + 1 } else { q };
            eq!(k.ratio(), [q as $T, (q >> B) as $T], "ratio");
            eq!(k.bit_count(), B - m.leading_zeros(), "bit_count");
            Ok(true)
        }));
        $v.push(case(concat!("reduce ", stringify!($T)), |r| {
            let m = r.between(2, Q);
            let near = |r: &mut Rng, m: u128| -> u128 {
                // values close to multiples of m
                let w = if B == 64 { u128::MAX } else { (1u128 << (2 * B)) - 1 };
                let k = r.n(w / m);
                let v = (k * m).wrapping_add(r.n(5)).wrapping_sub(2);
                v & w
            };
            let (a, b) = if r.bit() { (r.word(B), r.word(B)) } else { let v = near(r, m); (v & (<$T>::MAX as u128), v >> B) };
            let c = if r.bit() { r.word(B) } else { (r.n((<$T>::MAX as u128) / m + 1) * m).wrapping_add(r.n(3)).wrapping_sub(1) & (<$T>::MAX as u128) };
            vec![m, a, b, c] }, |x| {
            pre!(x[0] >= 2 && x[0] < Q);
            let m = x[0] as $T;
            let (a, b, c) = (x[1] as $T, x[2] as $T, x[3] as $T);
            let mm = m as u128;
            let k = BarrettModulus::<$T>::new(m);
            eq!(c.reduce(k) as u128, c as u128 % mm, "reduce one word");
            let l = c.lazy_reduce(k);
            ck!((l as u128) < 2 * mm && l as u128 % mm == c as u128 % mm, "lazy_reduce one word gave {l}");
            let mut d = c; d.reduce_assign(k); eq!(d as u128, c as u128 % mm, "reduce_assign");
            let mut d = c; d.lazy_reduce_assign(k); ck!((d as u128) < 2 * mm && d as u128 % mm == c as u128 % mm, "lazy_reduce_assign gave {d}");
            let v = (b as u128) << B | a as u128;
            eq!([a, b].reduce(k) as u128, v % mm, "reduce [w;2]");
            eq!((a, b).reduce(k) as u128, v % mm, "reduce (w,w)");
            let l = [a, b].lazy_reduce(k);
            ck!((l as u128) < 2 * mm && l as u128 % mm == v % mm, "lazy_reduce [w;2] gave {l}");
            let l = (a, b).lazy_reduce(k);
            ck!((l as u128) < 2 * mm && l as u128 % mm == v % mm, "lazy_reduce (w,w) gave {l}");
            Ok(v > mm)
        }).w(3));
        $v.push(case(concat!("slice ", stringify!($T)), |r| {
            let m = r.between(2, Q);
            let k = if r.n(8) == 0 { 40 } else { 6 };
            let n = 1 + r.n(k);
            let mut x = vec![m];
            for _ in 0..n { x.push(r.word(B)); }
            x }, |x| {
            pre!(x[0] >= 2 && x[0] < Q && x.len() > 1);
            let m = x[0] as $T;
            let mm = m as u128;
            let s: Vec<$T> = x[1..].iter().map(|&v| v as $T).collect();
            let k = BarrettModulus::<$T>::new(m);
            let mut e = 0u128;
            for &w in s.iter().rev() { e = ((e << B) | w as u128) % mm; }
            eq!(s[..].reduce(k) as u128, e, "reduce slice");
            let l = s[..].lazy_reduce(k);
            ck!((l as u128) < 2 * mm && l as u128 % mm == e, "lazy_reduce slice gave {l}");
            Ok(s.len() > 1)
        }));
    })*};
}
fn main() {
    let mut v = Vec::new();
    go!(v, u8, u16, u32, u64);
    run_main("C02", v);
}
