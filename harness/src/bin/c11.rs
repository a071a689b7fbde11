use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::*;
use vfields::*;
/// bits needed for residues below p
fn nb(p: u128) -> u32 { 128 - (p - 1).leading_zeros() }
fn digit(x: u128, b: u32, i: usize) -> u128 { let s = b as usize * i; if s >= 128 { 0 } else { (x >> s) & ((1 << b) - 1) } }
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr) => {{
        const P: u128 = $P;
        type F = $F;
        let n = stringify!($F);
        let top = (128 - P.leading_zeros()) as u128;
        $c.push(case(format!("{n} basis"), |r| vec![r.r(1, <$T>::BITS as u128)], move |x| {
            let b = x[0] as u32;
            if b as u128 > top { ck!(panics(|| Basis::<F>::new(b)), "Basis::new({b}) wider than the modulus accepted"); return Ok(true); }
            let s = Basis::<F>::new(b);
            eq!(s.decompose_len(), nb(P).div_ceil(b) as usize, "decompose_len bits={b}");
            eq!(s.basis() as u128, 1u128 << b, "basis"); eq!(s.mask() as u128, (1u128 << b) - 1, "mask"); eq!(s.bits(), b, "bits");
            Ok(true)
        }));
        $c.push(case(format!("{n} element"), move |r| vec![r.below(P), r.r(1, top.min(<$T>::BITS as u128 - 1) + 1), r.below(P), r.n(4)], |x| {
            let b = x[1] as u32;
            pre!(x[0] < P && b >= 1 && (b as u128) <= (128 - P.leading_zeros()) as u128 && b < <$T>::BITS);
            let s = Basis::<F>::new(b);
            let f = F::new(x[0] as $T);
            let len = s.decompose_len();
            let want: Vec<u128> = (0..len).map(|i| digit(x[0], b, i)).collect();
            let d = f.decompose(s);
            eq!(d.iter().map(|t| t.value() as u128).collect::<Vec<_>>(), want, "decompose {} bits {b}", x[0]);
            ck!(d.iter().all(|t| (t.value() as u128) < 1 << b), "digit too large");
            let mut sum = 0u128; for (i, t) in d.iter().enumerate() { sum += (t.value() as u128) << (b as usize * i); }
            eq!(sum, x[0], "recompose bits {b}");
            let mut dst = vec![F::new(x[2] as $T); len];
            f.decompose_at(s, &mut dst);
            eq!(dst.iter().map(|t| t.value() as u128).collect::<Vec<_>>(), want, "decompose_at {} into a buffer of {}", x[0], x[2]);
            let (mut g, mut h) = (f, f);
            for i in 0..len {
                eq!(g.decompose_lsb_bits(s.mask(), b).value() as u128, want[i], "decompose_lsb_bits digit {i}");
                let mut t = F::new(x[2] as $T);
                h.decompose_lsb_bits_at(&mut t, s.mask(), b);
                eq!(t.value() as u128, want[i], "decompose_lsb_bits_at digit {i}"); eq!(h, g, "rest after digit {i}");
            }
            Ok(x[0] > 0)
        }).w(2));
        $c.push(case(format!("{n} polynomial"), move |r| { let k = r.n(9); let mut v = vec![r.r(1, top.min(<$T>::BITS as u128 - 1) + 1), r.below(P)]; for _ in 0..k { v.push(r.below(P)); } v }, |x| {
            let b = x[0] as u32;
            pre!(x.len() >= 2 && x[1..].iter().all(|v| *v < P) && b >= 1 && (b as u128) <= (128 - P.leading_zeros()) as u128 && b < <$T>::BITS);
            let s = Basis::<F>::new(b);
            let v = &x[2..];
            let p = Polynomial::<F>::new(v.iter().map(|t| F::new(*t as $T)).collect());
            let len = s.decompose_len();
            let val = |q: &Polynomial<F>| q.iter().map(|t| t.value() as u128).collect::<Vec<_>>();
            let want: Vec<Vec<u128>> = (0..len).map(|i| v.iter().map(|t| digit(*t, b, i)).collect()).collect();
            let d = p.clone().decompose(s);
            eq!(d.iter().map(val).collect::<Vec<_>>(), want, "decompose");
            let junk = Polynomial::<F>::new(vec![F::new(x[1] as $T); v.len()]);
            let mut dst = vec![junk.clone(); len];
            let mut q = p.clone();
            q.decompose_inplace(s, &mut dst);
            eq!(dst.iter().map(val).collect::<Vec<_>>(), want, "decompose_inplace");
            let mut q = p.clone();
            for i in 0..len {
                let mut o = vec![F::new(x[1] as $T); v.len()];
                q.decompose_lsb_bits_inplace(s, &mut o);
                eq!(o.iter().map(|t| t.value() as u128).collect::<Vec<_>>(), want[i], "decompose_lsb_bits_inplace digit {i}");
                eq!(val(&q), v.iter().map(|t| t >> (b as usize * (i + 1)).min(127)).collect::<Vec<_>>(), "rest after digit {i}");
            }
            Ok(v.iter().any(|t| *t > 0))
        }).w(2));
    }};
}
macro_rules! lat {
    ($c:ident, $T:ident) => {{
        let bits = <$T>::BITS;
        $c.push(case(format!("lattice basis {}", stringify!($T)), move |r| { let m = if r.bit() { 1u128 << r.r(1, bits as u128) } else { r.between(2, 1 << bits) }; vec![m, r.r(1, bits as u128 + 1), r.below(m), r.below(m), r.word(bits)] }, move |x| {
            let (m, b) = (x[0], x[1] as u32);
            pre!(m >= 2 && m < 1 << bits && b >= 1 && b <= bits && x[2] < m && x[3] < m);
            if b == bits || b > nb(m) { ck!(panics(|| lattice::Basis::<$T>::new(b, m as $T)), "Basis::new({b}, {m}) accepted"); return Ok(true); }
            let s = lattice::Basis::<$T>::new(b, m as $T);
            eq!(s.decompose_len(), nb(m).div_ceil(b) as usize, "decompose_len bits={b} modulus={m}");
            eq!(s.basis() as u128, 1u128 << b, "basis"); eq!(s.mask() as u128, (1u128 << b) - 1, "mask"); eq!(s.bits(), b as usize, "bits");
            let v = [x[2], x[3], 0, m - 1];
            let mut d: Vec<$T> = v.iter().map(|t| *t as $T).collect();
            for i in 0..s.decompose_len() {
                let mut o = vec![x[4] as $T; 4];
                lattice::decompose_lsb_bits_inplace(&mut d, s, &mut o);
                eq!(o.iter().map(|t| *t as u128).collect::<Vec<_>>(), v.iter().map(|t| digit(*t, b, i)).collect::<Vec<_>>(), "digit {i} bits {b}");
            }
            ck!(d.iter().all(|t| *t == 0), "a remainder is left: modulus {m} bits {b}");
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c = vec![];
    field!(c, V8, u8, 17);
    field!(c, V16, u16, 15361);
    field!(c, V32, u32, 1073479681);
    field!(c, V64, u64, 4611686018427322369);
    field!(c, DefaultFieldU32, u32, 132120577);
    field!(c, DefaultQks, u32, 15361);
    lat!(c, u8);
    lat!(c, u16);
    lat!(c, u32);
    lat!(c, u64);
    run_main("C11", c);
}
