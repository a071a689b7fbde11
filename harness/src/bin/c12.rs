use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::big::*;
use harness::*;
use vfields::*;
fn rev(l: u128, x: usize) -> usize { (0..l as usize).fold(0, |a, i| a | ((x >> i) & 1) << (l as usize - 1 - i)) }
/// values at the odd powers of the root, in bit-reversed order
fn eval(root: u128, l: u128, a: &[u128], p: u128) -> Vec<u128> {
    let n = a.len();
    let mut pw = vec![1u128; 2 * n];
    for i in 1..2 * n { pw[i] = mulmod(pw[i - 1], root, p); }
    (0..n).map(|i| { let e = 2 * rev(l, i) + 1; (0..n).fold(0, |s, j| addmod(s, mulmod(a[j] % p, pw[e * j % (2 * n)], p), p)) }).collect()
}
/// log n, then n words below k * p; often extremal
fn gen(r: &mut Rng, p: u128, lg: u128, k: u128) -> Vec<u128> {
    let l = if r.n(12) == 0 { r.n(lg + 1) } else { r.n(lg.min(5) + 1) };
    let mode = r.n(5);
    let kk = if r.bit() { 1 } else { k };
    let mut v = vec![l];
    for _ in 0..1u128 << l {
        v.push(match mode { 0 => kk * p - 1, 1 => if r.bit() { kk * p - 1 } else { 0 }, 2 => [0, 1, p - 1, p / 2, (kk - 1) * p, kk * p - 1][r.n(6) as usize], 3 => if r.n(4) == 0 { r.below(p) } else { 0 }, _ => r.below(kk * p) });
    }
    v
}
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr) => {{
        const P: u128 = $P;
        type F = $F;
        let n = stringify!($F);
        fn el(v: &[u128]) -> Vec<F> { v.iter().map(|t| F::lazy_new(*t as $T)).collect() }
        fn val(v: &[F]) -> Vec<u128> { v.iter().map(|t| t.value() as u128).collect() }
        fn ok(x: &[u128], k: u128) -> Option<(u128, &[u128])> {
            let l = *x.first()?;
            (l <= $lg && x.len() == 1 + (1 << l) && x[1..].iter().all(|v| *v < k * P)).then(|| (l, &x[1..]))
        }
        $c.push(case(format!("{n} forward"), |r| gen(r, P, $lg, 2), |x| {
            let Some((l, a)) = ok(x, 2) else { return Ok(false) };
            let t = F::get_ntt_table(l as u32).map_err(|e| e.to_string())?;
            let root = t.root().value() as u128;
            let want = eval(root, l, a, P);
            let mut s = el(a); t.transform_slice(&mut s);
            eq!(val(&s), want, "transform_slice");
            let pl = Polynomial::new(el(a));
            eq!(val(t.transform(&pl).as_slice()), want, "transform"); eq!(val(pl.as_slice()), a.to_vec(), "transform keeps its argument"); eq!(val(t.transform_inplace(pl).as_slice()), want, "transform_inplace");
            t.inverse_transform_slice(&mut s);
            eq!(val(&s), a.iter().map(|v| v % P).collect::<Vec<_>>(), "there and back");
            Ok(l > 0)
        }).w(3));
        $c.push(case(format!("{n} inverse"), |r| gen(r, P, $lg, 2), |x| {
            let Some((l, a)) = ok(x, 2) else { return Ok(false) };
            let t = F::get_ntt_table(l as u32).map_err(|e| e.to_string())?;
            let mut s = el(a); t.inverse_transform_slice(&mut s);
            let back = val(&s);
            ck!(back.iter().all(|v| *v < P), "inverse output {back:?} is not canonical");
            eq!(eval(t.root().value() as u128, l, &back, P), a.iter().map(|v| v % P).collect::<Vec<_>>(), "values of the inverse");
            let q = NTTPolynomial::new(el(a));
            eq!(val(t.inverse_transform(&q).as_slice()), back, "inverse_transform"); eq!(val(q.as_slice()), a.to_vec(), "inverse_transform keeps its argument"); eq!(val(t.inverse_transform_inplace(q).as_slice()), back, "inverse_transform_inplace");
            Ok(l > 0)
        }).w(3));
        $c.push(case(format!("{n} monomial"), |r| {
            let l = if r.n(12) == 0 { r.n($lg + 1) } else { r.n(if $lg < 5 { $lg + 1 } else { 6 }) };
            let c = if r.bit() { [0, 1, P - 1, 2, P / 2][r.n(5) as usize] } else { r.below(P) };
            let d = if r.n(3) == 0 { [0, 1, (1 << l) - 1, 1 << l, (1 << l) + 1, (2 << l) - 1, 2 << l][r.n(7) as usize] } else { r.below(4 << l) };
            vec![l, c, d, r.below(P)]
        }, |x| {
            if x.len() != 4 || x[0] > $lg || x[1] >= P || x[2] > 8 << x[0] || x[3] >= P { return Ok(false); }
            let (l, c, d) = (x[0], x[1], x[2]);
            let len = 1usize << l;
            let t = F::get_ntt_table(l as u32).map_err(|e| e.to_string())?;
            let mono = |c: u128| { let mut v = vec![0; len]; let k = d as usize % (2 * len); v[k % len] = if k < len { c } else { (P - c) % P }; v };
            let root = t.root().value() as u128;
            let dirty = || vec![F::new(x[3] as $T); len];
            let mut s = dirty(); t.transform_monomial(F::new(c as $T), d as usize, &mut s);
            eq!(val(&s), eval(root, l, &mono(c), P), "transform_monomial");
            let mut s = dirty(); t.transform_coeff_one_monomial(d as usize, &mut s);
            eq!(val(&s), eval(root, l, &mono(1), P), "transform_coeff_one_monomial");
            let mut s = dirty(); t.transform_coeff_neg_one_monomial(d as usize, &mut s);
            eq!(val(&s), eval(root, l, &mono(P - 1), P), "transform_coeff_neg_one_monomial");
            Ok(d > 0)
        }).w(2));
        $c.push(case(format!("{n} table"), |r| vec![r.n($lg + 4)], |x| {
            if x.len() != 1 || x[0] > 30 { return Ok(false); }
            let l = x[0];
            let d = 2u128 << l;
            if d > <$T>::MAX as u128 { return Ok(false); }
            if (P - 1) % d != 0 {
                ck!(F::generate_ntt_table(l as u32).is_err(), "a table of size 2^{l} for a modulus without 2n-th roots");
                ck!(F::get_ntt_table(l as u32).is_err() && F::init_ntt_table(&[l as u32]).is_err(), "table cache accepts size 2^{l}");
                ck!(F::try_primitive_root(d as $T).is_err() && F::try_minimal_primitive_root(d as $T).is_err(), "a root of degree {d}");
                return Ok(true);
            }
            if l > $lg { return Ok(false); }
            let t = F::generate_ntt_table(l as u32).map_err(|e| e.to_string())?;
            let root = t.root().value() as u128;
            eq!(powmod(root, d / 2, P), P - 1, "root^n");
            let sq = mulmod(root, root, P);
            let mut y = root;
            for _ in 0..d / 2 { ck!(root <= y, "root {root} is not minimal: {y}"); y = mulmod(y, sq, P); }
            eq!(F::get_ntt_table(l as u32).map_err(|e| e.to_string())?.root().value() as u128, root, "cached table");
            let g = F::try_primitive_root(d as $T).map_err(|e| e.to_string())?.value() as u128;
            eq!(powmod(g, d / 2, P), P - 1, "try_primitive_root");
            eq!(F::try_minimal_primitive_root(d as $T).map_err(|e| e.to_string())?.value() as u128, root, "try_minimal_primitive_root");
            Ok(true)
        }));
        $c.push(case(format!("{n} is_primitive_root"), |r| { let l = r.n($lg + 1); let t = F::generate_ntt_table(l as u32).map(|t| t.root().value() as u128).unwrap_or(1); vec![1 << (r.n($lg + 1) + 1), if r.bit() { powmod(t, r.n(64), P) } else { r.below(P) }] }, |x| {
            if x.len() != 2 || x[0] < 2 || !x[0].is_power_of_two() || x[0] > <$T>::MAX as u128 || x[1] >= P { return Ok(false); }
            eq!(F::is_primitive_root(F::new(x[1] as $T), x[0] as $T), powmod(x[1], x[0] / 2, P) == P - 1, "is_primitive_root");
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c = vec![];
    field!(c, DefaultFieldU32, u32, 132120577, 10);
    field!(c, DefaultQks, u32, 15361, 9);
    field!(c, V8, u8, 17, 3);
    field!(c, V16, u16, 15361, 9);
    field!(c, V32, u32, 1073479681, 10);
    field!(c, V64, u64, 4611686018427322369, 10);
    run_main("C12", c);
}
