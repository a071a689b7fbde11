use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::big::*;
use harness::*;
use lattice::{LWE, NTTRLWE, RLWE};
use vfields::*;
/// n, r, dim, then 5 coefficient vectors (a, b, c, d, s)
fn gen(r: &mut Rng, p: u128, maxlog: u128, pow2: bool) -> Vec<u128> {
    let n = if pow2 { 1u128 << r.r(1, maxlog + 1) } else { r.r(1, 9) };
    let mut v = vec![n, if r.bit() { r.r(0, 2 * n + 1) } else { [0, n, 2 * n, n - 1, n + 1][r.n(5) as usize] }, r.r(1, n + 1)];
    let sparse = r.bit();
    for _ in 0..5 * n { v.push(if sparse && r.bit() { 0 } else { r.below(p) }); }
    v
}
fn ph(a: &[u128], b: u128, s: &[u128], p: u128) -> u128 { a.iter().zip(s).fold(b, |t, (x, y)| submod(t, mulmod(*x, *y, p), p)) }
fn z(a: &[u128], b: &[u128], f: impl Fn(u128, u128) -> u128) -> Vec<u128> { a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() }
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr) => {{
        const P: u128 = $P;
        type F = $F;
        let nm = stringify!($F);
        fn el(v: &[u128]) -> Vec<F> { v.iter().map(|t| F::new(*t as $T)).collect() }
        fn val(v: &[F]) -> Vec<u128> { v.iter().map(|t| t.value() as u128).collect() }
        fn split(x: &[u128]) -> Option<(usize, usize, usize, [Vec<u128>; 5])> {
            if x.len() < 3 { return None; }
            let n = x[0] as usize;
            if n == 0 || n > 4096 || x.len() != 5 * n + 3 || x[3..].iter().any(|v| *v >= P) || x[1] > 2 * x[0] || x[2] > x[0] || x[2] == 0 { return None; }
            Some((n, x[1] as usize, x[2] as usize, [0, 1, 2, 3, 4].map(|i| x[3 + i * n..3 + (i + 1) * n].to_vec())))
        }
        fn add(x: &[u128], y: &[u128]) -> Vec<u128> { z(x, y, |x, y| addmod(x, y, P)) }
        fn sub(x: &[u128], y: &[u128]) -> Vec<u128> { z(x, y, |x, y| submod(x, y, P)) }
        fn mul(x: &[u128], y: &[u128]) -> Vec<u128> { z(x, y, |x, y| mulmod(x, y, P)) }
        fn pl(v: &[u128]) -> Polynomial<F> { Polynomial::new(el(v)) }
        fn nt(v: &[u128]) -> NTTPolynomial<F> { NTTPolynomial::new(el(v)) }
        fn r(a: &[u128], b: &[u128]) -> RLWE<F> { RLWE::new(pl(a), pl(b)) }
        fn nr(a: &[u128], b: &[u128]) -> NTTRLWE<F> { NTTRLWE::new(nt(a), nt(b)) }
        fn is(w: &str, c: &RLWE<F>, a: &[u128], b: &[u128]) -> Result<(), String> { eq!(val(c.a_slice()), a.to_vec(), "{w}: a"); eq!(val(c.b_slice()), b.to_vec(), "{w}: b"); Ok(()) }
        fn nis(w: &str, c: &NTTRLWE<F>, a: &[u128], b: &[u128]) -> Result<(), String> { eq!(val(c.a_slice()), a.to_vec(), "{w}: a"); eq!(val(c.b_slice()), b.to_vec(), "{w}: b"); Ok(()) }
        $c.push(case(format!("{nm} arithmetic"), |r| gen(r, P, 3, false), |x| {
            let Some((n, _, _, [a, b, c, d, s])) = split(x) else { return Ok(false) };
            let (x1, x2) = (r(&a, &b), r(&c, &d));
            let (sa, sb, da, db) = (add(&a, &c), add(&b, &d), sub(&a, &c), sub(&b, &d));
            is("add_element_wise_ref", &x1.add_element_wise_ref(&x2), &sa, &sb)?;
            is("add_element_wise", &x1.clone().add_element_wise(&x2), &sa, &sb)?;
            is("sub_element_wise_ref", &x1.sub_element_wise_ref(&x2), &da, &db)?;
            is("sub_element_wise", &x1.clone().sub_element_wise(&x2), &da, &db)?;
            let mut t = x1.clone(); t.add_assign_element_wise(&x2); is("add_assign_element_wise", &t, &sa, &sb)?;
            let mut t = x1.clone(); t.sub_assign_element_wise(&x2); is("sub_assign_element_wise", &t, &da, &db)?;
            let mut t = r(&s, &c); x1.add_inplace(&x2, &mut t); is("add_inplace", &t, &sa, &sb)?;
            let mut t = r(&s, &c); x1.sub_inplace(&x2, &mut t); is("sub_inplace", &t, &da, &db)?;
            let (y1, y2) = (nr(&a, &b), nr(&c, &d));
            nis("ntt add_element_wise_ref", &y1.add_element_wise_ref(&y2), &sa, &sb)?;
            nis("ntt add_element_wise", &y1.clone().add_element_wise(&y2), &sa, &sb)?;
            nis("ntt sub_element_wise_ref", &y1.sub_element_wise_ref(&y2), &da, &db)?;
            nis("ntt sub_element_wise", &y1.clone().sub_element_wise(&y2), &da, &db)?;
            let mut t = y1.clone(); t.add_element_wise_assign(&y2); nis("ntt add_element_wise_assign", &t, &sa, &sb)?;
            let mut t = y1.clone(); t.sub_element_wise_assign(&y2); nis("ntt sub_element_wise_assign", &t, &da, &db)?;
            let mut t = nr(&s, &c); y1.add_inplace(&y2, &mut t); nis("ntt add_inplace", &t, &sa, &sb)?;
            let mut t = nr(&s, &c); y1.sub_inplace(&y2, &mut t); nis("ntt sub_inplace", &t, &da, &db)?;
            let q = nt(&s);
            let mut t = y1.clone(); t.mul_ntt_polynomial_assign(&q); nis("mul_ntt_polynomial_assign", &t, &mul(&a, &s), &mul(&b, &s))?;
            let mut t = y2.clone(); y1.mul_ntt_polynomial_inplace(&q, &mut t); nis("ntt mul_ntt_polynomial_inplace", &t, &mul(&a, &s), &mul(&b, &s))?;
            let (fa, fb) = (add(&a, &mul(&c, &s)), add(&b, &mul(&d, &s)));
            let mut t = y1.clone(); t.add_ntt_rlwe_mul_ntt_polynomial_assign(&y2, &q); nis("add_ntt_rlwe_mul_ntt_polynomial_assign", &t, &fa, &fb)?;
            let mut t = y2.clone(); y1.add_ntt_rlwe_mul_ntt_polynomial_inplace(&y2, &q, &mut t); nis("add_ntt_rlwe_mul_ntt_polynomial_inplace", &t, &fa, &fb)?;
            let mut t = y1.clone(); t.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&y2, &q);
            let red = |v: &[F]| v.iter().map(|t| t.value() as u128 % P).collect::<Vec<_>>();
            eq!((red(t.a_slice()), red(t.b_slice())), (fa, fb), "add_ntt_rlwe_mul_ntt_polynomial_assign_fast");
            let mut t = x1.clone(); t.set_zero(); is("set_zero", &t, &vec![0; n], &vec![0; n])?;
            let mut t = y1.clone(); t.set_zero(); nis("ntt set_zero", &t, &vec![0; n], &vec![0; n])?;
            is("zero", &RLWE::<F>::zero(n), &vec![0; n], &vec![0; n])?;
            nis("ntt zero", &NTTRLWE::<F>::zero(n), &vec![0; n], &vec![0; n])?;
            is("from_ref", &RLWE::from_ref(&pl(&a), &pl(&b)), &a, &b)?;
            is("from pair", &RLWE::from((pl(&a), pl(&b))), &a, &b)?;
            let mut t = x1.clone(); *t.a_mut() = pl(&c); is("a_mut", &t, &c, &b)?;
            let mut t = x1.clone(); *t.b_mut() = pl(&c); is("b_mut", &t, &a, &c)?;
            let mut t = x1.clone(); { let (u, v) = t.a_b_mut(); std::mem::swap(u, v); } is("a_b_mut", &t, &b, &a)?;
            let mut t = x1.clone(); { let (u, v) = t.a_b_mut_slices(); u.swap_with_slice(v); } is("a_b_mut_slices", &t, &b, &a)?;
            eq!(x1.dimension(), n, "dimension"); eq!(y1.dimension(), n, "ntt dimension");
            Ok(true)
        }).w(2));
        $c.push(case(format!("{nm} rotation and extraction"), |r| gen(r, P, 3, false), |x| {
            let Some((n, k, dim, [a, b, c, d, s])) = split(x) else { return Ok(false) };
            let (x1, x2) = (r(&a, &b), r(&c, &d));
            let (ra, rb) = (rot(&a, k, P), rot(&b, k, P));
            let mut t = x2.clone(); x1.mul_monic_monomial_sub_one_inplace(n, k, &mut t); is("mul_monic_monomial_sub_one_inplace", &t, &sub(&ra, &a), &sub(&rb, &b))?;
            let mut t = x2.clone(); t.add_assign_rhs_mul_monic_monomial(&x1, n, k); is("add_assign_rhs_mul_monic_monomial", &t, &add(&c, &ra), &add(&d, &rb))?;
            let want = submod(b[0], negmul(&a, &s, P)[0], P);
            let v = |l: &LWE<F>, s: &[u128]| -> Result<u128, String> { eq!(l.a().len(), s.len(), "mask length"); Ok(ph(&val(l.a()), l.b().value() as u128, s, P)) };
            eq!(v(&x1.extract_lwe(), &s)?, want, "extract_lwe phase");
            eq!(v(&x1.clone().extract_lwe_locally(), &s)?, want, "extract_lwe_locally phase");
            let sr: Vec<u128> = (0..n).map(|i| if i == 0 { s[0] } else { submod(0, s[n - i], P) }).collect();
            eq!(v(&x1.clone().extract_lwe_reverse_locally(), &sr)?, want, "extract_lwe_reverse_locally phase");
            let mut sp = s.clone(); for t in sp[dim..].iter_mut() { *t = 0; }
            let want = submod(b[0], negmul(&a, &sp, P)[0], P);
            eq!(v(&x1.clone().extract_partial_lwe_locally(dim), &sp[..dim])?, want, "extract_partial_lwe_locally phase");
            let srp: Vec<u128> = (0..n).map(|i| if i == 0 { sp[0] } else { submod(0, sp[n - i], P) }).collect();
            // the reversed secret truncated to its first dim entries
            let keep: Vec<u128> = (0..n).map(|i| if i < dim { sr[i] } else { 0 }).collect();
            let orig: Vec<u128> = (0..n).map(|i| if i == 0 { keep[0] } else { submod(0, keep[n - i], P) }).collect();
            let _ = srp;
            eq!(v(&x1.clone().extract_partial_lwe_reverse_locally(dim), &keep[..dim])?, submod(b[0], negmul(&a, &orig, P)[0], P), "extract_partial_lwe_reverse_locally phase");
            Ok(true)
        }).w(3));
        $c.push(case(format!("{nm} transformed"), |r| gen(r, P, $lg, true), |x| {
            let Some((n, _, _, [a, b, c, d, s])) = split(x) else { return Ok(false) };
            pre!(n.is_power_of_two() && n > 1);
            let (x1, x2) = (r(&a, &b), r(&c, &d));
            let q = pl(&s).into_ntt_polynomial();
            let mut t = nr(&c, &d); x1.mul_ntt_polynomial_inplace(&q, &mut t);
            is("mul_ntt_polynomial_inplace", &RLWE::from(t.clone()), &negmul(&a, &s, P), &negmul(&b, &s, P))?;
            let mut u = x2.clone(); t.inverse_transform_inplace(&mut u); is("inverse_transform_inplace", &u, &negmul(&a, &s, P), &negmul(&b, &s, P))?;
            is("round trip", &RLWE::from(NTTRLWE::from(x1.clone())), &a, &b)?;
            let y = NTTRLWE::from((pl(&a), pl(&b))); eq!(y, NTTRLWE::from(x1.clone()), "from pair");
            is("from ntt pair", &RLWE::from((y.a().clone(), y.b().clone())), &a, &b)?;
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c = vec![];
    field!(c, DefaultFieldU32, u32, 132120577, 6);
    field!(c, DefaultQks, u32, 15361, 5);
    field!(c, V8, u8, 17, 3);
    field!(c, V64, u64, 4611686018427322369, 5);
    run_main("C15", c);
}
