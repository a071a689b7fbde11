use algebra::{Basis, *};
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::big::*;
use harness::*;
use lattice::*;
use rand::SeedableRng;
use vfields::*;
type V = Vec<u128>;
type Row = (V, V);
/// log n, bits, seed of the rows, then five coefficient vectors (a, b, m, s, c)
fn gen(r: &mut Rng, p: u128, wbits: u128, maxlog: u128) -> V {
    let top = (128 - p.leading_zeros()) as u128;
    let lg = r.r(1, maxlog + 1);
    let mut v = vec![lg, r.r(1, top.min(wbits - 1) + 1), r.n(1 << 20)];
    let sparse = r.bit();
    for _ in 0..5u32 << lg { v.push(if sparse && r.bit() { 0 } else { r.below(p) }); }
    v
}
fn digit(x: u128, b: u32, i: usize) -> u128 { (x >> (b as usize * i)) & ((1 << b) - 1) }
fn z(a: &[u128], b: &[u128], f: impl Fn(u128, u128) -> u128) -> V { a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() }
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr) => {{
        const P: u128 = $P;
        type F = $F;
        let nm = stringify!($F);
        const W: u128 = <$T>::BITS as u128;
        fn el(v: &[u128]) -> Vec<F> { v.iter().map(|t| F::new(*t as $T)).collect() }
        fn val(v: &[F]) -> V { v.iter().map(|t| t.value() as u128 % P).collect() }
        fn add(x: &[u128], y: &[u128]) -> V { z(x, y, |x, y| addmod(x, y, P)) }
        fn sub(x: &[u128], y: &[u128]) -> V { z(x, y, |x, y| submod(x, y, P)) }
        fn nmul(x: &[u128], y: &[u128]) -> V { negmul(x, y, P) }
        fn pl(v: &[u128]) -> Polynomial<F> { Polynomial::new(el(v)) }
        fn ntt(v: &[u128]) -> NTTPolynomial<F> { pl(v).into_ntt_polynomial() }
        fn r(c: &Row) -> RLWE<F> { RLWE::new(pl(&c.0), pl(&c.1)) }
        fn nr(c: &Row) -> NTTRLWE<F> { NTTRLWE::new(ntt(&c.0), ntt(&c.1)) }
        fn rv(c: &RLWE<F>) -> Row { (val(c.a_slice()), val(c.b_slice())) }
        /// back to coefficients, from possibly unreduced transformed coefficients
        fn nv(c: &NTTRLWE<F>) -> Row {
            let f = |q: &[F]| val(NTTPolynomial::<F>::new(el(&val(q))).into_native_polynomial().as_slice());
            (f(c.a_slice()), f(c.b_slice()))
        }
        fn is(w: &str, got: Row, want: &Row) -> Result<(), String> { eq!(got.0, want.0, "{w}: a"); eq!(got.1, want.1, "{w}: b"); Ok(()) }
        fn radd(x: &Row, y: &Row) -> Row { (add(&x.0, &y.0), add(&x.1, &y.1)) }
        fn rsub(x: &Row, y: &Row) -> Row { (sub(&x.0, &y.0), sub(&x.1, &y.1)) }
        fn phase(x: &Row, s: &[u128]) -> V { sub(&x.1, &nmul(&x.0, s)) }
        /// sum over the digits of the operand of digit polynomial times row
        fn gp(g: &[Row], x: &[u128], bits: u32) -> Row {
            let n = x.len();
            g.iter().enumerate().fold((vec![0; n], vec![0; n]), |t, (i, w)| {
                let d: V = x.iter().map(|v| digit(*v, bits, i) % P).collect();
                radd(&t, &(nmul(&d, &w.0), nmul(&d, &w.1)))
            })
        }
        fn ep(n0: &[Row], n1: &[Row], c: &Row, bits: u32) -> Row { radd(&gp(n0, &c.0, bits), &gp(n1, &c.1, bits)) }
        fn rnd(r: &mut Rng, n: usize) -> V { (0..n).map(|_| r.below(P)).collect() }
        fn rows(r: &mut Rng, n: usize, len: usize) -> Vec<Row> { (0..len).map(|_| (rnd(r, n), rnd(r, n))).collect() }
        fn gr(g: &[Row], b: Basis<F>) -> GadgetRLWE<F> { GadgetRLWE::new(g.iter().map(r).collect(), b) }
        fn ngr(g: &[Row], b: Basis<F>) -> NTTGadgetRLWE<F> { NTTGadgetRLWE::new(g.iter().map(nr).collect(), b) }
        fn split(x: &[u128]) -> Option<(usize, u32, Rng, [V; 5])> {
            if x.len() < 3 || x[0] < 1 || x[0] > $lg || x[1] == 0 || x[1] >= W || x[1] > (128 - P.leading_zeros()) as u128 || x[2] >= 1 << 20 { return None; }
            let n = 1usize << x[0];
            if x.len() != 5 * n + 3 || x[3..].iter().any(|v| *v >= P) { return None; }
            Some((n, x[1] as u32, Rng::new(x[2] as u64), [0, 1, 2, 3, 4].map(|i| x[3 + i * n..3 + (i + 1) * n].to_vec())))
        }
        fn dirty(r: &mut Rng, n: usize) -> (DecompositionSpace<F>, PolynomialSpace<F>, NTTRLWESpace<F>) {
            let (mut d, mut p, mut m) = (DecompositionSpace::new(n), PolynomialSpace::new(n), NTTRLWESpace::new(n));
            if r.bit() {
                d.get_mut().as_mut_slice().copy_from_slice(&el(&rnd(r, n)));
                p.get_mut().as_mut_slice().copy_from_slice(&el(&rnd(r, n)));
                let m = m.get_mut();
                m.a_mut_slice().copy_from_slice(&el(&rnd(r, n)));
                m.b_mut_slice().copy_from_slice(&el(&rnd(r, n)));
            }
            (d, p, m)
        }
        $c.push(case(format!("{nm} gadget products"), |r| gen(r, P, W, $lg), |x| {
            let Some((n, bits, mut rg, [a, b, m, s, c])) = split(x) else { return Ok(false) };
            let basis = Basis::<F>::new(bits);
            let len = basis.decompose_len();
            let g = rows(&mut rg, n, len);
            let want = gp(&g, &a, bits);
            let acc: Row = (b.clone(), c.clone());
            let (plus, neg) = (radd(&acc, &want), radd(&acc, &gp(&g, &sub(&vec![0; n], &a), bits)));
            let (q, nq, pa) = (gr(&g, basis), ngr(&g, basis), pl(&a));
            is("mul_polynomial", rv(&q.mul_polynomial(&pa)), &want)?;
            is("mul_polynomial_add_rlwe", rv(&q.mul_polynomial_add_rlwe(&pa, r(&acc))), &plus)?;
            is("add_gadget_rlwe_mul_polynomial", rv(&r(&acc).add_gadget_rlwe_mul_polynomial(&q, &pa)), &plus)?;
            is("ntt mul_polynomial", nv(&nq.mul_polynomial(&pa)), &want)?;
            is("ntt from", nv(&NTTGadgetRLWE::from(q.clone()).mul_polynomial(&pa)), &want)?;
            let (mut d, mut p, mut t) = dirty(&mut rg, n);
            nq.mul_polynomial_inplace(&pa, &mut d, &mut p, &mut t); is("mul_polynomial_inplace", nv(&t), &want)?;
            let (mut d, mut p, mut t) = dirty(&mut rg, n);
            nq.mul_polynomial_inplace_fast(&pa, &mut d, &mut p, &mut t); is("mul_polynomial_inplace_fast", nv(&t), &want)?;
            // the same scratch space again, now holding the leftovers
            nq.mul_polynomial_inplace(&pl(&m), &mut d, &mut p, &mut t); is("mul_polynomial_inplace, reused space", nv(&t), &gp(&g, &m, bits))?;
            is("ntt add_gadget_rlwe_mul_polynomial", nv(&nr(&acc).add_gadget_rlwe_mul_polynomial(&nq, &pa)), &plus)?;
            let (mut d, mut p, _) = dirty(&mut rg, n);
            let mut t = nr(&acc); t.add_assign_gadget_rlwe_mul_polynomial(&nq, &pa, &mut d, &mut p); is("add_assign_gadget_rlwe_mul_polynomial", nv(&t), &plus)?;
            let (mut d, mut p, _) = dirty(&mut rg, n);
            let mut t = nr(&acc); t.add_assign_gadget_rlwe_mul_polynomial_fast(&nq, &pa, &mut d, &mut p); is("add_assign_gadget_rlwe_mul_polynomial_fast", nv(&t), &plus)?;
            let (mut d, _, _) = dirty(&mut rg, n);
            let mut t = nr(&acc); t.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&nq, &mut pa.clone(), &mut d); is("add_assign_gadget_rlwe_mul_polynomial_inplace_fast", nv(&t), &plus)?;
            let (mut d, _, _) = dirty(&mut rg, n);
            let mut t = nr(&acc); t.sub_assign_gadget_rlwe_mul_polynomial_inplace(&nq, pa.clone(), &mut d); is("sub_assign_gadget_rlwe_mul_polynomial_inplace", nv(&t), &neg)?;
            let (mut d, _, _) = dirty(&mut rg, n);
            let mut t = nr(&acc); t.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&nq, &mut pa.clone(), &mut d); is("sub_assign_gadget_rlwe_mul_polynomial_inplace_fast", nv(&t), &neg)?;
            // noiseless rows of m
            let mut pw = 1u128;
            let h: Vec<Row> = (0..len).map(|_| { let u = rnd(&mut rg, n); let k: V = m.iter().map(|t| mulmod(*t, pw, P)).collect(); pw = mulmod(pw, 1 << bits, P); (u.clone(), add(&nmul(&u, &s), &k)) }).collect();
            eq!(phase(&rv(&gr(&h, basis).mul_polynomial(&pa)), &s), nmul(&a, &m), "phase of a noiseless gadget product");
            let one = sub(&vec![0; n], &a);
            let mut t = nr(&acc); t.sub_assign_gadget_rlwe_mul_polynomial_inplace(&ngr(&h, basis), pa.clone(), &mut d);
            eq!(phase(&nv(&t), &s), add(&phase(&acc, &s), &nmul(&one, &m)), "phase after subtracting a gadget product");
            Ok(true)
        }).w(3));
        $c.push(case(format!("{nm} external products"), |r| gen(r, P, W, $lg), |x| {
            let Some((n, bits, mut rg, [a, b, m, s, _])) = split(x) else { return Ok(false) };
            let basis = Basis::<F>::new(bits);
            let len = basis.decompose_len();
            let ct: Row = (a, b);
            let (g0, g1) = (rows(&mut rg, n, len), rows(&mut rg, n, len));
            let want = ep(&g0, &g1, &ct, bits);
            let q = RGSW::new(gr(&g0, basis), gr(&g1, basis));
            let nq = NTTRGSW::from(q.clone());
            is("mul_rgsw", rv(&r(&ct).mul_rgsw(&q)), &want)?;
            is("mul_ntt_rgsw", rv(&r(&ct).mul_ntt_rgsw(&nq)), &want)?;
            let (mut d, mut p, mut w) = dirty(&mut rg, n);
            let mut t = r(&ct); t.mul_assign_ntt_rgsw(&nq, &mut d, &mut p, &mut w); is("mul_assign_ntt_rgsw", rv(&t), &want)?;
            let (mut d, mut p, mut w) = dirty(&mut rg, n);
            let mut t = r(&(rnd(&mut rg, n), rnd(&mut rg, n))); r(&ct).mul_ntt_rgsw_inplace(&nq, &mut d, &mut p, &mut w, &mut t); is("mul_ntt_rgsw_inplace", rv(&t), &want)?;
            let mut t2 = r(&ct); r(&ct).mul_ntt_rgsw_inplace(&nq, &mut d, &mut p, &mut w, &mut t2); is("mul_ntt_rgsw_inplace, reused space", rv(&t2), &want)?;
            for v in [&q.c_m().data()[0], &t] { ck!(v.a_slice().iter().chain(v.b_slice()).all(|e| (e.value() as u128) < P), "not canonical"); }
            // rows of m: c_m encrypts B^i m, c_neg_s_m encrypts -s B^i m
            let mut pw = 1u128;
            let (mut h0, mut h1) = (vec![], vec![]);
            for _ in 0..len {
                let k: V = m.iter().map(|t| mulmod(*t, pw, P)).collect(); pw = mulmod(pw, 1 << bits, P);
                let (u, v) = (rnd(&mut rg, n), rnd(&mut rg, n));
                h0.push((add(&u, &k), nmul(&u, &s))); h1.push((v.clone(), add(&nmul(&v, &s), &k)));
            }
            let e = NTTRGSW::new(ngr(&h0, basis), ngr(&h1, basis));
            eq!(phase(&rv(&r(&ct).mul_ntt_rgsw(&e)), &s), nmul(&phase(&ct, &s), &m), "phase of a noiseless external product");
            let e2 = RGSW::new(gr(&h0, basis), gr(&h1, basis));
            let pr = q.mul_small_ntt_rgsw(&e);
            for (k, (o, g)) in [(pr.c_neg_s_m(), &g0), (pr.c_m(), &g1)].into_iter().enumerate() {
                eq!(o.data().len(), len, "rows of a product");
                for (i, w) in g.iter().enumerate() { is(&format!("mul_small_ntt_rgsw half {k} row {i}"), rv(&o.data()[i]), &ep(&h0, &h1, w, bits))?; }
            }
            let pr2 = q.mul_small_rgsw(&e2);
            for (o, g) in [(pr.c_neg_s_m(), pr2.c_neg_s_m()), (pr.c_m(), pr2.c_m())] { eq!(o.data(), g.data(), "mul_small_rgsw against mul_small_ntt_rgsw"); }
            Ok(true)
        }).w(3));
        $c.push(case(format!("{nm} row arithmetic"), |r| gen(r, P, W, $lg), |x| {
            let Some((n, bits, mut rg, [a, ..])) = split(x) else { return Ok(false) };
            let basis = Basis::<F>::new(bits);
            let len = basis.decompose_len();
            let h: [Vec<Row>; 6] = [0; 6].map(|_| rows(&mut rg, n, len));
            let all = |w: &str, g: &GadgetRLWE<F>, f: &dyn Fn(usize) -> Row| -> Result<(), String> { eq!(g.data().len(), len, "{w}: rows"); for i in 0..len { is(&format!("{w} row {i}"), rv(&g.data()[i]), &f(i))?; } Ok(()) };
            let nall = |w: &str, g: &NTTGadgetRLWE<F>, f: &dyn Fn(usize) -> Row| -> Result<(), String> { eq!(g.data().len(), len, "{w}: rows"); for i in 0..len { is(&format!("{w} row {i}"), nv(&g.data()[i]), &f(i))?; } Ok(()) };
            let (p, q, t) = (RGSW::new(gr(&h[0], basis), gr(&h[1], basis)), RGSW::new(gr(&h[2], basis), gr(&h[3], basis)), RGSW::new(gr(&h[4], basis), gr(&h[5], basis)));
            let mut o = t.clone(); p.add_inplace(&q, &mut o); all("add_inplace neg", o.c_neg_s_m(), &|i| radd(&h[0][i], &h[2][i]))?; all("add_inplace", o.c_m(), &|i| radd(&h[1][i], &h[3][i]))?;
            let mut o = t.clone(); p.sub_inplace(&q, &mut o); all("sub_inplace neg", o.c_neg_s_m(), &|i| rsub(&h[0][i], &h[2][i]))?; all("sub_inplace", o.c_m(), &|i| rsub(&h[1][i], &h[3][i]))?;
            let o = RGSW::from_ref(p.c_neg_s_m(), p.c_m()); all("from_ref neg", o.c_neg_s_m(), &|i| h[0][i].clone())?; all("from_ref", o.c_m(), &|i| h[1][i].clone())?;
            let o = RGSW::from((gr(&h[0], basis), gr(&h[1], basis))); all("from neg", o.c_neg_s_m(), &|i| h[0][i].clone())?; all("from", o.c_m(), &|i| h[1][i].clone())?;
            let (p, q, t) = (NTTRGSW::from(p), NTTRGSW::from(q), NTTRGSW::from(t));
            nall("ntt from neg", p.c_neg_s_m(), &|i| h[0][i].clone())?; nall("ntt from", p.c_m(), &|i| h[1][i].clone())?;
            let mut o = t.clone(); p.add_inplace(&q, &mut o); nall("ntt add_inplace neg", o.c_neg_s_m(), &|i| radd(&h[0][i], &h[2][i]))?; nall("ntt add_inplace", o.c_m(), &|i| radd(&h[1][i], &h[3][i]))?;
            let mut o = t.clone(); p.sub_inplace(&q, &mut o); nall("ntt sub_inplace neg", o.c_neg_s_m(), &|i| rsub(&h[0][i], &h[2][i]))?; nall("ntt sub_inplace", o.c_m(), &|i| rsub(&h[1][i], &h[3][i]))?;
            let k = ntt(&a);
            let mu = |w: &Row| (nmul(&w.0, &a), nmul(&w.1, &a));
            let mut o = p.clone(); o.mul_ntt_polynomial_assign(&k); nall("mul_ntt_polynomial_assign neg", o.c_neg_s_m(), &|i| mu(&h[0][i]))?; nall("mul_ntt_polynomial_assign", o.c_m(), &|i| mu(&h[1][i]))?;
            let mut o = t.clone(); p.add_ntt_rgsw_mul_ntt_polynomial_inplace(&q, &k, &mut o);
            nall("add_ntt_rgsw_mul_ntt_polynomial_inplace neg", o.c_neg_s_m(), &|i| radd(&h[0][i], &mu(&h[2][i])))?; nall("add_ntt_rgsw_mul_ntt_polynomial_inplace", o.c_m(), &|i| radd(&h[1][i], &mu(&h[3][i])))?;
            let zz = || (vec![0; n], vec![0; n]);
            let mut o = p.clone(); o.set_zero(); nall("set_zero neg", o.c_neg_s_m(), &|_| zz())?; nall("set_zero", o.c_m(), &|_| zz())?;
            let o = NTTRGSW::<F>::zero(n, basis); nall("zero neg", o.c_neg_s_m(), &|_| zz())?; nall("zero", o.c_m(), &|_| zz())?;
            eq!(p.basis().bits(), bits, "basis");
            Ok(true)
        }));
        $c.push(case(format!("{nm} generated rows"), |r| gen(r, P, W, $lg), |x| {
            let Some((n, bits, rg, [_, _, _, s, _])) = split(x) else { return Ok(false) };
            let basis = Basis::<F>::new(bits);
            let len = basis.decompose_len();
            let mut rng = { let mut rg = rg; rand::rngs::StdRng::seed_from_u64(rg.u64()) };
            let es = FieldDiscreteGaussianSampler::new(0.0, 0.7).unwrap();
            let sk = ntt(&s);
            let near = |w: &str, g: &[Row], m: &dyn Fn(u128) -> V| -> Result<(), String> {
                eq!(g.len(), len, "{w}: rows");
                let mut pw = 1u128;
                for (i, c) in g.iter().enumerate() {
                    for (j, e) in sub(&phase(c, &s), &m(pw)).into_iter().enumerate() { ck!(e.min(P - e) <= 4, "{w} row {i}: phase off by {e} at {j}, bits {bits}"); }
                    pw = mulmod(pw, 1 << bits, P);
                }
                Ok(())
            };
            let zero = |_| vec![0; n];
            let one = |p: u128| { let mut v = vec![0; n]; v[0] = p; v };
            let neg = |p: u128| s.iter().map(|t| submod(0, mulmod(*t, p, P), P)).collect::<V>();
            let f = |g: &GadgetRLWE<F>| g.iter().map(rv).collect::<Vec<_>>();
            let nf = |g: &NTTGadgetRLWE<F>| g.iter().map(nv).collect::<Vec<_>>();
            near("gadget zero", &f(&GadgetRLWE::generate_random_zero_sample(&sk, basis, es, &mut rng)), &zero)?;
            near("gadget one", &f(&GadgetRLWE::generate_random_one_sample(&sk, basis, es, &mut rng)), &one)?;
            near("gadget neg secret", &f(&GadgetRLWE::generate_random_neg_secret_sample(&sk, basis, es, &mut rng)), &neg)?;
            near("ntt gadget zero", &nf(&NTTGadgetRLWE::generate_random_zero_sample(&sk, basis, es, &mut rng)), &zero)?;
            near("ntt gadget one", &nf(&NTTGadgetRLWE::generate_random_one_sample(&sk, basis, es, &mut rng)), &one)?;
            near("ntt gadget neg secret", &nf(&NTTGadgetRLWE::generate_random_neg_secret_sample(&sk, basis, es, &mut rng)), &neg)?;
            let g = RGSW::generate_random_one_sample(&sk, basis, es, &mut rng); near("rgsw one, neg half", &f(g.c_neg_s_m()), &neg)?; near("rgsw one", &f(g.c_m()), &one)?;
            let g = RGSW::generate_random_zero_sample(&sk, basis, es, &mut rng); near("rgsw zero, neg half", &f(g.c_neg_s_m()), &zero)?; near("rgsw zero", &f(g.c_m()), &zero)?;
            let g = NTTRGSW::generate_random_one_sample(&sk, basis, es, &mut rng); near("ntt rgsw one, neg half", &nf(g.c_neg_s_m()), &neg)?; near("ntt rgsw one", &nf(g.c_m()), &one)?;
            let g = NTTRGSW::generate_random_zero_sample(&sk, basis, es, &mut rng); near("ntt rgsw zero, neg half", &nf(g.c_neg_s_m()), &zero)?; near("ntt rgsw zero", &nf(g.c_m()), &zero)?;
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c = vec![];
    field!(c, DefaultFieldU32, u32, 132120577, 5);
    field!(c, DefaultQks, u32, 15361, 4);
    field!(c, V8, u8, 17, 3);
    field!(c, V32, u32, 1073479681, 4);
    field!(c, V64, u64, 4611686018427322369, 4);
    run_main("C16", c);
}
