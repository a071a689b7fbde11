use algebra::modulus::*;
use algebra::*;
use fhe_core::DefaultFieldU32;
use harness::big::*;
use harness::*;
use lattice::LWE;
/// n, a, b for two ciphertexts, secret, scalar; all below p
fn gen(r: &mut Rng, p: u128) -> Vec<u128> {
    let n = r.n(10) as u128;
    let mut v = vec![n];
    let sparse = r.bit();
    for _ in 0..3 * n + 3 { v.push(if sparse && r.bit() { 0 } else { r.below(p) }); }
    v
}
struct In { n: usize, a: Vec<u128>, b: u128, c: Vec<u128>, d: u128, s: Vec<u128>, k: u128 }
fn split(x: &[u128], p: u128) -> Option<In> {
    let n = *x.first()? as usize;
    if x.len() != 3 * n + 4 || x[1..].iter().any(|v| *v >= p) { return None; }
    Some(In { n, a: x[1..1 + n].to_vec(), b: x[1 + n], c: x[2 + n..2 + 2 * n].to_vec(), d: x[2 + 2 * n], s: x[3 + 2 * n..3 + 3 * n].to_vec(), k: x[3 + 3 * n] })
}
fn ph(a: &[u128], b: u128, s: &[u128], p: u128) -> u128 { a.iter().zip(s).fold(b, |t, (x, y)| submod(t, mulmod(*x, *y, p), p)) }
/// r must be al*x + be*y entry by entry and in phase
fn lin(what: &str, i: &In, a: &[u128], b: u128, al: u128, be: u128, p: u128) -> Result<(), String> {
    let f = |x: u128, y: u128| addmod(mulmod(al, x, p), mulmod(be, y, p), p);
    let want: Vec<u128> = i.a.iter().zip(&i.c).map(|(x, y)| f(*x, *y)).collect();
    eq!(a.to_vec(), want, "{what} mask"); eq!(b, f(i.b, i.d), "{what} body");
    eq!(ph(a, b, &i.s, p), f(ph(&i.a, i.b, &i.s, p), ph(&i.c, i.d, &i.s, p)), "{what} phase");
    Ok(())
}
macro_rules! modular {
    ($c:ident, $T:ident, $name:expr, $p:expr, $m:expr, $mul:ident) => {{
        $c.push(case(format!("{} mod {}", stringify!($T), $name), move |r| { let p = $p(r); let mut v = vec![p]; v.extend(gen(r, p)); v }, move |x| {
            pre!(x.len() > 1);
            let p = x[0];
            let Some(i) = split(&x[1..], p) else { return Ok(false) };
            let Some(m) = $m(p) else { return Ok(false) };
            let mk = |a: &[u128], b: u128| LWE::new(a.iter().map(|t| *t as $T).collect::<Vec<$T>>(), b as $T);
            let (x1, x2) = (mk(&i.a, i.b), mk(&i.c, i.d));
            let chk = |w: &str, r: &LWE<$T>, al: u128, be: u128| lin(w, &i, &r.a().iter().map(|t| *t as u128 % p).collect::<Vec<_>>(), r.b() as u128 % p, al, be, p);
            let canon = |r: &LWE<$T>| p == GOLDILOCKS_P as u128 || (r.a().iter().all(|t| (*t as u128) < p) && (r.b() as u128) < p);
            let chk = |w: &str, r: &LWE<$T>, al: u128, be: u128| -> Result<(), String> { ck!(canon(r), "{w}: not reduced"); chk(w, r, al, be) };
            let m1 = p - 1; let one = 1 % p;
            chk("add_reduce_component_wise_ref", &x1.add_reduce_component_wise_ref(&x2, m), one, one)?;
            chk("add_reduce_component_wise", &x1.clone().add_reduce_component_wise(&x2, m), one, one)?;
            let mut t = x1.clone(); t.add_reduce_inplace_component_wise(&x2, m); chk("add_reduce_inplace_component_wise", &t, one, one)?;
            chk("sub_reduce_component_wise_ref", &x1.sub_reduce_component_wise_ref(&x2, m), one, m1)?;
            chk("sub_reduce_component_wise", &x1.clone().sub_reduce_component_wise(&x2, m), one, m1)?;
            let mut t = x1.clone(); t.sub_reduce_inplace_component_wise(&x2, m); chk("sub_reduce_inplace_component_wise", &t, one, m1)?;
            chk("neg_reduce", &x1.neg_reduce(m), m1, 0)?;
            let mut t = x1.clone(); t.neg_reduce_assign(m); chk("neg_reduce_assign", &t, m1, 0)?;
            eq!(x1 == x2, i.a == i.c && i.b == i.d, "eq");
            let mut t = x1.clone(); *t.b_mut() = i.d as $T; eq!(t.b() as u128, i.d, "b_mut"); eq!(t.a_mut().len(), i.n, "a_mut");
            eq!(LWE::from_ref(x1.a(), x1.b()), x1, "from_ref");
            mulforms!($mul, $T, m, i, x1, x2, chk, one);
            Ok(i.n > 0)
        }).w(2));
    }};
}
macro_rules! mulforms {
    (yes, $T:ident, $m:ident, $i:ident, $x1:ident, $x2:ident, $chk:ident, $one:ident) => {
        let mut t = $x1.clone(); t.scalar_mul_reduce_inplace($i.k as $T, $m); $chk("scalar_mul_reduce_inplace", &t, $i.k, 0)?;
        let mut t = $x1.clone(); t.add_assign_rhs_mul_scalar_reduce(&$x2, $i.k as $T, $m); $chk("add_assign_rhs_mul_scalar_reduce", &t, $one, $i.k)?;
    };
    (no, $T:ident, $m:ident, $i:ident, $x1:ident, $x2:ident, $chk:ident, $one:ident) => {};
}
fn main() {
    let mut c = vec![];
    let bar = |bits: u32| move |r: &mut Rng| r.r(2, 1 << (bits - 2));
    let p2 = |bits: u32| move |r: &mut Rng| 1u128 << r.r(1, bits as u128);
    let odd = |bits: u32| move |r: &mut Rng| r.r(2, 1 << (bits - 1));
    modular!(c, u8, "Barrett", bar(8), |p: u128| (p >= 2 && p < 1 << 6).then(|| BarrettModulus::<u8>::new(p as u8)), yes);
    modular!(c, u32, "Barrett", bar(32), |p: u128| (p >= 2 && p < 1 << 30).then(|| BarrettModulus::<u32>::new(p as u32)), yes);
    modular!(c, u64, "Barrett", bar(64), |p: u128| (p >= 2 && p < 1 << 62).then(|| BarrettModulus::<u64>::new(p as u64)), yes);
    modular!(c, u16, "2^k", p2(16), |p: u128| (p >= 2 && p < 1 << 16 && p.is_power_of_two()).then(|| PowOf2Modulus::<u16>::new(p as u16)), yes);
    modular!(c, u32, "2^k", p2(32), |p: u128| (p >= 2 && p < 1 << 32 && p.is_power_of_two()).then(|| PowOf2Modulus::<u32>::new(p as u32)), yes);
    modular!(c, u32, "word modulus", odd(32), |p: u128| (p >= 2 && p < 1 << 31).then_some(p as u32), no);
    modular!(c, u64, "word modulus", odd(64), |p: u128| (p >= 2 && p < 1 << 63).then_some(p as u64), no);
    modular!(c, u64, "Goldilocks", |_: &mut Rng| GOLDILOCKS_P as u128, |p: u128| (p == GOLDILOCKS_P as u128).then_some(GoldilocksModulus), yes);
    const P: u128 = 132120577;
    type F = DefaultFieldU32;
    c.push(case("field", |r| gen(r, P), |x| {
        let Some(i) = split(x, P) else { return Ok(false) };
        let mk = |a: &[u128], b: u128| LWE::new(a.iter().map(|t| F::new(*t as u32)).collect::<Vec<F>>(), F::new(b as u32));
        let (x1, x2) = (mk(&i.a, i.b), mk(&i.c, i.d));
        let chk = |w: &str, r: &LWE<F>, al: u128, be: u128| lin(w, &i, &r.a().iter().map(|t| t.value() as u128).collect::<Vec<_>>(), r.b().value() as u128, al, be, P);
        chk("add_component_wise_ref", &x1.add_component_wise_ref(&x2), 1, 1)?;
        chk("add_component_wise", &x1.clone().add_component_wise(&x2), 1, 1)?;
        let mut t = x1.clone(); t.add_inplace_component_wise(&x2); chk("add_inplace_component_wise", &t, 1, 1)?;
        chk("sub_component_wise_ref", &x1.sub_component_wise_ref(&x2), 1, P - 1)?;
        chk("sub_component_wise", &x1.clone().sub_component_wise(&x2), 1, P - 1)?;
        let mut t = x1.clone(); t.sub_inplace_component_wise(&x2); chk("sub_inplace_component_wise", &t, 1, P - 1)?;
        Ok(i.n > 0)
    }).w(2));
    run_main("C14", c);
}
