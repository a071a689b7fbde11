use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::big::*;
use harness::*;
use num_traits::Inv;
use vfields::*;
/// n, then 3 coefficient vectors of length n, then a scalar
fn gen(r: &mut Rng, p: u128, maxlog: u128, pow2: bool) -> Vec<u128> {
    let n = if pow2 { 1u128 << r.r(1, maxlog + 1) } else { r.n(12) as u128 };
    let mut v = vec![n];
    let sparse = r.bit();
    for _ in 0..3 * n + 1 { v.push(if sparse && r.bit() { 0 } else { r.below(p) }); }
    v
}
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr, $lg:expr) => {{
        const P: u128 = $P;
        type F = $F;
        let n = stringify!($F);
        type Pl = Polynomial<F>;
        type Nt = NTTPolynomial<F>;
        fn el(v: &[u128]) -> Vec<F> { v.iter().map(|t| F::new(*t as $T)).collect() }
        fn val(v: &[F]) -> Vec<u128> { v.iter().map(|t| t.value() as u128).collect() }
        fn z(a: &[u128], b: &[u128], f: impl Fn(u128, u128) -> u128) -> Vec<u128> { a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() }
        fn split(x: &[u128]) -> Option<(usize, &[u128], &[u128], &[u128], u128)> {
            let n = *x.first()? as usize;
            if x.len() != 3 * n + 2 || x[1..].iter().any(|v| *v >= P) { return None; }
            Some((n, &x[1..1 + n], &x[1 + n..1 + 2 * n], &x[1 + 2 * n..1 + 3 * n], x[1 + 3 * n]))
        }
        macro_rules! common {
            ($Ty:ident, $tn:expr) => {
                $c.push(case(format!("{n} {} elementwise", $tn), |r| gen(r, P, 3, false), |x| {
                    let Some((len, a, b, d, s)) = split(x) else { return Ok(false) };
                    let (pa, pb, pd) = ($Ty::new(el(a)), $Ty::new(el(b)), $Ty::new(el(d)));
                    let f = |p: &$Ty| val(p.as_slice());
                    let (sm, df) = (z(a, b, |x, y| addmod(x, y, P)), z(a, b, |x, y| submod(x, y, P)));
                    let sc: Vec<u128> = a.iter().map(|t| mulmod(*t, s, P)).collect();
                    let ng: Vec<u128> = a.iter().map(|t| submod(0, *t, P)).collect();
                    eq!(f(&(pa.clone() + pb.clone())), sm, "add vv"); eq!(f(&(pa.clone() + &pb)), sm, "add vr"); eq!(f(&(&pa + pb.clone())), sm, "add rv"); eq!(f(&(&pa + &pb)), sm, "add rr");
                    eq!(f(&(pa.clone() - pb.clone())), df, "sub vv"); eq!(f(&(pa.clone() - &pb)), df, "sub vr"); eq!(f(&(&pa - pb.clone())), df, "sub rv"); eq!(f(&(&pa - &pb)), df, "sub rr");
                    let mut t = pa.clone(); t += pb.clone(); eq!(f(&t), sm, "add_assign v");
                    let mut t = pa.clone(); t += &pb; eq!(f(&t), sm, "add_assign r");
                    let mut t = pa.clone(); t -= pb.clone(); eq!(f(&t), df, "sub_assign v");
                    let mut t = pa.clone(); t -= &pb; eq!(f(&t), df, "sub_assign r");
                    let mut t = pd.clone(); pa.add_inplace(&pb, &mut t); eq!(f(&t), sm, "add_inplace");
                    let mut t = pd.clone(); pa.sub_inplace(&pb, &mut t); eq!(f(&t), df, "sub_inplace");
                    eq!(f(&pa.mul_scalar(F::new(s as $T))), sc, "mul_scalar");
                    let mut t = pa.clone(); t.mul_scalar_assign(F::new(s as $T)); eq!(f(&t), sc, "mul_scalar_assign");
                    let mut t = pa.clone(); t.neg_assign(); eq!(f(&t), ng, "neg_assign");
                    eq!(f(&(-pa.clone())), ng, "neg v"); eq!(f(&(-&pa)), ng, "neg r");
                    eq!(pa.is_zero(), a.iter().all(|t| *t == 0), "is_zero");
                    eq!(f(&$Ty::zero(len)), vec![0; len], "zero");
                    eq!(f(&$Ty::from_slice(&el(a))), a.to_vec(), "from_slice");
                    let mut t = pd.clone(); t.copy_from(&pa); eq!(f(&t), a.to_vec(), "copy_from");
                    let mut t = pa.clone(); t.set_zero(); eq!(f(&t), vec![0; len], "set_zero");
                    eq!(pa.coeff_count(), len, "coeff_count"); eq!(val(&pa.clone().data()), a.to_vec(), "data");
                    eq!(val(&pa.copied_iter().collect::<Vec<_>>()), a.to_vec(), "copied_iter"); eq!(val(&pa.clone().into_iter().collect::<Vec<_>>()), a.to_vec(), "into_iter");
                    eq!(pa == pb, a == b, "eq");
                    for i in 0..len { eq!(pa[i].value() as u128, a[i], "index"); let mut t = pa.clone(); t[i] = pb[i]; eq!(t[i].value() as u128, b[i], "index_mut"); }
                    Ok(len > 0)
                }).w(3));
            };
        }
        common!(Pl, "polynomial");
        common!(Nt, "transformed");
        $c.push(case(format!("{n} evaluate"), |r| gen(r, P, 3, false), |x| {
            let Some((len, a, _, _, s)) = split(x) else { return Ok(false) };
            let mut want = 0; for i in 0..len { want = addmod(want, mulmod(a[i], powmod(s, i as u128, P), P), P); }
            eq!(Pl::new(el(a)).evaluate(F::new(s as $T)).value() as u128, want, "evaluate");
            Ok(len > 1)
        }));
        $c.push(case(format!("{n} transformed products"), |r| gen(r, P, 3, false), |x| {
            let Some((len, a, b, d, _)) = split(x) else { return Ok(false) };
            let f = |p: &Nt| val(p.as_slice());
            let (pa, pb, pd) = (Nt::new(el(a)), Nt::new(el(b)), Nt::new(el(d)));
            let pr = z(a, b, |x, y| mulmod(x, y, P));
            eq!(f(&(pa.clone() * pb.clone())), pr, "mul vv"); eq!(f(&(pa.clone() * &pb)), pr, "mul vr"); eq!(f(&(&pa * pb.clone())), pr, "mul rv"); eq!(f(&(&pa * &pb)), pr, "mul rr");
            let mut t = pa.clone(); t *= pb.clone(); eq!(f(&t), pr, "mul_assign v");
            let mut t = pa.clone(); t *= &pb; eq!(f(&t), pr, "mul_assign r");
            let mut t = pd.clone(); pa.mul_inplace(&pb, &mut t); eq!(f(&t), pr, "mul_inplace");
            let fm: Vec<u128> = (0..len).map(|i| addmod(d[i], pr[i], P)).collect();
            let mut t = pd.clone(); ntt_add_mul_assign(&mut t, &pa, &pb); eq!(f(&t), fm, "ntt_add_mul_assign");
            let mut t = pa.clone(); ntt_add_mul_inplace(&pd, &pa, &pb, &mut t); eq!(f(&t), fm, "ntt_add_mul_inplace");
            let mut t = pd.clone(); ntt_add_mul_assign_fast(&mut t, &pa, &pb);
            ck!(t.iter().all(|v| (v.value() as u128) < 2 * P), "ntt_add_mul_assign_fast out of range");
            eq!(f(&t).iter().map(|v| v % P).collect::<Vec<_>>(), fm, "ntt_add_mul_assign_fast");
            if a.iter().all(|t| *t != 0) {
                let want = vec![1 % P; len];
                eq!(z(&f(&pa.clone().inv()), a, |x, y| mulmod(x, y, P)), want, "inv v"); eq!(z(&f(&(&pa).inv()), a, |x, y| mulmod(x, y, P)), want, "inv r");
            }
            Ok(len > 0)
        }).w(2));
        $c.push(case(format!("{n} ring products"), |r| gen(r, P, $lg, true), |x| {
            let Some((len, a, b, _, _)) = split(x) else { return Ok(false) };
            pre!(len >= 2 && len.is_power_of_two() && len <= 1 << $lg);
            let (pa, pb) = (Pl::new(el(a)), Pl::new(el(b)));
            let f = |p: &Pl| val(p.as_slice());
            let want = negmul(a, b, P);
            eq!(f(&(pa.clone() * pb.clone())), want, "mul vv"); eq!(f(&(pa.clone() * &pb)), want, "mul vr"); eq!(f(&(&pa * pb.clone())), want, "mul rv"); eq!(f(&(&pa * &pb)), want, "mul rr");
            let mut t = pa.clone(); t *= pb.clone(); eq!(f(&t), want, "mul_assign v");
            let mut t = pa.clone(); t *= &pb; eq!(f(&t), want, "mul_assign r");
            let nb = pb.clone().into_ntt_polynomial(); let na = Nt::from(pa.clone());
            eq!(f(&(pa.clone() * nb.clone())), want, "mul ntt vv"); eq!(f(&(pa.clone() * &nb)), want, "mul ntt vr"); eq!(f(&(&pa * nb.clone())), want, "mul ntt rv"); eq!(f(&(&pa * &nb)), want, "mul ntt rr");
            let mut t = pa.clone(); t *= nb.clone(); eq!(f(&t), want, "mul_assign ntt v");
            let mut t = pa.clone(); t *= &nb; eq!(f(&t), want, "mul_assign ntt r");
            let g = |p: Nt| f(&p.into_native_polynomial());
            eq!(g(na.clone() * pb.clone()), want, "ntt mul vv"); eq!(g(na.clone() * &pb), want, "ntt mul vr"); eq!(g(&na * pb.clone()), want, "ntt mul rv"); eq!(g(&na * &pb), want, "ntt mul rr");
            let mut t = na.clone(); t *= pb.clone(); eq!(g(t), want, "ntt mul_assign v");
            let mut t = na.clone(); t *= &pb; eq!(g(t), want, "ntt mul_assign r");
            eq!(g(&na * &nb), want, "ntt ntt"); eq!(f(&Pl::from(na.clone())), a.to_vec(), "there and back");
            if na.iter().all(|t| t.value() != 0) {
                let mut one = vec![0; len]; one[0] = 1;
                eq!(negmul(&f(&pa.clone().inv()), a, P), one, "inv v"); eq!(negmul(&f(&(&pa).inv()), a, P), one, "inv r");
            }
            Ok(true)
        }).w(2));
    }};
}
fn main() {
    let mut c = vec![];
    field!(c, DefaultFieldU32, u32, 132120577, 5);
    field!(c, DefaultQks, u32, 15361, 4);
    field!(c, V8, u8, 17, 3);
    field!(c, V16, u16, 15361, 4);
    field!(c, V32, u32, 1073479681, 4);
    field!(c, V64, u64, 4611686018427322369, 4);
    run_main("C13", c);
}
