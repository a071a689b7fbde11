use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::*;
use num_traits::{ConstOne, ConstZero, Inv, One, Pow, Zero};
use vfields::*;
macro_rules! field {
    ($c:ident, $F:ident, $T:ident, $P:expr) => {{
        const P: u128 = $P;
        type F = $F;
        let bits = <$T>::BITS;
        let n = stringify!($F);
        $c.push(case(format!("{n} constants"), |_| vec![], |_| {
            eq!(F::MODULUS_VALUE as u128, P, "MODULUS_VALUE");
            eq!(F::MODULUS.value() as u128, P, "MODULUS");
            eq!(F::zero().value(), 0, "zero"); eq!(F::ZERO.value(), 0, "ZERO"); eq!(F::default().value(), 0, "default");
            eq!(F::one().value(), 1, "one"); eq!(F::ONE.value(), 1, "ONE");
            eq!(F::max().value() as u128, P - 1, "max"); eq!(F::neg_one().value() as u128, P - 1, "neg_one");
            eq!(<F as NegOne>::neg_one().value() as u128, P - 1, "NegOne"); eq!(F::NEG_ONE.value() as u128, P - 1, "NEG_ONE");
            let mut t = F::new(3); t.set_zero(); eq!(t.value(), 0, "set_zero"); t.set_one(); eq!(t.value(), 1, "set_one"); t.set_neg_one(); eq!(t.value() as u128, P - 1, "set_neg_one");
            Ok(true)
        }).max(1));
        $c.push(case(format!("{n} conversions"), move |r| vec![r.word(bits), r.word(64)], |x| {
            let v = x[0] as $T;
            eq!(F::new(v).value() as u128, v as u128 % P, "new({v})");
            eq!(F::from(x[1] as usize).value() as u128, x[1] % P, "from({})", x[1]);
            eq!(F::lazy_new(v).value(), v, "lazy_new");
            let f = F::new(v);
            eq!(f.is_zero(), f.value() == 0, "is_zero"); eq!(f.is_one(), f.value() == 1, "is_one"); eq!(f.is_neg_one(), f.value() as u128 == P - 1, "is_neg_one");
            let g = F::new(x[1] as $T);
            eq!(f == g, f.value() == g.value(), "=="); eq!(f.cmp(&g), f.value().cmp(&g.value()), "cmp"); eq!(f.partial_cmp(&g), f.value().partial_cmp(&g.value()), "partial_cmp");
            eq!(f.clone(), f, "clone");
            Ok(v > 1)
        }));
        $c.push(case(format!("{n} operators"), |r| vec![r.below(P), r.below(P), r.below(P), r.n(4)], |x| {
            let (a, mut b, d) = (x[0], x[1], x[2]);
            pre!(a < P && b < P && d < P);
            if x[3] == 1 { b = (P - a) % P } if x[3] == 2 { b = a }
            let (fa, fb, fd) = (F::new(a as $T), F::new(b as $T), F::new(d as $T));
            macro_rules! k { ($e:expr, $w:expr, $t:expr) => {{ let r: F = $e; ck!((r.value() as u128) < P, "{} not canonical: {:?}", $t, r); eq!(r.value() as u128, $w, "{} of {} {} {}", $t, a, b, d); }} }
            macro_rules! asg { ($i:expr, $o:tt, $y:expr, $w:expr, $t:expr) => {{ let mut t = $i; t $o $y; k!(t, $w, $t); }} }
            let (s, m, p) = ((a + b) % P, (a + P - b) % P, big::mulmod(a, b, P));
            k!(fa + fb, s, "add"); k!(fa + &fb, s, "add ref"); asg!(fa, +=, fb, s, "add_assign"); asg!(fa, +=, &fb, s, "add_assign ref");
            k!(fa - fb, m, "sub"); k!(fa - &fb, m, "sub ref"); asg!(fa, -=, fb, m, "sub_assign"); asg!(fa, -=, &fb, m, "sub_assign ref");
            k!(fa * fb, p, "mul"); k!(fa * &fb, p, "mul ref"); asg!(fa, *=, fb, p, "mul_assign"); asg!(fa, *=, &fb, p, "mul_assign ref");
            k!(-fa, (P - a) % P, "neg");
            k!(fa.add_mul(fb, fd), (a + big::mulmod(b, d, P)) % P, "add_mul");
            let mut t = fa; t.add_mul_assign(fb, fd); k!(t, (a + big::mulmod(b, d, P)) % P, "add_mul_assign");
            if b != 0 {
                let q = big::mulmod(a, big::powmod(b, P - 2, P), P);
                k!(fa / fb, q, "div"); k!(fa / &fb, q, "div ref"); asg!(fa, /=, fb, q, "div_assign"); asg!(fa, /=, &fb, q, "div_assign ref");
                k!(fb.inv(), big::powmod(b, P - 2, P), "inv");
            }
            k!(fa.to_root().value().pipe(F::new), a, "to_root"); k!(F::from_root(fa.to_root()), a, "from_root");
            k!(fa.mul_root(fb.to_root()), p, "mul_root");
            let mut t = fa; t.mul_root_assign(fb.to_root()); k!(t, p, "mul_root_assign");
            Ok(a > 1 && b > 1)
        }).w(3));
        $c.push(case(format!("{n} pow"), move |r| vec![r.below(P), r.word(bits)], |x| {
            pre!(x[0] < P);
            let r = F::new(x[0] as $T).pow(x[1] as $T);
            eq!(r.value() as u128, big::powmod(x[0], x[1], P), "pow({}, {})", x[0], x[1]);
            Ok(x[1] > 1)
        }));
        $c.push(case(format!("{n} lazy"), move |r| vec![r.word(bits), r.word(bits), r.word(bits)], |x| {
            let (a, b, d) = (x[0], x[1], x[2]);
            let (fa, fb, fd) = (F::lazy_new(a as $T), F::lazy_new(b as $T), F::lazy_new(d as $T));
            macro_rules! k { ($e:expr, $w:expr, $t:expr) => {{ let r: F = $e; ck!((r.value() as u128) < 2 * P, "{} not below 2p: {:?}", $t, r); eq!(r.value() as u128 % P, $w, "{} of {} {} {}", $t, a, b, d); }} }
            let p = big::mulmod(a, b, P);
            k!(fa.mul_fast(fb), p, "mul_fast"); let mut t = fa; t.mul_assign_fast(fb); k!(t, p, "mul_assign_fast");
            let p = (a % P + big::mulmod(b, d, P)) % P;
            k!(fa.add_mul_fast(fb, fd), p, "add_mul_fast"); let mut t = fa; t.add_mul_assign_fast(fb, fd); k!(t, p, "add_mul_assign_fast");
            let r = fa.add_mul(fb, fd);
            eq!(r.value() as u128, p, "add_mul of unreduced operands");
            Ok(a >= P)
        }));
    }};
}
trait Pipe: Sized { fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R { f(self) } }
impl<T> Pipe for T {}
fn main() {
    let mut c: Vec<Case> = Vec::new();
    field!(c, DefaultFieldU32, u32, 132120577);
    field!(c, DefaultQks, u32, 15361);
    field!(c, V8, u8, 17);
    field!(c, V16, u16, 15361);
    field!(c, V32, u32, 1073479681);
    field!(c, V64, u64, 4611686018427322369);
    run_main("C10", c);
}
