use algebra::modulus::*;
use algebra::reduce::*;
use harness::*;
const P: u128 = BABY_BEAR_P as u128;
const M: BabyBearModulus = BabyBearModulus;
fn v(x: u32) -> u128 { from_monty(x) as u128 }
fn main() {
    let mut c: Vec<Case> = Vec::new();
    c.push(case("conversion", |r| vec![r.word(32)], |x| {
        let a = x[0] as u32;
        let m = to_monty(a);
        ck!((m as u128) < P, "to_monty not canonical: {m}");
        eq!(m as u128, (x[0] << 32) % P, "to_monty");
        eq!(v(m), x[0] % P, "from_monty(to_monty)");
        let f = from_monty(a);
        ck!((f as u128) < P, "from_monty not canonical: {f}");
        eq!(((f as u128) << 32) % P, x[0] % P, "from_monty");
        Ok(x[0] > 1)
    }));
    c.push(case("constants", |_| vec![], |_| {
        eq!(MONTY_ZERO, 0, "zero"); eq!(v(MONTY_ONE), 1, "one"); eq!(v(MONTY_TWO), 2, "two"); eq!(v(MONTY_NEG_ONE), P - 1, "neg one");
        Ok(true)
    }).max(1));
    c.push(case("ring", |r| vec![r.below(P), if r.n(4) == 0 { r.n(3) } else { r.below(P) }, r.n(3)], |x| {
        let (a, mut b) = (x[0] as u32, x[1] as u32);
        pre!(x[0] < P && x[1] < P);
        if x[2] == 1 { b = ((P - x[0]) % P) as u32; }
        let (va, vb) = (v(a), v(b));
        macro_rules! chk { ($e:expr, $w:expr, $t:expr) => {{ let r = $e; ck!((r as u128) < P, "{} not canonical: {}", $t, r); eq!(v(r), $w, "{}", $t); }} }
        chk!(a.add_reduce(b, M), (va + vb) % P, "add");
        chk!(a.sub_reduce(b, M), (va + P - vb) % P, "sub");
        chk!(a.mul_reduce(b, M), va * vb % P, "mul");
        chk!(a.neg_reduce(M), (P - va) % P, "neg");
        let mut t = a; t.add_reduce_assign(b, M); chk!(t, (va + vb) % P, "add_assign");
        let mut t = a; t.sub_reduce_assign(b, M); chk!(t, (va + P - vb) % P, "sub_assign");
        let mut t = a; t.mul_reduce_assign(b, M); chk!(t, va * vb % P, "mul_assign");
        let mut t = a; t.neg_reduce_assign(M); chk!(t, (P - va) % P, "neg_assign");
        Ok(a > 1 && b > 1)
    }));
    c.push(case("inverse", |r| vec![r.below(P), r.below(P)], |x| {
        pre!(x[0] < P && x[1] < P);
        let (a, b) = (x[0] as u32, x[1] as u32);
        let t = a.try_inv_reduce(M);
        eq!(t.is_ok(), a != 0, "try_inv_reduce success");
        if let Ok(i) = t {
            ck!((i as u128) < P && v(i) * v(a) % P == 1, "try_inv_reduce({a}) = {i}");
            eq!(a.inv_reduce(M), i, "inv_reduce");
            let mut s = a; s.inv_reduce_assign(M); eq!(s, i, "inv_reduce_assign");
            let q = b.div_reduce(a, M);
            ck!((q as u128) < P && v(q) * v(a) % P == v(b), "div_reduce({b}, {a}) = {q}");
            let mut s = b; s.div_reduce_assign(a, M); eq!(s, q, "div_reduce_assign");
        } else { ck!(panics(|| a.inv_reduce(M)), "inverse of zero accepted"); }
        Ok(a > 1)
    }));
    c.push(case("exp", |r| { let b = [8u32, 16, 32, 64, 128][r.n(5) as usize]; vec![r.below(P), r.word(b), r.n(70)] }, |x| {
        pre!(x[0] < P);
        let a = x[0] as u32;
        macro_rules! e { ($($E:ident)*) => {$({ let k = x[1] as $E; let r = a.exp_reduce(k, M); ck!((r as u128) < P, "exp not canonical");
            // exponent zero: see the known finding of case exp_zero
            if k == 0 { ck!(r == 1 || r == MONTY_ONE, "exp by 0 = {r}"); } else { eq!(v(r), big::powmod(v(a), k as u128, P), "exp {}", stringify!($E)); } })*} }
        e!(u8 u16 u32 u64 u128);
        let mut p = v(a);
        for _ in 0..x[2] { p = p * p % P; }
        let r = a.exp_power_of_2_reduce(x[2] as u32, M);
        ck!((r as u128) < P, "exp_power_of_2 not canonical");
        eq!(v(r), p, "exp_power_of_2");
        Ok(x[1] > 1 && a > 1)
    }));
    c.push(case("exp_zero", |r| vec![r.below(P)], |x| {
        eq!((x[0] as u32).exp_reduce(0u32, M), MONTY_ONE, "exponent zero");
        Ok(true)
    }).max(0));
    c.push(case("dot", |r| { let n = r.n(40); (0..2 * n).map(|_| r.below(P)).collect() }, |x| {
        pre!(x.iter().all(|&t| t < P));
        let n = x.len() / 2;
        let a: Vec<u32> = x[..n].iter().map(|&t| t as u32).collect();
        let b: Vec<u32> = x[n..2 * n].iter().map(|&t| t as u32).collect();
        let r = u32::dot_product_reduce(&a, &b, M);
        ck!((r as u128) < P, "dot product not canonical");
        eq!(v(r), (0..n).fold(0, |s, i| (s + v(a[i]) * v(b[i])) % P), "dot product of length {n}");
        Ok(n > 1)
    }));
    run_main("C08", c);
}
