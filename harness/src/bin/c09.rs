use algebra::modulus::*;
use algebra::reduce::*;
use harness::*;
const P: u128 = GOLDILOCKS_P as u128;
const M: GoldilocksModulus = GoldilocksModulus;
fn w(r: &mut Rng) -> u128 { match r.n(4) { 0 => P - 3 + r.n(6), 1 => r.r(P, 1 << 64), _ => r.word(64) } }
fn main() {
    let mut c: Vec<Case> = Vec::new();
    let v = |x: u64| x as u128 % P;
    c.push(case("reduce", |r| vec![w(r)], move |x| {
        let a = x[0] as u64;
        eq!(a.reduce(M) as u128, x[0] % P, "reduce");
        eq!(to_canonical_u64(a) as u128, x[0] % P, "to_canonical_u64");
        let mut t = a; t.reduce_assign(M); eq!(t as u128, x[0] % P, "reduce_assign");
        Ok(x[0] >= P)
    }));
    c.push(case("ring", |r| vec![w(r), w(r), r.n(4)], move |x| {
        let (a, mut b) = (x[0] as u64, x[1] as u64);
        if x[2] == 1 { b = (P as u64).wrapping_sub(a); }
        if x[2] == 2 { b = a.wrapping_add(x[1] as u64 % 5); }
        let (va, vb) = (v(a), v(b));
        eq!(v(a.add_reduce(b, M)), (va + vb) % P, "add");
        eq!(v(a.sub_reduce(b, M)), (va + P - vb) % P, "sub");
        eq!(v(a.mul_reduce(b, M)), big::mulmod(va, vb, P), "mul");
        eq!(v(a.neg_reduce(M)), (P - va) % P, "neg");
        eq!(v(a.add_reduce(a, M)), (va + va) % P, "double");
        let mut t = a; t.add_reduce_assign(b, M); eq!(v(t), (va + vb) % P, "add_assign");
        let mut t = a; t.sub_reduce_assign(b, M); eq!(v(t), (va + P - vb) % P, "sub_assign");
        let mut t = a; t.mul_reduce_assign(b, M); eq!(v(t), big::mulmod(va, vb, P), "mul_assign");
        let mut t = a; t.neg_reduce_assign(M); eq!(v(t), (P - va) % P, "neg_assign");
        Ok(a > 1 && b > 1)
    }).w(4));
    c.push(case("product", |r| {
        // structured products: the four 32-bit limbs of the product take extreme values
        let t = [0u128, 1, 2, 0xffff_ffff, 0xffff_fffe, 0xffff_fffd, 0x8000_0000, 0x7fff_ffff];
        let mut l = |r: &mut Rng| if r.bit() { t[r.n(8) as usize] } else { r.n(1 << 32) };
        vec![l(r) << 32 | l(r), l(r) << 32 | l(r)] }, move |x| {
        let (a, b) = (x[0] as u64, x[1] as u64);
        eq!(v(a.mul_reduce(b, M)), big::mulmod(v(a), v(b), P), "mul");
        eq!(v(a.sub_reduce(b, M)), (v(a) + P - v(b)) % P, "sub");
        eq!(v(a.add_reduce(b, M)), (v(a) + v(b)) % P, "add");
        Ok(a > 1 && b > 1)
    }).w(3));
    c.push(case("inverse", |r| vec![w(r), w(r)], move |x| {
        let (a, b) = (x[0] as u64, x[1] as u64);
        let t = a.try_inv_reduce(M);
        eq!(t.is_ok(), v(a) != 0, "try_inv_reduce success");
        if let Ok(i) = t {
            ck!(big::mulmod(v(i), v(a), P) == 1, "try_inv_reduce({a}) = {i}");
            eq!(v(a.inv_reduce(M)), v(i), "inv_reduce");
            let mut s = a; s.inv_reduce_assign(M); eq!(v(s), v(i), "inv_reduce_assign");
            let q = b.div_reduce(a, M);
            ck!(big::mulmod(v(q), v(a), P) == v(b), "div_reduce({b}, {a}) = {q}");
            let mut s = b; s.div_reduce_assign(a, M); eq!(v(s), v(q), "div_reduce_assign");
        } else { ck!(panics(|| a.inv_reduce(M)), "inverse of zero accepted"); }
        Ok(v(a) > 1)
    }));
    c.push(case("exp", |r| { let b = [8u32, 16, 32, 64, 128][r.n(5) as usize]; vec![w(r), r.word(b), r.n(140)] }, move |x| {
        let a = x[0] as u64;
        macro_rules! e { ($($E:ident)*) => {$({ let k = x[1] as $E; eq!(v(a.exp_reduce(k, M)), big::powmod(v(a), k as u128, P), "exp {}", stringify!($E)); })*} }
        e!(u8 u16 u32 u64 u128);
        let mut p = v(a);
        for _ in 0..x[2] { p = big::mulmod(p, p, P); }
        eq!(v(a.exp_power_of_2_reduce(x[2] as u32, M)), p, "exp_power_of_2");
        Ok(x[1] > 1 && a > 1)
    }));
    c.push(case("dot", |r| { let n = r.n(40); (0..2 * n).map(|_| w(r)).collect() }, move |x| {
        let n = x.len() / 2;
        let a: Vec<u64> = x[..n].iter().map(|&t| t as u64).collect();
        let b: Vec<u64> = x[n..2 * n].iter().map(|&t| t as u64).collect();
        eq!(v(u64::dot_product_reduce(&a, &b, M)), (0..n).fold(0, |s, i| (s + big::mulmod(v(a[i]), v(b[i]), P)) % P), "dot product of length {n}");
        Ok(n > 1)
    }));
    run_main("C09", c);
}
