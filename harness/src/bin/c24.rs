use algebra::modulus::BarrettModulus;
use algebra::utils::Prime;
use harness::big::*;
use harness::*;
/// strong probable prime to base a
fn strong(n: u128, a: u128) -> bool {
    let (mut q, mut r) = (n - 1, 0);
    while q % 2 == 0 { q /= 2; r += 1; }
    let mut x = powmod(a % n, q, n);
    if x == 1 || x == n - 1 || x == 0 { return true; }
    for _ in 1..r { x = mulmod(x, x, n); if x == n - 1 { return true; } }
    false
}
const SMALL: [u128; 16] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53];
/// exact primality by trial division, for n below 2^40
fn prime(n: u128) -> bool { if n < 1 << 40 { if n < 2 { return false; } let mut d = 2; while d * d <= n { if n % d == 0 { return false; } d += 1; } true } else { is_prime(n) } }
/// composites that pass the trial division and are strong pseudoprimes to base 2
fn liars(lim: u128) -> Vec<u128> {
    let mut v = vec![];
    let mut n = 65;
    while n < lim { if SMALL.iter().all(|p| n % p != 0) && strong(n, 2) && !prime(n) { v.push(n); } n += 2; }
    v
}
macro_rules! word {
    ($c:ident, $T:ident, $bits:expr, $liars:expr) => {{
        let nm = stringify!($T);
        let l: Vec<u128> = $liars.iter().copied().filter(|t| *t < 1 << $bits).collect();
        // n, rounds
        let sel = l.clone();
        $c.push(case(format!("value {nm}"), move |r| {
            let top: u128 = 1 << $bits;
            let n = match r.n(8) {
                0 if !sel.is_empty() => sel[r.n(sel.len() as u128) as usize],
                1 => r.r(2, 200),
                2 => { let h = 1u128 << ($bits / 2); (r.r(2, h) | 1) * (r.r(2, h) | 1) }
                3 => top - 1 - r.n(50),
                4 => (r.r(2, 1 << 12).min(top - 1) << r.n($bits - 2)) + 1,
                5 => { let k = r.r(1, 1 << ($bits / 2 - 1)); (k + 1) * (2 * k + 1) }
                _ => { let b = r.r(3, $bits + 1); r.r(2, 1 << b) }
            };
            vec![n.min(top - 1), if r.n(3) > 0 { r.r(20, 40) } else { r.n(4) }]
        }, |x| {
            let [n, k] = x[..] else { return Ok(false) };
            pre!(n >= 2 && n < 1 << $bits && k < 100);
            let got = BarrettModulus::<$T>::new(n as $T).probably_prime(k as usize);
            let p = prime(n);
            if p { ck!(got, "prime {n} rejected after {k} rounds"); return Ok(true); }
            if n < 64 || SMALL.iter().any(|s| n % s == 0) { ck!(!got, "composite {n} with a small factor accepted"); return Ok(true); }
            if k >= 1 && !strong(n, 2) { ck!(!got, "composite {n}, found by base 2, accepted"); }
            if k == 1 { ck!(got == strong(n, 2), "one round on {n}: only base 2 is drawn"); }
            // twenty random bases: a composite survives with probability at most 4^-19
            if k >= 20 { ck!(!got, "composite {n} accepted after {k} rounds"); }
            Ok(true)
        }));
    }};
}
fn main() {
    let mut c = vec![];
    let mut l = liars(3_000_000);
    l.extend([3215031751u128, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 49141, 252601, 4759123141, 1122004669633, 21652684502221, 1195068768795265792518361]);
    word!(c, u8, 6, l);
    word!(c, u16, 14, l);
    word!(c, u32, 30, l);
    word!(c, u64, 62, l);
    run_main("C24", c);
}
