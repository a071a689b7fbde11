//! exact references
pub fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
/// a*b mod m for m < 2^127
pub fn mulmod(a: u128, b: u128, m: u128) -> u128 {
    let (mut a, mut b) = (a % m, b % m);
    if a < 1 << 64 && b < 1 << 64 {
        return a * b % m;
    }
    let mut r = 0u128;
    while b != 0 {
        if b & 1 == 1 {
            r = (r + a) % m;
        }
        a = (a + a) % m;
        b >>= 1;
    }
    r
}
pub fn powmod(a: u128, mut e: u128, m: u128) -> u128 {
    let mut r = 1 % m;
    let mut a = a % m;
    while e != 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, m);
        }
        a = mulmod(a, a, m);
        e >>= 1;
    }
    r
}
pub fn addmod(a: u128, b: u128, m: u128) -> u128 {
    (a % m + b % m) % m
}
pub fn submod(a: u128, b: u128, m: u128) -> u128 {
    (a % m + m - b % m) % m
}
pub fn is_prime(n: u128) -> bool {
    // deterministic for n < 2^64
    if n < 2 {
        return false;
    }
    for p in [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'w: for a in [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}
/// product modulo X^n + 1
pub fn negmul(a: &[u128], b: &[u128], p: u128) -> Vec<u128> {
    let n = a.len();
    let mut r = vec![0u128; n];
    for i in 0..n {
        for j in 0..n {
            let t = mulmod(a[i], b[j], p);
            let k = (i + j) % n;
            r[k] = if i + j < n { addmod(r[k], t, p) } else { submod(r[k], t, p) };
        }
    }
    r
}
/// X^r a modulo X^n + 1
pub fn rot(a: &[u128], r: usize, p: u128) -> Vec<u128> {
    let n = a.len();
    let mut o = vec![0u128; n];
    for i in 0..n {
        let k = (i + r) % (2 * n);
        o[k % n] = if k < n { a[i] } else { submod(0, a[i], p) };
    }
    o
}
