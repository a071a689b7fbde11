use fhe_core::{decode, encode};
use harness::*;
/// log t, log q, message, magnitude of the error, its sign
fn gen(r: &mut Rng, cb: u128) -> Vec<u128> {
    let q = r.r(2, cb.min(63) + 1);
    let t = r.r(1, q);
    let half = 1u128 << (q - t - 1);
    vec![t, q, if r.n(6) == 0 { (1 << t) + r.n(3) } else { r.below(1 << t) }, if r.bit() { half - r.n(half.min(3)) } else { r.below(half + 1) }, r.n(2)]
}
macro_rules! pair {
    ($c:ident, $M:ident, $C:ident, $max:expr, $w:expr, $mk:expr, $un:expr) => {{
        $c.push(case(concat!(stringify!($M), " in ", stringify!($C)), |r| gen(r, $w), |x| {
            let [lt, lq, m, e, neg] = x[..] else { return Ok(false) };
            pre!(lt >= 1 && lt < lq && lq <= 63 && lq <= $w && m <= 2 << lt && neg <= 1);
            let (t, q) = (1u64 << lt, 1u64 << lq);
            let d = 1u128 << (lq - lt);
            if m > $max { return Ok(false); }
            let msg: $M = $mk(m);
            if m >= t as u128 { ck!(panics(|| encode::<$M, $C>(msg, t, q)), "message {m} accepted with t = {t}"); return Ok(true); }
            let c: $C = encode::<$M, $C>(msg, t, q);
            eq!(c as u128, m * d, "encode {m}, t = {t}, q = {q}");
            pre!(if neg == 1 { 2 * e <= d } else { 2 * e < d });
            let v = (m * d + if neg == 1 { q as u128 - e } else { e }) % q as u128;
            let back: $M = decode::<$M, $C>(v as $C, t, q);
            eq!($un(back), m, "decode of the encoding of {m} with error {}{e}, t = {t}, q = {q}", if neg == 1 { "-" } else { "" });
            Ok(true)
        }));
        // a wide message decoded into this type: refused exactly when it does not fit
        $c.push(case(concat!(stringify!($C), " into ", stringify!($M)), |r| gen(r, $w), |x| {
            let [lt, lq, m, ..] = x[..] else { return Ok(false) };
            pre!(lt >= 1 && lt < lq && lq <= 63 && lq <= $w && m < 1 << lt);
            let (t, q) = (1u64 << lt, 1u64 << lq);
            let v = (m << (lq - lt)) as $C;
            if m > $max { ck!(panics(|| decode::<$M, $C>(v, t, q)), "message {m} decoded into a type that cannot hold it"); return Ok(true); }
            eq!($un(decode::<$M, $C>(v, t, q)), m, "decode, t = {t}, q = {q}");
            Ok(true)
        }));
    }};
}
macro_rules! all {
    ($c:ident, $C:ident, $w:expr) => {
        pair!($c, bool, $C, 1u128, $w, |m| m == 1, |b| b as u128);
        pair!($c, u8, $C, u8::MAX as u128, $w, |m| m as u8, |b| b as u128);
        pair!($c, u16, $C, u16::MAX as u128, $w, |m| m as u16, |b| b as u128);
        pair!($c, u32, $C, u32::MAX as u128, $w, |m| m as u32, |b| b as u128);
        pair!($c, u64, $C, u64::MAX as u128, $w, |m| m as u64, |b| b as u128);
    };
}
fn main() {
    let mut c = vec![];
    all!(c, u8, 7);
    all!(c, u16, 15);
    all!(c, u32, 31);
    all!(c, u64, 63);
    // moduli 2^8, 2^16, 2^32: the modulus itself does not fit the ciphertext word
    all!(c, u8, 8);
    all!(c, u16, 16);
    all!(c, u32, 32);
    let mut seen = std::collections::HashMap::new();
    for k in c.iter_mut() { let n = seen.entry(k.name.clone()).or_insert(0); *n += 1; if *n > 1 { k.name += " (full word)"; } }
    run_main("C17", c);
}
