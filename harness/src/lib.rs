//! Bounded cross-check of the real code: every case is a function of a vector of integers, so a
//! failing input can be replayed and shrunk.  Never counted as proved.
pub mod big;
pub mod cache_work;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567, seed.wrapping_add(0xD1B54A32D192ED03))
    }
    pub fn u64(&mut self) -> u64 {
        // splitmix64 over a weyl sequence
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0 ^ self.1.rotate_left(17);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// uniform in 0..n (n > 0)
    pub fn n(&mut self, n: u128) -> u128 {
        if n == 0 { 0 } else { self.u128() % n }
    }
    pub fn r(&mut self, lo: u128, hi: u128) -> u128 {
        lo + self.n(hi - lo)
    }
    pub fn bit(&mut self) -> bool {
        self.u64() >> 33 & 1 == 1
    }
    /// a word of `bits` bits, boundary values included
    pub fn word(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.u64() % 8 {
            0 => self.n(4),
            1 => mask - self.n(4),
            2 => {
                let k = self.n(bits as u128) as u32;
                (1u128 << k).wrapping_add(self.n(5)).wrapping_sub(2) & mask
            }
            3 => {
                let k = 1 + self.n(bits as u128) as u32;
                self.u128() & (if k == 128 { u128::MAX } else { (1u128 << k) - 1 }) & mask
            }
            _ => self.u128() & mask,
        }
    }
    /// below n, boundary values included (n > 0)
    pub fn below(&mut self, n: u128) -> u128 {
        match self.u64() % 8 {
            0 => self.n(4).min(n - 1),
            1 => n - 1 - self.n(4).min(n - 1),
            2 => ((n / 2) + self.n(5)).saturating_sub(2).min(n - 1),
            3 => {
                let k = 1 + self.n((128 - n.leading_zeros()) as u128) as u32;
                (self.u128() & ((1u128 << k.min(127)) - 1)) % n
            }
            _ => self.n(n),
        }
    }
    /// in lo..hi
    pub fn between(&mut self, lo: u128, hi: u128) -> u128 {
        match self.u64() % 6 {
            0 => lo + self.n(5).min(hi - 1 - lo),
            1 => hi - 1 - self.n(5).min(hi - 1 - lo),
            2 => {
                // near a power of two
                let b = 128 - hi.leading_zeros();
                let k = self.n(b as u128) as u32;
                let v = (1u128 << k).wrapping_add(self.n(7)).wrapping_sub(3);
                if v >= lo && v < hi { v } else { self.r(lo, hi) }
            }
            3 => {
                let b = 128 - hi.leading_zeros();
                let k = 1 + self.n(b as u128) as u32;
                let v = self.u128() & ((1u128 << k.min(127)) - 1);
                if v >= lo && v < hi { v } else { self.r(lo, hi) }
            }
            _ => self.r(lo, hi),
        }
    }
}

pub type Ans = Result<bool, String>;
pub struct Case {
    pub name: String,
    pub gen: Box<dyn Fn(&mut Rng) -> Vec<u128>>,
    pub run: Box<dyn Fn(&[u128]) -> Ans>,
    pub weight: u32,
    pub max: u64,
}
pub fn case(name: impl Into<String>, gen: impl Fn(&mut Rng) -> Vec<u128> + 'static, run: impl Fn(&[u128]) -> Ans + 'static) -> Case {
    Case { name: name.into(), gen: Box::new(gen), run: Box::new(run), weight: 1, max: u64::MAX }
}
impl Case {
    pub fn w(mut self, w: u32) -> Self {
        self.weight = w;
        self
    }
    pub fn max(mut self, m: u64) -> Self {
        self.max = m;
        self
    }
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => {{ if !$c { return Err(format!($($t)*)); } }};
}
/// the case's domain: outside it the case says nothing
#[macro_export]
macro_rules! pre {
    ($c:expr) => {{ if !($c) { return Ok(false); } }};
}
fn kind(m: &str) -> String {
    m.chars().filter(|c| !c.is_ascii_digit()).take(30).collect()
}
fn guarded(c: &Case, x: &[u128]) -> Ans {
    match catch_unwind(AssertUnwindSafe(|| (c.run)(x))) {
        Ok(a) => a,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}
/// true if `f` panics
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let _ = f();
    }))
    .is_err()
}
fn shrink(c: &Case, x: &[u128]) -> Vec<u128> {
    let mut x = x.to_vec();
    let t = Instant::now();
    let k0 = guarded(c, &x).err().map(|m| kind(&m));
    for _ in 0..4 {
        let mut changed = false;
        for i in 0..x.len().min(400) {
            if t.elapsed() > Duration::from_secs(5) {
                return x;
            }
            let mut cand = vec![0, 1, x[i] / 2, x[i].saturating_sub(1)];
            cand.retain(|v| *v < x[i]);
            for v in cand {
                let mut y = x.clone();
                y[i] = v;
                if guarded(c, &y).err().map(|m| kind(&m)) == k0 {
                    x = y;
                    changed = true;
                    break;
                }
            }
        }
        if !changed {
            break;
        }
    }
    x
}
pub fn run_main(prop: &str, cases: Vec<Case>) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    if let Some(f) = get("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let name = v["case"].as_str().unwrap();
        let x: Vec<u128> = v["inputs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().parse().unwrap()).collect();
        let c = cases.iter().find(|c| c.name == name).expect("case");
        match guarded(c, &x) {
            Ok(_) => println!("holds: {prop} {name} {x:?}"),
            Err(e) => {
                println!("VIOLATES {prop} {name} {x:?}: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let only = get("--only");
    let tot: u32 = cases.iter().map(|c| c.weight).sum();
    let mut out = Vec::new();
    let mut bad = false;
    for c in &cases {
        if let Some(o) = &only {
            if !c.name.contains(o.as_str()) {
                continue;
            }
        }
        let mut h = DefaultHasher::new();
        c.name.hash(&mut h);
        let mut rng = Rng::new(seed ^ h.finish());
        let t = Instant::now();
        let dur = Duration::from_secs_f64(secs * c.weight as f64 / tot as f64);
        let (mut n, mut nt) = (0u64, 0u64);
        let mut bitmap = vec![0u64; 1 << 14];
        let mut distinct = 0u64;
        let mut samples = Vec::new();
        let mut fail = serde_json::Value::Null;
        while n < c.max && (n < 3 || t.elapsed() < dur) {
            let x = (c.gen)(&mut rng);
            n += 1;
            match guarded(c, &x) {
                Ok(f) => {
                    if f {
                        nt += 1;
                        let mut h = DefaultHasher::new();
                        x.hash(&mut h);
                        let b = (h.finish() as usize) & ((1 << 20) - 1);
                        if bitmap[b / 64] >> (b % 64) & 1 == 0 {
                            bitmap[b / 64] |= 1 << (b % 64);
                            distinct += 1;
                        }
                        if samples.len() < 1 {
                            samples.push(x.iter().take(12).map(|v| v.to_string()).collect::<Vec<_>>());
                        }
                    }
                }
                Err(e) => {
                    let y = shrink(c, &x);
                    let e2 = guarded(c, &y).err().unwrap_or(e);
                    fail = serde_json::json!({"property": prop, "case": c.name, "inputs": y.iter().map(|v| v.to_string()).collect::<Vec<_>>(), "message": e2});
                    bad = true;
                    break;
                }
            }
        }
        out.push(serde_json::json!({"case": c.name, "evaluations": n, "nontrivial": nt, "distinct_nontrivial": distinct, "samples": samples, "fail": fail}));
    }
    println!("{}", serde_json::json!({"property": prop, "seed": seed, "cases": out}));
    std::process::exit(if bad { 1 } else { 0 });
}
