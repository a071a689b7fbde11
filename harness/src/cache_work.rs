//! C26 workload: threads that use the transform tables of a field for the first time at once.
//! Run natively by the harness (every run in a fresh process) and under Miri (tools/miri26), whose
//! scheduler, weak memory and data-race detection make the interleavings and races visible.

pub struct R(pub u64);
impl R {
    pub fn n(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z ^ (z >> 31)) % n
    }
}
pub enum Op { Get(u32), Init(Vec<u32>), Bad(u32) }
/// $max: sizes 0..=$max exist; $bad: a size with no table
#[macro_export]
macro_rules! cache_work { ($F:ty, $r:expr, $threads:expr, $max:expr, $bad:expr, $ops:expr) => {{
    use std::sync::{Arc, Barrier};
    use $crate::cache_work::*;
    let r: &mut R = $r;
    let hot = r.n($max as u64 + 1) as u32;
    let plans: Vec<Vec<Op>> = (0..$threads).map(|_| (0..1 + r.n($ops)).map(|_| {
        let mut k = |r: &mut R| if r.n(3) == 0 { hot } else { r.n($max as u64 + 1) as u32 };
        match r.n(8) { 0 => Op::Bad($bad), 1 | 2 => Op::Init((0..r.n(4)).map(|_| k(r)).collect()), _ => Op::Get(k(r)) }
    }).collect()).collect();
    let bar = Arc::new(Barrier::new($threads as usize));
    let hs: Vec<_> = plans.into_iter().map(|p| { let bar = bar.clone(); std::thread::spawn(move || -> Result<Vec<(u32, Arc<<$F as NTTField>::Table>)>, String> {
        let mut got = vec![];
        bar.wait();
        for o in p {
            match o {
                Op::Get(k) => got.push((k, <$F as NTTField>::get_ntt_table(k).map_err(|e| format!("size {k}: {e:?}"))?)),
                Op::Init(ks) => {
                    <$F as NTTField>::init_ntt_table(&ks).map_err(|e| format!("sizes {ks:?}: {e:?}"))?;
                    for k in ks { got.push((k, <$F as NTTField>::get_ntt_table(k).map_err(|e| format!("size {k} after its initialisation: {e:?}"))?)); }
                }
                Op::Bad(k) => { if k > 0 && <$F as NTTField>::get_ntt_table(k).is_ok() { return Err(format!("a table of the impossible size {k}")); } }
            }
        }
        Ok(got)
    }) }).collect();
    let mut all = vec![];
    let mut res: Result<(), String> = Ok(());
    for h in hs {
        match h.join() { Ok(Ok(g)) => all.extend(g), Ok(Err(e)) => res = Err(e), Err(_) => res = Err("a thread panicked".into()) }
    }
    for (k, t) in &all {
        if res.is_err() { break; }
        let first = &all.iter().find(|x| x.0 == *k).unwrap().1;
        if !Arc::ptr_eq(first, t) { res = Err(format!("two tables of size {k}")); }
        if !Arc::ptr_eq(first, &<$F as NTTField>::get_ntt_table(*k).unwrap()) { res = Err(format!("a later table of size {k}")); }
    }
    for k in 0..=$max as u32 {
        if res.is_err() { break; }
        if let Some((_, t)) = all.iter().find(|x| x.0 == k) {
            let s = <$F as NTTField>::generate_ntt_table(k).map_err(|e| format!("{e:?}")).unwrap();
            let v = |x: &[<$F as NTTField>::Root]| x.iter().skip(1).map(|f| f.value()).collect::<Vec<_>>();
            let (a, b) = (&**t, &s);
            if !(a.root() == b.root() && a.inv_root() == b.inv_root() && a.coeff_count() == b.coeff_count() && a.coeff_count_power() == b.coeff_count_power() && a.inv_degree().value() == b.inv_degree().value()
                && v(a.root_powers()) == v(b.root_powers()) && v(a.inv_root_powers()) == v(b.inv_root_powers()) && v(a.ordinal_root_powers()) == v(b.ordinal_root_powers())) { res = Err(format!("the table of size {k} is not the one a sequential initialisation gives")); }
        }
    }
    res.map_err(|e| format!("{}: {e}", stringify!($F)))
}} }
