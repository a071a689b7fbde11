//! the C26 workload under Miri
#[path = "../../../harness/src/cache_work.rs"]
pub mod cache_work;
use algebra::NTTField;
use fhe_core::{DefaultFieldU32, DefaultQks};
fn main() {
    if std::env::args().nth(1).is_some() { return; }
    // a schedule seed also picks the workload: the address of a fresh box differs from seed to seed
    let b = Box::new(0u8);
    let mut r = cache_work::R(&*b as *const u8 as u64);
    let e = cache_work!(DefaultFieldU32, &mut r, 3u64, 3, 25, 2).and_then(|_| cache_work!(DefaultQks, &mut r, 2u64, 2, 12, 2));
    if let Err(e) = e { eprintln!("MISMATCH {e}"); std::process::exit(1); }
}
