use harness::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vfields::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use algebra::NTTField;
fn work(seed: u64, threads: u64) -> Result<(), String> {
    let mut r = cache_work::R(seed);
    let r = &mut r;
    harness::cache_work!(DefaultFieldU32, r, threads, 9, 25, 6)?;
    harness::cache_work!(DefaultQks, r, threads, 8, 12, 6)?;
    harness::cache_work!(V8, r, threads, 3, 0, 6)?;
    harness::cache_work!(V16, r, threads, 8, 0, 6)?;
    harness::cache_work!(V32, r, threads, 9, 24, 6)?;
    harness::cache_work!(V64, r, threads, 9, 20, 6)
}
/// runs a command with a time limit; None: it did not end
fn limited(mut c: Command, secs: u64) -> Option<(bool, String)> {
    let mut p = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let (mut o, mut e) = (p.stdout.take()?, p.stderr.take()?);
    use std::io::Read;
    let h = std::thread::spawn(move || { let mut s = vec![]; let _ = o.read_to_end(&mut s); s });
    let h2 = std::thread::spawn(move || { let mut s = vec![]; let _ = e.read_to_end(&mut s); s });
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = p.try_wait() {
            let (a, b) = (h.join().ok()?, h2.join().ok()?);
            return Some((s.success(), format!("{}\n{}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b))));
        }
        if t.elapsed() > Duration::from_secs(secs) { let _ = p.kill(); let _ = p.wait(); return None; }
        std::thread::sleep(Duration::from_millis(5));
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "--child").unwrap_or(false) {
        std::panic::set_hook(Box::new(|_| {}));
        let r = std::panic::catch_unwind(|| work(a[2].parse().unwrap(), a[3].parse().unwrap())).unwrap_or_else(|_| Err("panicked".into()));
        if let Err(e) = r { println!("MISMATCH {e}"); std::process::exit(1); }
        return;
    }
    let native = case("first uses, native threads", |r| vec![r.n(1 << 60), r.r(1, 12)], |x| {
        pre!(x.len() == 2 && x[1] >= 1 && x[1] <= 64);
        let mut c = Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
        c.args(["--child", &x[0].to_string(), &x[1].to_string()]);
        match limited(c, 60) {
            None => Err("the threads did not finish (deadlock?)".into()),
            Some((true, _)) => Ok(true),
            Some((false, o)) => Err(o.lines().find(|l| l.starts_with("MISMATCH")).unwrap_or("crashed").to_string()),
        }
    });
    // one process of the search runs Miri (seeds x[0] .. x[0] + x[1])
    let dir = std::env::var("C26_MIRI").unwrap_or_default();
    let miri = case("first uses, Miri (races, weak memory, deadlock)", |r| vec![r.n(1 << 16), 12], move |x| {
        pre!(x.len() == 2 && x[1] >= 1 && x[1] <= 64 && x[0] < 1 << 30);
        pre!(!dir.is_empty());
        let mut c = Command::new("timeout");
        c.current_dir(&dir).args(["-k", "5", "200", "cargo", "+nightly", "miri", "run", "--offline", "-q"])
            .env("CARGO_TARGET_DIR", format!("{dir}/../../build/target-miri"))
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-preemption-rate=0.05 -Zmiri-many-seeds={}..{}", x[0], x[0] + x[1]));
        match limited(c, 240) {
            None => Ok(false),
            Some((true, _)) => Ok(true),
            Some((false, o)) => match o.lines().find(|l| ["MISMATCH", "Undefined Behavior", "deadlock", "error: memory leaked"].iter().any(|k| l.contains(k))) {
                Some(l) => Err(l.chars().take(300).collect()),
                None => Ok(false),
            },
        }
    });
    run_main("C26", vec![native, miri.max(1)]);
}
