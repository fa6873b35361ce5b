//! Runtime monitors for penumbra-zone/jmt. `jmtmon <PROPERTY> [quick|thorough]`, or `--replay FILE`.
#[macro_use]
mod core;
mod forge;
mod gen;
mod props;
mod report;
mod rng;
mod spec;
mod store;
mod walk;
mod watch;
mod world;

use crate::core::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A cheap hash function of the user's own (the crate is generic over it).
pub struct Mix256([u64; 4], u64, Vec<u8>);
impl jmt::SimpleHasher for Mix256 {
    fn new() -> Self {
        Mix256([1, 2, 3, 4], 0, vec![])
    }
    fn update(&mut self, data: &[u8]) {
        self.2.extend_from_slice(data);
        self.1 += data.len() as u64;
    }
    fn finalize(mut self) -> [u8; 32] {
        for c in self.2.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            let x = u64::from_le_bytes(b);
            for i in 0..4 {
                self.0[i] = (self.0[i] ^ x.rotate_left(17 * i as u32)).wrapping_mul(0x9E37_79B9_7F4A_7C15 + 2 * i as u64);
                self.0[i] ^= self.0[i] >> 29;
                self.0[(i + 1) % 4] = self.0[(i + 1) % 4].wrapping_add(self.0[i]);
            }
        }
        let mut out = [0u8; 32];
        let mut t = self.1;
        for r in 0..3 {
            for i in 0..4 {
                t = t.wrapping_add(self.0[i]).wrapping_add(r);
                self.0[i] = rng::splitmix(&mut t) ^ self.0[(i + 3) % 4];
            }
        }
        for i in 0..4 {
            out[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_be_bytes());
        }
        out
    }
}

type Run = fn(&mut Cx) -> R<()>;

pub struct Prop {
    pub id: &'static str,
    pub runs: [(&'static str, Run); 4],
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to mean anything
    pub need: &'static [&'static str],
}

fn case(p: &Prop, seed: u64, thorough: bool, idx: u64) -> (Cx, R<()>) {
    let (hasher, run) = p.runs[(idx % 4) as usize];
    let mut cx = Cx {
        prop: p.id,
        rng: rng::Rng::new(rng::mix(&[seed, rng::hash_str(p.id), idx])),
        thorough,
        idx,
        hasher,
        stats: Stats::default(),
        sig: rng::hash_str(hasher),
        nontrivial: false,
        sample: String::new(),
        desc: String::new(),
        digest: 0xcbf2_9ce4_8422_2325,
        digest_ics: 0,
        known: Default::default(),
    };
    cx.rng.big = idx % 20000 == 333;
    let r = match catch(|| run(&mut cx)) {
        Ok(r) => r,
        Err((loc, msg)) if is_harness_panic(&loc, &msg) => Err(Fail::Harness(format!("panic at {loc}: {msg}"))),
        Err((loc, msg)) => Err(Fail::Vio(format!("library panicked at {loc}: {msg}"))),
    };
    (cx, r)
}

fn main() {
    // capturing backtraces takes a global lock; thousands of expected errors are made here
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    if args.first().map(|s| s.as_str()) == Some("--list") {
        for p in &props {
            println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
        }
        return;
    }
    if args.first().map(|s| s.as_str()) == Some("--replay") {
        let f = report::load_replay(&args[1]);
        let p = props.iter().find(|p| p.id == f.0).expect("known property");
        let slots = std::sync::Arc::new(vec![watch::Slot::default()]);
        slots[0].here();
        slots[0].begin(f.3);
        watch::monitor(slots, p.id == "C22", |_, what| {
            println!("{what}");
            std::process::exit(1);
        });
        let (cx, r) = case(p, f.1, f.2, f.3);
        println!("{}", cx.desc);
        println!("{:?}", r);
        let mine = format!("{:x} {:x} {}", cx.digest, cx.digest_ics, r.is_ok());
        println!("DIGEST {mine}");
        let mut same = true;
        if p.id == "C23" {
            for alt in std::env::var("JMTMON_ALT").unwrap_or_default().split(',').filter_map(|a| a.split_once('=')) {
                let o = std::process::Command::new(alt.1).args(["--replay", &args[1]]).env("JMTMON_ALT", "").output().expect("other build");
                let o = String::from_utf8_lossy(&o.stdout).to_string();
                let d = o.lines().find_map(|l| l.strip_prefix("DIGEST ")).unwrap_or("none");
                println!("{}: {d}", alt.0);
                // builds without ICS23 have nothing in the second digest
                let parts = |s: &str| s.split(' ').map(String::from).collect::<Vec<_>>();
                let (a, b) = (parts(d), parts(&mine));
                same &= a.len() == 3 && a[0] == b[0] && a[2] == b[2] && (alt.0 == "no_std" || a[1] == b[1]);
            }
            println!("{}", if same { "all builds agree" } else { "builds differ" });
        }
        std::process::exit(if r.is_ok() && same { 0 } else { 1 });
    }
    let id = args.first().cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    let dump = std::env::var("JMTMON_DUMP").ok();
    let thorough = args.get(1).map(|s| s == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let envn = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let n = envn("JMTMON_CASES").unwrap_or(if thorough { p.thorough } else { p.quick });
    // soft wall-clock limits only bound how much is explored; they never decide a verdict
    let limit = Duration::from_secs(envn("JMTMON_LIMIT").unwrap_or(if thorough { 600 } else { 60 }));
    let t0 = Instant::now();
    std::thread::spawn(move || {
        std::thread::sleep(limit + Duration::from_secs(500));
        eprintln!("INCONCLUSIVE: watchdog fired");
        std::process::exit(2);
    });
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let out = Mutex::new(report::Totals::default());
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    // concurrent cases bring their own threads
    let workers = if p.id == "C22" { (workers / 2).max(2) } else { workers };
    let slots = std::sync::Arc::new((0..workers).map(|_| watch::Slot::default()).collect::<Vec<_>>());
    let id2 = p.id;
    watch::monitor(slots.clone(), p.id == "C22", move |i, what| {
        let all = props::all();
        let p = all.iter().find(|p| p.id == id2).expect("known property");
        std::process::exit(watch::report_stuck(p, seed, thorough, n, i, what));
    });
    std::thread::scope(|sc| {
        for w in 0..workers {
            let slot = &slots[w];
            let (next, stop_at, out) = (&next, &stop_at, &out);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    slot.here();
                    let mut local = report::Totals { keep: p.id == "C23", ..Default::default() };
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n || i > stop_at.load(SeqCst) || t0.elapsed() > limit {
                            break;
                        }
                        slot.begin(i);
                        let t1 = Instant::now();
                        let (mut cx, r) = case(p, seed, thorough, i);
                        slot.end();
                        cx.stats.peak("slowest_case_ms", t1.elapsed().as_millis() as u64);
                        if matches!(r, Err(Fail::Vio(_))) {
                            stop_at.fetch_min(i, SeqCst);
                        }
                        local.take(i, cx, r);
                    }
                    out.lock().unwrap().merge(local);
                })
                .unwrap();
        }
    });
    let mut tot = out.into_inner().unwrap();
    if let Some(path) = dump {
        report::dump(&tot, &path);
        std::process::exit(0);
    }
    if p.id == "C23" {
        report::compare_builds(&mut tot, p.id, if thorough { "thorough" } else { "quick" }, seed, n);
    }
    std::process::exit(report::finish(p, seed, thorough, n, tot, t0.elapsed().as_secs_f64()));
}
