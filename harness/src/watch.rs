//! Watches the workers: a case that does not end (spinning, deadlocked, eating memory) is a verdict too.
use crate::core::*;
use crate::report;
use crate::Prop;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// CPU time one case may burn; ordinary ones take milliseconds, the largest up to twenty seconds.
const CASE_CPU_S: u64 = 120;
/// Samples (one per second) after which a case is stuck although nothing is being computed.
const IDLE_SAMPLES: u64 = 100;
/// Resident memory of the whole process; ordinary runs stay far below one GB.
const RSS_BYTES: u64 = 10 << 30;
const TICKS: u64 = 100;

fn cpu_ticks(stat: &str) -> Option<u64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn rss() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/statm").ok()?;
    Some(s.split(' ').nth(1)?.parse::<u64>().ok()? * 4096)
}

#[derive(Default)]
pub struct Slot {
    /// case number + 1, or 0
    case: AtomicU64,
    stat: Mutex<String>,
}
impl Slot {
    /// called on the worker's own thread
    pub fn here(&self) {
        let t = std::fs::read_link("/proc/thread-self").map(|p| format!("/proc/{}/stat", p.display())).unwrap_or_default();
        *self.stat.lock().unwrap() = t;
    }
    pub fn begin(&self, i: u64) {
        self.case.store(i + 1, SeqCst);
    }
    pub fn end(&self) {
        self.case.store(0, SeqCst);
    }
}

/// What was observed of the case that never came back.
pub fn monitor(slots: Arc<Vec<Slot>>, own_threads: bool, stuck: impl Fn(u64, String) + Send + 'static) {
    std::thread::spawn(move || {
        struct Seen {
            case: u64,
            since: Instant,
            cpu: Option<u64>,
            idle: u64,
            all: Option<u64>,
            samples: u64,
        }
        let mut seen: Vec<Option<Seen>> = slots.iter().map(|_| None).collect();
        let mut n = 0u64;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            n += 1;
            if let Some(b) = rss().filter(|b| *b > RSS_BYTES) {
                // the case running for the longest is the one that eats
                let c = seen.iter().flatten().filter(|s| s.case != 0).min_by_key(|s| s.since).map(|s| s.case - 1);
                let c = c.or_else(|| slots.iter().map(|s| s.case.load(SeqCst)).find(|c| *c > 0).map(|c| c - 1));
                stuck(c.unwrap_or(0), format!("{} MB of memory in use and growing (unbounded allocation)", b >> 20));
            }
            if n % 10 != 0 {
                continue;
            }
            let all = cpu_ticks("/proc/self/stat");
            for (s, o) in slots.iter().zip(seen.iter_mut()) {
                let case = s.case.load(SeqCst);
                let cpu = || cpu_ticks(&s.stat.lock().unwrap());
                match o {
                    Some(w) if w.case == case && case != 0 => {
                        if let (Some(a), Some(b)) = (w.cpu, cpu()) {
                            if b - a > CASE_CPU_S * TICKS {
                                stuck(case - 1, format!("does not end ({} s of computing so far)", (b - a) / TICKS));
                            }
                        }
                        // nothing computed anywhere in the process since the last sample
                        match (w.all, all) {
                            (Some(a), Some(b)) if b - a < TICKS / 20 => w.idle += 1,
                            _ => w.idle = 0,
                        }
                        w.all = all;
                        w.samples += 1;
                        // threads of the case's own may be the ones that spin
                        if own_threads && w.samples > 2 * CASE_CPU_S {
                            stuck(case - 1, format!("does not end ({} s so far)", w.samples));
                        }
                        if w.idle > IDLE_SAMPLES {
                            stuck(case - 1, format!("does not end (blocked for {} s)", w.idle));
                        }
                    }
                    _ => *o = Some(Seen { case, since: Instant::now(), cpu: cpu(), idle: 0, all, samples: 0 }),
                }
            }
        }
    });
}

pub fn report_stuck(p: &Prop, seed: u64, thorough: bool, planned: u64, case: u64, what: String) -> i32 {
    let mut t = report::Totals::default();
    t.fails.insert(case, (Fail::Vio(what), "(the case did not come back; it is generated again by --replay)".into(), ""));
    report::finish(p, seed, thorough, planned, t, 0.0)
}
