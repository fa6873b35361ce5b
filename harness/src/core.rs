//! Verdicts, panic attribution, statistics.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is violated: what was observed
    Vio(String),
    /// the harness itself misbehaved
    Harness(String),
}
pub type R<T> = Result<T, Fail>;

#[macro_export]
macro_rules! vio {
    ($($a:tt)*) => { return Err($crate::core::Fail::Vio(format!($($a)*))) };
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::core::Fail::Vio(format!($($a)*))); } };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs library code; a panic in it becomes `Err((location, message))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// A panic raised in the harness's own sources (crate-relative path) is a harness error, not a verdict.
/// The store's read budget is the one deliberate panic: it marks a non-terminating operation.
pub fn is_harness_panic(loc: &str, msg: &str) -> bool {
    loc.starts_with("src/") && msg != crate::store::BUDGET_MSG
}

/// Runs library code that must not panic.
pub fn guard<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> R<T> {
    match catch(f) {
        Ok(v) => Ok(v),
        Err((loc, msg)) => {
            if is_harness_panic(&loc, &msg) {
                Err(Fail::Harness(format!("{}: harness panic at {loc}: {msg}", what())))
            } else {
                Err(Fail::Vio(format!("{}: panicked at {loc}: {msg}", what())))
            }
        }
    }
}

/// Runs library code that must neither panic nor fail.
pub fn must<T>(what: impl Fn() -> String, f: impl FnOnce() -> anyhow::Result<T>) -> R<T> {
    match guard(&what, f)? {
        Ok(v) => Ok(v),
        Err(e) => Err(Fail::Vio(format!("{}: failed: {e:#}", what()))),
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ev: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.ev.entry(k).or_default() += n;
    }
    pub fn inc(&mut self, k: &'static str) {
        self.add(k, 1);
    }
    pub fn peak(&mut self, k: &'static str, n: u64) {
        let e = self.max.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.ev {
            *self.ev.entry(k).or_default() += v;
        }
        for (k, v) in &o.max {
            let e = self.max.entry(k).or_default();
            *e = (*e).max(*v);
        }
    }
}

/// One case: its generator, what it observed, how it is described.
pub struct Cx {
    pub prop: &'static str,
    pub rng: crate::rng::Rng,
    pub thorough: bool,
    pub idx: u64,
    pub hasher: &'static str,
    pub stats: Stats,
    /// fingerprint of the generated case (to count distinct cases)
    pub sig: u64,
    pub nontrivial: bool,
    pub sample: String,
    /// full text of the case, written to the replay file on violation
    pub desc: String,
    /// digest of all observed outputs (used by cross-configuration comparison)
    pub digest: u64,
    /// the same for outputs that exist only with ICS23 support
    pub digest_ics: u64,
    /// findings met that the committed list may cover: id -> what was seen
    pub known: BTreeMap<&'static str, String>,
}
impl Cx {
    pub fn plan(&mut self, p: &crate::gen::Plan) {
        self.sig ^= p.sig();
        self.nontrivial = p.nontrivial();
        self.sample = p.describe(false);
        self.desc = p.describe(true);
    }
    pub fn note(&mut self, s: &str) {
        self.desc.push_str(s);
        self.desc.push('\n');
    }
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 8 {
        hx(b)
    } else {
        format!("{}..({}B)", hx(&b[..6]), b.len())
    }
}
pub fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    *h ^= b.len() as u64;
    *h = h.wrapping_mul(0x0000_0100_0000_01b3);
}
