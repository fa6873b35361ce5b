//! Evidence, replay files and the verdict line.
use crate::core::*;
use crate::Prop;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Totals {
    pub cases: u64,
    pub stats: Stats,
    pub sigs: HashSet<u64>,
    pub samples: BTreeMap<u64, (String, String)>,
    pub fails: BTreeMap<u64, (Fail, String, &'static str)>,
    pub by_hasher: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub known: BTreeMap<&'static str, String>,
    /// per case: outcome and digests, when they are compared across builds
    pub per_case: BTreeMap<u64, (char, u64, u64)>,
    /// case -> full description, kept with per_case
    pub keep: bool,
}
impl Totals {
    pub fn take(&mut self, i: u64, cx: Cx, r: R<()>) {
        self.cases += 1;
        *self.by_hasher.entry(cx.hasher).or_default() += 1;
        self.digest ^= crate::rng::mix(&[i, cx.digest]);
        self.stats.merge(&cx.stats);
        if self.keep {
            let o = match &r {
                Ok(()) => 'o',
                Err(Fail::Vio(_)) => 'v',
                Err(Fail::Harness(_)) => 'h',
            };
            self.per_case.insert(i, (o, cx.digest, cx.digest_ics));
        }
        for (id, what) in &cx.known {
            if !listed(cx.prop, id) {
                self.fails.insert(i, (Fail::Vio(format!("[{id}] {what}")), cx.desc.clone(), cx.hasher));
            }
            self.known.entry(id).or_insert(what.clone());
        }
        if cx.nontrivial && r.is_ok() {
            self.sigs.insert(cx.sig);
            if self.samples.len() < 3 {
                self.samples.insert(i, (cx.sample.clone(), cx.hasher.to_string()));
            }
        }
        if let Err(f) = r {
            self.fails.insert(i, (f, cx.desc, cx.hasher));
        }
    }
    pub fn merge(&mut self, o: Totals) {
        self.cases += o.cases;
        self.stats.merge(&o.stats);
        self.sigs.extend(o.sigs);
        self.samples.extend(o.samples);
        while self.samples.len() > 3 {
            self.samples.pop_last();
        }
        self.fails.extend(o.fails);
        self.per_case.extend(o.per_case);
        self.digest ^= o.digest;
        self.known.extend(o.known);
        for (k, v) in o.by_hasher {
            *self.by_hasher.entry(k).or_default() += v;
        }
    }
}

pub fn root_dir() -> String {
    std::env::var("JMTMON_ROOT").unwrap_or_else(|_| format!("{}/..", env!("CARGO_MANIFEST_DIR")))
}

/// Is this finding in the committed list? Lines: `known: property=<id> id=<finding> <text>`.
pub fn listed(prop: &str, id: &str) -> bool {
    std::fs::read_to_string(format!("{}/known_findings.txt", root_dir()))
        .unwrap_or_default()
        .lines()
        .any(|l| l.starts_with(&format!("known: property={prop} id={id} ")))
}

pub fn load_replay(path: &str) -> (String, u64, bool, u64) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    (
        v["property"].as_str().unwrap().to_string(),
        v["seed"].as_u64().unwrap(),
        v["tier"].as_str().unwrap() == "thorough",
        v["case"].as_u64().unwrap(),
    )
}

pub fn finish(p: &Prop, seed: u64, thorough: bool, planned: u64, t: Totals, wall: f64) -> i32 {
    let root = root_dir();
    let tier = if thorough { "thorough" } else { "quick" };
    let vio = t.fails.iter().find(|(_, f)| matches!(f.0, Fail::Vio(_)));
    let harness = t.fails.iter().find(|(_, f)| matches!(f.0, Fail::Harness(_)));
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(t.cases));
    cov.insert("planned_cases".into(), json!(planned));
    cov.insert("distinct_nontrivial".into(), json!(t.sigs.len()));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert(
        "samples".into(),
        t.samples.iter().map(|(i, (s, h))| json!({"case": i, "hasher": h, "input": s})).collect(),
    );
    cov.insert("cases_by_hasher".into(), json!(t.by_hasher));
    cov.insert("events_observed".into(), json!(t.stats.ev));
    cov.insert("peaks_observed".into(), json!(t.stats.max));
    cov.insert("output_digest".into(), json!(format!("{:016x}", t.digest)));
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": cov, "assumptions": p.assumptions, "wall_s": wall,
        "known_findings_seen": t.known,
        "violations": t.fails.values().filter(|f| matches!(f.0, Fail::Vio(_))).count(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(
        format!("{root}/evidence/{}.json", p.id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{} {tier} seed={seed}: {} of {planned} cases, {} distinct non-trivial, {:.1}s, digest {:016x}",
        p.id, t.cases, t.sigs.len(), wall, t.digest
    );
    println!("events: {:?}", t.stats.ev);
    println!("peaks: {:?}", t.stats.max);
    for (id, what) in &t.known {
        if listed(p.id, id) {
            println!("KNOWN-FINDING: property={} [{id}] {what}", p.id);
        }
    }
    if let Some((i, (f, desc, hasher))) = vio {
        let Fail::Vio(msg) = f else { unreachable!() };
        let _ = std::fs::create_dir_all(format!("{root}/out"));
        let path = format!("{root}/out/{}-{tier}-{seed}-{i}.json", p.id);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": p.id, "seed": seed, "tier": tier, "case": i, "hasher": hasher,
                "observed": msg, "input": desc.lines().collect::<Vec<_>>(),
                "replay": format!("./check.sh --replay {path}"),
            }))
            .unwrap(),
        );
        println!("case {i} ({hasher}): {msg}");
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    if let Some((i, (f, desc, _))) = harness {
        println!("INCONCLUSIVE: harness error in case {i}: {f:?}\n{desc}");
        return 2;
    }
    let missing: Vec<_> = p.need.iter().filter(|k| t.stats.ev.get(**k).copied().unwrap_or(0) == 0).collect();
    if t.cases == 0 || t.sigs.is_empty() || !missing.is_empty() {
        println!("INCONCLUSIVE: nothing observed for {missing:?}");
        return 2;
    }
    println!("OK property={}", p.id);
    0
}

/// Writes the per-case digests of this process.
pub fn dump(t: &Totals, path: &str) {
    let s: String = t.per_case.iter().map(|(i, (o, a, b))| format!("{i} {o} {a:x} {b:x}\n")).collect();
    std::fs::write(path, s).expect("write digests");
}

/// Runs the same cases in other processes and builds (`JMTMON_ALT`: name=path,...) and compares the digests.
pub fn compare_builds(t: &mut Totals, id: &str, tier: &str, seed: u64, n: u64) {
    let dir = format!("{}/out", root_dir());
    let _ = std::fs::create_dir_all(&dir);
    for alt in std::env::var("JMTMON_ALT").unwrap_or_default().split(',').filter(|a| !a.is_empty()) {
        let (name, path) = alt.split_once('=').expect("JMTMON_ALT");
        let f = format!("{dir}/digests-{name}-{tier}-{seed}.txt");
        let _ = std::fs::remove_file(&f);
        let st = std::process::Command::new(path)
            .args([id, tier])
            .env("JMTMON_DUMP", &f)
            .env("JMTMON_CASES", n.to_string())
            .env("VERIF_SEED", seed.to_string())
            .status();
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        if !matches!(st, Ok(s) if s.success()) || text.is_empty() {
            t.fails.insert(u64::MAX, (Fail::Harness(format!("build {name} did not run: {st:?}")), String::new(), ""));
            continue;
        }
        let counter: &'static str = match name {
            "repeat" => "cases_compared_with_repeat",
            "no_std" => "cases_compared_with_no_std",
            _ => "cases_compared_with_release",
        };
        let (mut cases, mut bad) = (0, None);
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let hex = |s: &str| u64::from_str_radix(s, 16).expect("digest");
            let (i, o, a, b) = (w[0].parse::<u64>().expect("case"), w[1].chars().next().unwrap(), hex(w[2]), hex(w[3]));
            let Some(&(mo, ma, mb)) = t.per_case.get(&i) else { continue };
            cases += 1;
            // without ICS23 support there is nothing in the second digest
            if (o, a) != (mo, ma) || (name != "no_std" && b != mb) {
                bad.get_or_insert((i, format!("case {i} ends {o:?} with digests {a:x} {b:x} in the {name} build, {mo:?} with {ma:x} {mb:x} in the main build")));
            }
        }
        t.stats.add(counter, cases);
        if let Some((i, m)) = bad {
            t.fails.insert(i, (Fail::Vio(m), format!("rerun: JMTMON_DUMP=/dev/stdout <build> {id} {tier} with VERIF_SEED={seed}"), ""));
        }
    }
}
