//! Hostile workload generation: keys that share long prefixes, churn, empty sets, boundary versions.
use crate::core::*;
use crate::rng::Rng;
use crate::spec::*;
use jmt::KeyHash;
use std::fmt::Write;

pub type Op = (KeyHash, Option<Vec<u8>>);

pub fn flip(k: &[u8; 32], i: usize) -> [u8; 32] {
    let mut k = *k;
    k[i / 8] ^= 0x80 >> (i % 8);
    k
}
pub fn set_bit(k: &[u8; 32], i: usize, b: bool) -> [u8; 32] {
    if bit(k, i) == b {
        *k
    } else {
        flip(k, i)
    }
}
/// keep the first `n` bits of `a`, the rest from `b`
pub fn splice(a: &[u8; 32], b: &[u8; 32], n: usize) -> [u8; 32] {
    let mut r = *b;
    for i in 0..n {
        r = set_bit(&r, i, bit(a, i));
    }
    r
}
pub fn succ(k: &[u8; 32]) -> Option<[u8; 32]> {
    let mut r = *k;
    for i in (0..32).rev() {
        let (v, o) = r[i].overflowing_add(1);
        r[i] = v;
        if !o {
            return Some(r);
        }
    }
    None
}
pub fn pred(k: &[u8; 32]) -> Option<[u8; 32]> {
    let mut r = *k;
    for i in (0..32).rev() {
        let (v, o) = r[i].overflowing_sub(1);
        r[i] = v;
        if !o {
            return Some(r);
        }
    }
    None
}

/// A depth in bits, biased towards nibble/byte boundaries and both ends.
pub fn pick_depth(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=2 => r.below(12),
        3 => r.range(244, 255),
        4 => 4 * r.below(64),
        5 => (4 * r.below(64)).saturating_sub(1),
        6 => r.below(40),
        7 => 255,
        _ => r.below(256),
    }
}

fn tail(r: &mut Rng, base: &[u8; 32]) -> [u8; 32] {
    match r.below(4) {
        0 => [0u8; 32],
        1 => [0xff; 32],
        2 => *base,
        _ => r.bytes32(),
    }
}

/// A new key placed relative to the existing ones.
pub fn new_key(r: &mut Rng, pool: &[KeyHash], style: usize) -> KeyHash {
    if pool.is_empty() {
        return KeyHash(r.bytes32());
    }
    let base = r.pick(pool).0;
    let k = match style {
        // uniformly random (shallow tree)
        0 => r.bytes32(),
        // diverges from an existing key exactly after d bits
        1 => {
            let d = pick_depth(r);
            let t = tail(r, &base);
            flip_at(&splice(&base, &t, d), &base, d)
        }
        // same leading bits, another nibble at one level (full nodes)
        2 => {
            let d = r.below(64);
            let mut k = base;
            let n = r.below(16) as u8;
            if d % 2 == 0 {
                k[d / 2] = (k[d / 2] & 0x0f) | (n << 4);
            } else {
                k[d / 2] = (k[d / 2] & 0xf0) | n;
            }
            if r.chance(50) {
                let t = r.bytes32();
                k = splice(&k, &t, (d + 1) * 4);
            }
            k
        }
        // neighbour in key order
        3 => {
            let x = if r.chance(50) { succ(&base) } else { pred(&base) };
            x.unwrap_or(base)
        }
        // ends of the key space
        4 => match r.below(8) {
            0 => [0u8; 32],
            1 => [0xff; 32],
            2 => {
                let mut k = [0u8; 32];
                k[31] = 1 + r.below(3) as u8;
                k
            }
            3 => {
                let mut k = [0xff; 32];
                k[31] = 0xff - 1 - r.below(3) as u8;
                k
            }
            4 => flip(&[0u8; 32], r.below(256)),
            5 => flip(&[0xff; 32], r.below(256)),
            6 => {
                let mut k = [0u8; 32];
                k[0] = 0x80;
                k
            }
            _ => {
                let mut k = [0xff; 32];
                k[0] = 0x7f;
                k
            }
        },
        // near the top: few distinct leading bits
        _ => {
            let mut k = r.bytes32();
            k[0] &= 0x33;
            k[1] &= 0x11;
            k
        }
    };
    KeyHash(k)
}

fn flip_at(k: &[u8; 32], base: &[u8; 32], d: usize) -> [u8; 32] {
    set_bit(k, d.min(255), !bit(base, d.min(255)))
}

pub fn gen_pool(r: &mut Rng, n: usize) -> Vec<KeyHash> {
    let mut pool: Vec<KeyHash> = vec![];
    // one dominant style per pool plus a mixture
    let dom = r.below(7);
    if n >= 4 && r.chance(3) {
        // a comb: a key, and another one branching off behind each of some consecutive bits
        let base = r.bytes32();
        let from = if r.chance(50) { 0 } else { r.below(256) };
        pool.push(KeyHash(base));
        for d in (from..256).take(n - 1) {
            let t = tail(r, &base);
            pool.push(KeyHash(flip_at(&splice(&base, &t, d), &base, d)));
        }
    }
    if dom == 6 && n >= 16 {
        // a full 16-way (or 256-way) node somewhere deep
        let base = r.bytes32();
        let lvl = if r.chance(30) { r.below(2) } else { r.below(63) };
        for a in 0..16u8 {
            for b in 0..(if n >= 200 { 16u8 } else { 1 }) {
                let mut k = base;
                for (l, v) in [(lvl, a), (lvl + 1, b)] {
                    if l > 63 || (l == lvl + 1 && n < 200) {
                        continue;
                    }
                    if l % 2 == 0 {
                        k[l / 2] = (k[l / 2] & 0x0f) | (v << 4);
                    } else {
                        k[l / 2] = (k[l / 2] & 0xf0) | v;
                    }
                }
                if r.chance(50) {
                    let t = r.bytes32();
                    k = splice(&k, &t, ((lvl + 2) * 4).min(256));
                }
                pool.push(KeyHash(k));
            }
        }
    }
    let mut guard = 0;
    let mut known: std::collections::BTreeSet<KeyHash> = pool.iter().copied().collect();
    while pool.len() < n && guard < 20 * n {
        guard += 1;
        let style = if r.chance(65) { dom.min(5) } else { r.below(6) };
        let k = new_key(r, &pool, style);
        if known.insert(k) {
            pool.push(k);
        }
    }
    pool.sort();
    pool.dedup();
    r.shuffle(&mut pool);
    pool
}

pub fn gen_value(r: &mut Rng, ctr: &mut u64, recent: &[Vec<u8>]) -> Vec<u8> {
    *ctr += 1;
    match r.below(20) {
        0 => vec![],
        1 => vec![r.below(3) as u8],
        2 if !recent.is_empty() => r.pick(recent).clone(),
        3 => r.bytes32().to_vec(),
        4 => {
            let n = match r.below(400) {
                0 => 65534 + r.below(4),
                1 => r.range(60_000, 140_000),
                2..=5 => r.range(4000, 20_000),
                _ => r.range(100, 3000),
            };
            r.vec(n)
        }
        _ => {
            // unique: identifies the write it came from
            let mut v = ctr.to_be_bytes().to_vec();
            let n = r.below(12);
            v.extend(r.vec(n));
            v
        }
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub pool: (usize, usize),
    pub versions: (usize, usize),
    pub ops: (usize, usize),
    /// percent of sets that are empty
    pub empty_sets: usize,
    pub deletes: bool,
    /// values must be non-empty
    pub nonempty_values: bool,
    pub start_zero: bool,
    /// percent of histories that start on top of a pre-genesis state
    pub pre: usize,
    pub mock: u64,
    /// some histories end with the last version there is
    pub edge: bool,
}
impl Cfg {
    pub fn std() -> Self {
        Cfg {
            pool: (1, 24),
            versions: (1, 8),
            ops: (1, 10),
            empty_sets: 8,
            deletes: true,
            nonempty_values: false,
            start_zero: false,
            pre: 0,
            mock: 0,
            edge: false,
        }
    }
    /// `varied`, some of it on top of a pre-genesis state, some of it in the library's own store
    pub fn varied_pre(r: &mut Rng, thorough: bool) -> Self {
        Cfg { pre: 8, mock: 10, ..Cfg::varied(r, thorough) }
    }
    /// `varied_pre`, some of it up to the last version there is
    pub fn to_the_end(r: &mut Rng, thorough: bool) -> Self {
        Cfg { edge: true, ..Cfg::varied_pre(r, thorough) }
    }
    /// now and then a larger instance
    pub fn varied(r: &mut Rng, thorough: bool) -> Self {
        let mut c = Cfg::std();
        if r.big {
            c.pool = (5000, 6000);
            c.versions = (2, 3);
            c.ops = (4500, 6500);
            return c;
        }
        match r.below(20) {
            0 => {
                c.pool = (100, if thorough { 700 } else { 300 });
                c.ops = (20, 120);
                c.versions = (1, 5);
            }
            1 => {
                c.pool = (30, 60);
                c.ops = (1, 30);
                c.versions = (2, 10);
            }
            2 => {
                c.pool = (1, 4);
                c.ops = (0, 4);
                c.versions = (4, 24);
                c.empty_sets = 20;
            }
            3 => {
                c.pool = (16, 40);
                c.versions = (1, 3);
                c.ops = (10, 40);
            }
            // rarely, a very long history or a very wide set
            4 if r.below(if thorough { 30 } else { 60 }) == 0 => {
                if r.chance(50) {
                    c.pool = (1, 5);
                    c.versions = (250, 300);
                    c.ops = (0, 2);
                    c.empty_sets = 20;
                } else {
                    c.pool = (1000, 1400);
                    c.versions = (1, 2);
                    c.ops = (1000, 1400);
                }
            }
            _ => {}
        }
        c
    }
}

#[derive(Clone)]
pub struct Plan {
    pub start: u64,
    pub pool: Vec<KeyHash>,
    pub sets: Vec<Vec<Op>>,
    /// what the reserved pre-genesis version holds, if there is one
    pub pre: Option<Map>,
    /// live in a `MockTreeStore` (that allows overwriting or not)
    pub mock: Option<bool>,
}

pub fn gen_start(r: &mut Rng) -> u64 {
    match r.below(20) {
        0..=10 => 0,
        11..=13 => 1,
        14 => r.range(2, 300) as u64,
        15 => 255 + r.below(3) as u64,
        16 => {
            let at = 1u64 << *r.pick(&[7usize, 8, 15, 16, 24, 31, 32, 32, 40, 48, 53, 56]);
            (at + r.below(12) as u64).saturating_sub(6)
        }
        17 => (1u64 << 63) + r.below(1000) as u64 - 500,
        18 => u64::MAX - 2000 - r.below(1000) as u64,
        _ => r.u64() >> (1 + r.below(60)),
    }
}

pub fn gen_set(r: &mut Rng, cfg: &Cfg, pool: &[KeyHash], cur: &Map, ctr: &mut u64) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    if r.chance(cfg.empty_sets) {
        return ops;
    }
    let present: Vec<KeyHash> = cur.keys().copied().collect();
    // special sets
    if cfg.deletes && !present.is_empty() {
        match r.below(24) {
            0 => {
                // delete everything, perhaps re-insert something
                for k in &present {
                    ops.push((*k, None));
                }
                r.shuffle(&mut ops);
                if r.chance(40) {
                    ops.push((*r.pick(pool), Some(value(r, cfg, ctr, &[]))));
                }
                return ops;
            }
            1 => {
                // delete all but one or two
                let keep = r.range(1, 2);
                let mut p = present.clone();
                r.shuffle(&mut p);
                for k in p.iter().skip(keep) {
                    ops.push((*k, None));
                }
                return ops;
            }
            2 => {
                // only no-ops: delete absent keys
                for _ in 0..r.range(1, 3) {
                    let style = r.below(6);
                    let k = new_key(r, pool, style);
                    if !cur.contains_key(&k) {
                        ops.push((k, None));
                    }
                }
                return ops;
            }
            3 => {
                // rewrite present keys with the same value
                for _ in 0..r.range(1, 3) {
                    let k = *r.pick(&present);
                    ops.push((k, Some(cur[&k].clone())));
                }
                return ops;
            }
            _ => {}
        }
    }
    let n = r.range(cfg.ops.0, cfg.ops.1);
    let recent: Vec<Vec<u8>> = cur.values().take(4).cloned().collect();
    for _ in 0..n {
        let c = r.below(100);
        if cfg.deletes && c < 28 && !present.is_empty() {
            ops.push((*r.pick(&present), None));
        } else if cfg.deletes && c < 34 {
            ops.push((*r.pick(pool), None));
        } else if c < 42 && !ops.is_empty() {
            // repeat a key of this very set
            let k = r.pick(&ops).0;
            let v = if cfg.deletes && r.chance(40) { None } else { Some(value(r, cfg, ctr, &recent)) };
            ops.push((k, v));
        } else {
            ops.push((*r.pick(pool), Some(value(r, cfg, ctr, &recent))));
        }
    }
    ops
}

fn value(r: &mut Rng, cfg: &Cfg, ctr: &mut u64, recent: &[Vec<u8>]) -> Vec<u8> {
    let v = gen_value(r, ctr, recent);
    if cfg.nonempty_values && v.is_empty() {
        vec![7]
    } else {
        v
    }
}

pub fn gen_plan(r: &mut Rng, cfg: &Cfg) -> Plan {
    let np = r.range(cfg.pool.0, cfg.pool.1);
    let pool = gen_pool(r, np);
    let mut pre = None;
    if r.chance(cfg.pre) {
        let (mut m, mut c) = (Map::new(), 1u64 << 42);
        let share = *r.pick(&[0, 20, 60, 100]);
        for k in &pool {
            if r.chance(share) {
                m.insert(*k, value(r, cfg, &mut c, &[]));
            }
        }
        pre = Some(m);
    }
    let mut start = if cfg.start_zero || pre.is_some() { 0 } else { gen_start(r) };
    let nv = r.range(cfg.versions.0, cfg.versions.1);
    if cfg.edge && start > u64::MAX - 4000 && start % 2 == 0 {
        start = u64::MAX - nv as u64;
    }
    let mut sets = vec![];
    let mut cur = pre.clone().unwrap_or_default();
    let mut ctr = 0u64;
    for i in 0..nv {
        let mut s = gen_set(r, cfg, &pool, &cur, &mut ctr);
        if i == 0 && r.chance(60) {
            // populate
            for k in &pool {
                if r.chance(60) {
                    s.push((*k, Some(value(r, cfg, &mut ctr, &[]))));
                }
            }
        }
        cur = apply(&cur, &s);
        sets.push(s);
    }
    let mut plan = Plan { start, pool, sets, pre, mock: None };
    // (no draw from the generator: the plan is the same in any store)
    let x = crate::rng::mix(&[plan.sig(), 0x6d6f636b]);
    if plan.pre.is_none() && x % 100 < cfg.mock {
        plan.mock = Some(x >> 63 == 1);
    }
    plan
}

/// Keys to ask about: present ones, deleted ones, and absent ones close to present ones.
pub fn probes(r: &mut Rng, plan_pool: &[KeyHash], cur: &Map, limit: usize) -> Vec<KeyHash> {
    let mut out: Vec<KeyHash> = vec![];
    let present: Vec<KeyHash> = cur.keys().copied().collect();
    if present.len() + plan_pool.len() <= limit {
        out.extend(&present);
        out.extend(plan_pool);
    } else {
        for _ in 0..limit / 2 {
            if !present.is_empty() {
                out.push(*r.pick(&present));
            }
            out.push(*r.pick(plan_pool));
        }
    }
    for _ in 0..limit / 2 {
        let style = 1 + r.below(4);
        let src = if present.is_empty() { plan_pool } else { &present };
        out.push(new_key(r, src, style));
    }
    out.push(KeyHash([0; 32]));
    out.push(KeyHash([0xff; 32]));
    out.sort();
    out.dedup();
    out
}

impl Plan {
    pub fn sig(&self) -> u64 {
        let mut h = self.start;
        for (k, v) in self.pre.iter().flatten() {
            fnv(&mut h, &k.0);
            fnv(&mut h, v);
        }
        for s in &self.sets {
            fnv(&mut h, b"|");
            for (k, v) in s {
                fnv(&mut h, &k.0);
                match v {
                    Some(v) => fnv(&mut h, v),
                    None => fnv(&mut h, b"<del>"),
                }
            }
        }
        h
    }
    pub fn describe(&self, full: bool) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "start version {}", self.start);
        if let Some(x) = self.mock {
            let _ = writeln!(o, "  in a MockTreeStore (allow_overwrite {x})");
        }
        if let Some(m) = &self.pre {
            let _ = write!(o, "  pre-genesis: ");
            for (k, v) in m.iter().take(if full { usize::MAX } else { 4 }) {
                let _ = write!(o, "{}={}; ", hx(&k.0), short(v));
            }
            let _ = writeln!(o, "{} entries", m.len());
        }
        for (i, s) in self.sets.iter().enumerate() {
            let _ = write!(o, "  v{}: ", self.start.wrapping_add(i as u64));
            for (j, (k, v)) in s.iter().enumerate() {
                if !full && j >= 6 {
                    let _ = write!(o, "... {} ops", s.len());
                    break;
                }
                let kk = if full { hx(&k.0) } else { format!("{}..{}", hx(&k.0[..4]), hx(&k.0[30..])) };
                match v {
                    Some(v) => {
                        let vv = if full && v.len() <= 64 { hx(v) } else { short(v) };
                        let _ = write!(o, "put {kk}={vv}; ");
                    }
                    None => {
                        let _ = write!(o, "del {kk}; ");
                    }
                }
            }
            let _ = writeln!(o);
        }
        o
    }
    /// at least one overwrite/delete of a present key or two entries at once, over >= 2 operations
    pub fn nontrivial(&self) -> bool {
        let mut m = self.pre.clone().unwrap_or_default();
        let mut churn = 0;
        let mut max = 0;
        for s in &self.sets {
            for (k, v) in s {
                if m.contains_key(k) {
                    churn += 1;
                }
                match v {
                    Some(v) => {
                        m.insert(*k, v.clone());
                    }
                    None => {
                        m.remove(k);
                    }
                }
                max = max.max(m.len());
            }
        }
        max >= 2 && (churn > 0 || self.sets.len() == 1)
    }
}
