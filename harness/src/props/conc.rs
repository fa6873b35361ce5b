//! C22: readers racing with commits and pruning on the in-memory store, judged against precomputed snapshots.
use crate::core::*;
use crate::gen::*;
use crate::rng::{self, Rng};
use crate::spec::*;
use crate::world::*;
use jmt::mock::MockTreeStore;
use jmt::storage::{LeafNode, Node, NodeKey, TreeReader, TreeUpdateBatch};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, SimpleHasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

/// A reader of the store that loses time between its reads.
struct Slow {
    db: Arc<MockTreeStore>,
    seed: AtomicU64,
    /// 0: full speed
    level: u64,
}
impl Slow {
    fn wait(&self) {
        if self.level == 0 {
            return;
        }
        let mut x = self.seed.fetch_add(0x9e37_79b9, SeqCst);
        pause(rng::splitmix(&mut x), self.level);
    }
}
fn pause(x: u64, level: u64) {
    match x % 8 {
        0..=3 => {}
        4 | 5 => std::thread::yield_now(),
        6 => {
            for _ in 0..(x >> 8) % (200 * level + 1) {
                std::hint::spin_loop();
            }
        }
        _ if level > 1 => std::thread::sleep(std::time::Duration::from_micros((x >> 8) % (40 * level))),
        _ => std::thread::yield_now(),
    }
}
impl TreeReader for Slow {
    fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
        self.wait();
        self.db.get_node_option(k)
    }
    fn get_value_option(&self, v: u64, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
        self.wait();
        self.db.get_value_option(v, k)
    }
    fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
        self.db.get_rightmost_leaf()
    }
}

struct Shared {
    /// versions below this index are completely written
    done: AtomicUsize,
    /// versions at or above this index are being or have been handed to the store
    begun: AtomicUsize,
    /// versions below this index may be pruned at any time
    floor: AtomicUsize,
    /// highest floor whose purge has returned
    purged: AtomicUsize,
    stop: AtomicBool,
    fail: Mutex<Option<Fail>>,
    sched: AtomicU64,
}
impl Shared {
    fn fail(&self, f: Fail) {
        self.fail.lock().unwrap().get_or_insert(f);
        self.stop.store(true, SeqCst);
    }
}

/// Raises the stop flag even if the thread ends early.
struct StopOnDrop<'a>(&'a AtomicBool, &'a AtomicUsize);
impl Drop for StopOnDrop<'_> {
    fn drop(&mut self) {
        if self.1.fetch_sub(1, SeqCst) == 1 {
            self.0.store(true, SeqCst);
        }
    }
}

struct Case {
    start: u64,
    snaps: Vec<Snap>,
    sets: Vec<Vec<Op>>,
    pool: Vec<KeyHash>,
}

fn reader<H: SimpleHasher + 'static>(id: usize, c: &Case, db: &Arc<MockTreeStore>, sh: &Shared, mut r: Rng, level: u64, min_ops: u64) -> R<Stats> {
    let mut st = Stats::default();
    let slow = Arc::new(Slow { db: db.clone(), seed: AtomicU64::new(r.u64()), level });
    let t = JellyfishMerkleTree::<Slow, H>::new(&*slow);
    let n = c.snaps.len();
    let mut ops = 0u64;
    while !sh.stop.load(SeqCst) || ops < min_ops {
        if sh.stop.load(SeqCst) && sh.fail.lock().unwrap().is_some() {
            break;
        }
        ops += 1;
        let (d0, f0) = (sh.done.load(SeqCst), sh.floor.load(SeqCst));
        // which version: the one about to appear, the newest, the oldest, one about to be pruned, any
        let i = match r.below(10) {
            0..=2 => d0.min(n - 1),
            3..=4 => d0.saturating_sub(1),
            5..=6 => f0.min(n - 1),
            7 => (f0 + 1).min(n - 1),
            _ => r.below(n),
        };
        let s = &c.snaps[i];
        let v = s.version;
        // see the root first: from then on the version must be complete until it may be pruned
        let spins = if i >= d0 { r.range(1, 200) } else { 1 };
        let mut seen = None;
        for _ in 0..spins {
            seen = must(|| format!("get_root_hash_option({v})"), || if r.chance(80) { JellyfishMerkleTree::<MockTreeStore, H>::new(&**db).get_root_hash_option(v) } else { t.get_root_hash_option(v) })?;
            if seen.is_some() || sh.stop.load(SeqCst) {
                break;
            }
        }
        let kind;
        let (ok, what): (Result<(), String>, String) = match &seen {
            None => {
                kind = 0u64;
                st.inc("versions_seen_missing");
                // must really not be complete: not committed when we began, or prunable when we ended
                (Err("version is missing".into()), format!("get_root_hash_option({v}) [version {i}]"))
            }
            Some(h) => {
                chk!(*h == s.root, "reader {id}: root of version {v} reads {h:?}, expected {:?}", s.root);
                st.inc("versions_seen_present");
                if i >= d0 {
                    st.inc("versions_seen_before_commit_returned");
                }
                // a key the version changed, or any
                let ch: Vec<KeyHash> = c.sets[i].iter().map(|x| x.0).collect();
                let k = if !ch.is_empty() && r.chance(60) { *r.pick(&ch) } else { *r.pick(&c.pool) };
                let want = s.map.get(&k);
                kind = 1 + r.below(7) as u64;
                let what = format!("reader {id}: {} of version {v} [index {i}] key {}", ["", "get", "get_with_proof", "iteration", "leaf count", "exclusion query", "range proof", "computing the next version"][kind as usize], hx(&k.0[..6]));
                let g = |x: R<Result<(), String>>| x;
                let res: Result<(), String> = match kind {
                    1 => {
                        // every changed key of the version: values must be there with the root
                        g(guard(|| what.clone(), || {
                            for k in ch.iter().chain([&k]) {
                                match t.get(*k, v) {
                                    Err(e) => return Err(format!("{e:#}")),
                                    Ok(x) if x.as_ref() == s.map.get(k) => {}
                                    Ok(x) => return Err(format!("WRONG {:?} for {}", x.map(|x| short(&x)), hx(&k.0[..6]))),
                                }
                            }
                            Ok(())
                        }))?
                    }
                    2 => guard(|| what.clone(), || match t.get_with_proof(k, v) {
                        Err(e) => Err(format!("{e:#}")),
                        Ok((x, p)) => {
                            if x.as_ref() != want {
                                Err(format!("WRONG value {:?}", x.map(|x| short(&x))))
                            } else if let Err(e) = p.verify(s.root, k, x) {
                                Err(format!("WRONG proof: {e:#}"))
                            } else {
                                Ok(())
                            }
                        }
                    })?,
                    3 => {
                        let from = if r.chance(50) { KeyHash([0; 32]) } else { k };
                        guard(|| what.clone(), || {
                            let mut it = JellyfishMerkleIterator::new(slow.clone(), v, from).map_err(|e| format!("{e:#}"))?;
                            let mut exp = s.map.range(from..);
                            loop {
                                match it.next() {
                                    None => return if exp.next().is_none() { Ok(()) } else { Err("WRONG: iteration ended early".into()) },
                                    Some(Err(e)) => return Err(format!("{e:#}")),
                                    Some(Ok((a, b))) => {
                                        if exp.next() != Some((&a, &b)) {
                                            return Err(format!("WRONG item {}", hx(&a.0)));
                                        }
                                    }
                                }
                            }
                        })?
                    }
                    4 => guard(|| what.clone(), || match t.get_leaf_count(v) {
                        Err(e) => Err(format!("{e:#}")),
                        Ok(x) if x == s.map.len() => Ok(()),
                        Ok(x) => Err(format!("WRONG count {x}, expected {}", s.map.len())),
                    })?,
                    5 if !s.map.is_empty() => guard(|| what.clone(), || match t.get_with_exclusion_proof(k, v) {
                        Err(e) => Err(format!("{e:#}")),
                        Ok(Ok((x, _))) if Some(&x) == want => Ok(()),
                        Ok(Err(_)) if want.is_none() => Ok(()),
                        Ok(_) => Err("WRONG presence".into()),
                    })?,
                    6 if want.is_some() => guard(|| what.clone(), || {
                        let p = t.get_range_proof(k, v).map_err(|e| format!("{e:#}"))?;
                        let es = entries::<H>(&s.map);
                        let vh = value_hash::<H>(want.unwrap());
                        let leaf = crate::forge::leaf_to_jmt(&k.0, &vh).map_err(|e| format!("{e:?}"))?;
                        p.verify(s.root, leaf, left_siblings::<H>(&es, &k.0)).map_err(|e| format!("WRONG range proof: {e:#}"))
                    })?,
                    7 if i + 1 < n => guard(|| what.clone(), || match t.put_value_set(c.sets[i + 1].clone(), v + 1) {
                        Err(e) => Err(format!("{e:#}")),
                        Ok((h, _)) if h == c.snaps[i + 1].root => Ok(()),
                        // an update whose base has been pruned starts from an empty tree: only wrong while the base must be there
                        Ok((h, _)) => Err(format!("wrong root {h:?}")),
                    })?,
                    _ => Ok(()),
                };
                (res, what)
            }
        };
        let (d1, f1) = (sh.done.load(SeqCst), sh.floor.load(SeqCst));
        if d1 != d0 {
            st.inc("operations_overlapping_commits");
        }
        if f1 != f0 {
            st.inc("operations_overlapping_prunes");
        }
        sh.sched.fetch_add(rng::mix(&[id as u64, ops, i as u64, d0 as u64, f0 as u64, kind]), SeqCst);
        match ok {
            Ok(()) => {
                st.inc("answers_correct");
                if i < f1 {
                    st.inc("correct_answers_of_prunable_versions");
                }
            }
            Err(e) => {
                chk!(!e.starts_with("WRONG"), "{what}: {e}");
                let prunable = i < f1;
                let visible = seen.is_some() || i < d0;
                chk!(
                    prunable || !visible,
                    "{what}: {e}; but the version was {} and can not have been pruned (floor {f1})",
                    if seen.is_some() { "visible" } else { "committed before" }
                );
                if prunable {
                    st.inc("refusals_of_prunable_versions");
                }
            }
        }
        if level > 1 && r.chance(10) {
            pause(r.u64(), level);
        }
    }
    st.add("reader_operations", ops);
    Ok(st)
}

pub fn c22<H: SimpleHasher + 'static>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::std();
    cfg.pool = (2, 30);
    cfg.versions = (10, if cx.thorough { 80 } else { 40 });
    cfg.ops = (1, 12);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    // reference run, single-threaded
    let mut w = World::<H>::new(plan.start);
    let mut batches: Vec<TreeUpdateBatch> = vec![];
    for s in &plan.sets {
        batches.push(w.commit(std::slice::from_ref(s), Entry::Plain)?.batch);
        let s = w.snaps.last().unwrap();
        chk!(s.root.0 == root::<H>(&s.map), "root of version {} is not that of its entries", s.version);
    }
    let c = Case { start: plan.start, snaps: w.snaps.clone(), sets: plan.sets.clone(), pool: plan.pool.clone() };
    let n = c.snaps.len();
    let db = Arc::new(MockTreeStore::default());
    let sh = Shared {
        done: AtomicUsize::new(0),
        begun: AtomicUsize::new(0),
        floor: AtomicUsize::new(0),
        purged: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        fail: Mutex::new(None),
        sched: AtomicU64::new(0),
    };
    let readers = r.range(2, 4);
    let prune = r.chance(75);
    let own_pruner = prune && r.chance(60);
    let lag = r.below(6);
    let compute_live = r.chance(50);
    let level = r.below(4) as u64;
    let writer_level = r.below(3) as u64;
    let seeds: Vec<u64> = (0..readers + 2).map(|_| r.u64()).collect();
    let barrier = Barrier::new(readers + 1 + own_pruner as usize);
    let stats = Mutex::new(Stats::default());
    let running = AtomicUsize::new(1);
    let purge = |to: usize| -> R<()> {
        // announce first: from now on versions below `to` may disappear
        sh.floor.fetch_max(to, SeqCst);
        must(|| format!("purge_stale_nodes({})", c.start + to as u64), || db.purge_stale_nodes(c.start + to as u64))?;
        sh.purged.fetch_max(to, SeqCst);
        Ok(())
    };
    std::thread::scope(|sc| {
        for id in 0..readers {
            let (c, db, sh, barrier, stats, seed) = (&c, &db, &sh, &barrier, &stats, seeds[id]);
            sc.spawn(move || {
                barrier.wait();
                match catch(|| reader::<H>(id, c, db, sh, Rng::new(seed), level, 12)) {
                    Ok(Ok(s)) => stats.lock().unwrap().merge(&s),
                    Ok(Err(f)) => sh.fail(f),
                    Err((loc, msg)) => sh.fail(Fail::Harness(format!("reader panicked at {loc}: {msg}"))),
                }
            });
        }
        if own_pruner {
            let (sh, barrier, purge, seed, stats) = (&sh, &barrier, &purge, seeds[readers], &stats);
            sc.spawn(move || {
                barrier.wait();
                let mut r = Rng::new(seed);
                let mut last = 0;
                while !sh.stop.load(SeqCst) {
                    let d = sh.done.load(SeqCst);
                    let to = d.saturating_sub(1 + lag);
                    if to > last {
                        if let Err(f) = purge(to) {
                            sh.fail(f);
                            return;
                        }
                        last = to;
                        stats.lock().unwrap().inc("purges");
                    }
                    pause(r.u64(), 3);
                }
            });
        }
        let _stop = StopOnDrop(&sh.stop, &running);
        barrier.wait();
        let mut r = Rng::new(seeds[readers + 1]);
        let mut run = || -> R<()> {
            for i in 0..n {
                if sh.stop.load(SeqCst) {
                    break;
                }
                sh.begun.store(i + 1, SeqCst);
                let batch = if compute_live {
                    let t = JellyfishMerkleTree::<MockTreeStore, H>::new(&*db);
                    let (h, b) = must(|| format!("update {i} while others read and prune"), || t.put_value_set(c.sets[i].clone(), c.start + i as u64))?;
                    chk!(h == c.snaps[i].root && b == batches[i], "update {i} computed while others read and prune differs from the one computed alone");
                    b
                } else {
                    batches[i].clone()
                };
                must(|| format!("write_tree_update_batch of version {i}"), || db.write_tree_update_batch(batch))?;
                sh.done.store(i + 1, SeqCst);
                if prune && !own_pruner && r.chance(40) {
                    let to = (i + 1).saturating_sub(1 + lag);
                    if to > 0 {
                        purge(to)?;
                        stats.lock().unwrap().inc("purges");
                    }
                }
                pause(r.u64(), writer_level);
            }
            Ok(())
        };
        match catch(&mut run) {
            Ok(Ok(())) => {}
            Ok(Err(f)) => sh.fail(f),
            Err((loc, msg)) if is_harness_panic(&loc, &msg) => sh.fail(Fail::Harness(format!("writer panicked at {loc}: {msg}"))),
            Err((loc, msg)) => sh.fail(Fail::Vio(format!("commit panicked at {loc}: {msg}"))),
        }
    });
    st.merge(&stats.into_inner().unwrap());
    st.add("versions_committed", n as u64);
    cx.sig ^= sh.sched.load(SeqCst);
    if let Some(f) = sh.fail.into_inner().unwrap() {
        return Err(f);
    }
    // afterwards everything retained is intact
    let fl = sh.floor.load(SeqCst);
    let t = JellyfishMerkleTree::<MockTreeStore, H>::new(&*db);
    for s in &c.snaps[fl..] {
        let h = must(|| format!("get_root_hash({}) afterwards", s.version), || t.get_root_hash(s.version))?;
        chk!(h == s.root, "root of version {} changed under concurrent use", s.version);
        super::structure::check_iter::<H, _>(&db, s.version, &s.map, KeyHash([0; 32]), "after concurrent use")?;
        st.inc("versions_intact_afterwards");
    }
    // pruning left exactly what a sequential run leaves
    w.store.prune(c.start + sh.purged.load(SeqCst) as u64)?;
    if sh.purged.load(SeqCst) > 0 {
        let now = must(|| "final purge".into(), || db.purge_stale_nodes(c.start + sh.purged.load(SeqCst) as u64).map(|_| db.num_nodes()))?;
        chk!(now == w.store.node_count(), "after concurrent pruning {now} nodes remain, a sequential run leaves {}", w.store.node_count());
    } else {
        chk!(db.num_nodes() == w.store.node_count() || prune, "concurrent run stored {} nodes, a sequential one {}", db.num_nodes(), w.store.node_count());
    }
    Ok(())
}
