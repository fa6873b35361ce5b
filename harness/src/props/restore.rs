//! C11 restoration across interruptions, C12 restoration accepts only the truth.
use super::structure::drain;
use crate::core::*;
use crate::forge::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::store::*;
use crate::walk::*;
use crate::world::*;
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use std::sync::Arc;

type Chunk = Vec<(KeyHash, Vec<u8>)>;

/// What a receiver's storage must offer here.
pub trait Back: TreeReader + TreeWriter + 'static {
    fn put(&self, b: TreeUpdateBatch) -> anyhow::Result<()>;
}
impl Back for MonStore {
    fn put(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.apply(&b).map_err(|e| anyhow::anyhow!("{e:?}"))
    }
}
impl Back for MockTreeStore {
    fn put(&self, b: TreeUpdateBatch) -> anyhow::Result<()> {
        self.write_tree_update_batch(b)
    }
}

struct Source<H: SimpleHasher> {
    w: World<H>,
    s: Snap,
    all: Chunk,
    root: RootHash,
}

fn source<H: SimpleHasher>(cx: &mut Cx, min: usize) -> R<Source<H>> {
    let mut cfg = Cfg::std();
    let r = &mut cx.rng;
    match r.below(12) {
        0 => cfg.pool = (60, if cx.thorough { 400 } else { 150 }),
        1 => cfg.pool = (1, 3),
        _ => {}
    }
    cfg.versions = (1, 4);
    if r.big {
        let n = if cx.prop == "C11" { 4_000 } else { 3_000 };
        cfg.pool = (n, n + n / 10);
        cfg.ops = (3 * n, 3 * n);
        cfg.versions = (1, 1);
        cfg.deletes = false;
        cfg.empty_sets = 0;
    }
    let plan = gen_plan(r, &cfg);
    cx.plan(&plan);
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let mut w = World::<H>::new(plan.start);
    w.run_plan(&plan, r, st)?;
    if w.snaps.iter().all(|s| s.map.len() < min) {
        let ops: Vec<Op> = plan.pool.iter().enumerate().map(|(i, k)| (*k, Some(vec![i as u8]))).collect();
        w.commit(&[ops], Entry::Plain)?;
        while w.cur().len() < min {
            let k = KeyHash(r.bytes32());
            w.commit(&[vec![(k, Some(vec![1]))]], Entry::Plain)?;
        }
    }
    let ok: Vec<&Snap> = w.snaps.iter().filter(|s| s.map.len() >= min).collect();
    let s = (*r.pick(&ok)).clone();
    let all: Chunk = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
    let root = RootHash(root::<H>(&s.map));
    Ok(Source { w, s, all, root })
}

fn range_proof<H: SimpleHasher>(src: &Source<H>, i: usize) -> R<Vec<SNode>> {
    let p = must(|| format!("get_range_proof of entry {i}"), || src.w.tree().get_range_proof(src.all[i].0, src.s.version))?;
    range_from_jmt(&p)
}

fn pick_target(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => PRE_GENESIS,
        1 => 0,
        2 => u64::MAX - 1 - r.below(100) as u64,
        _ => gen_start(r),
    }
}

/// The restored version answers like the source, byte for byte, and accepts updates.
fn check_restored<H: SimpleHasher, D: Back>(store: &Arc<D>, target: u64, src: &Source<H>, pool: &[KeyHash], r: &mut Rng, st: &mut Stats) -> R<()> {
    let t = JellyfishMerkleTree::<D, H>::new(&**store);
    let map = &src.s.map;
    let rh = must(|| "get_root_hash of the restored version".into(), || t.get_root_hash(target))?;
    chk!(rh == src.root, "restored root is {rh:?}, expected {:?}", src.root);
    let lc = must(|| "get_leaf_count of the restored version".into(), || t.get_leaf_count(target))?;
    chk!(lc == map.len(), "restored leaf count is {lc}, expected {}", map.len());
    let st_ = src.w.tree();
    for k in probes(r, pool, map, 24) {
        let (v, p) = must(|| format!("get_with_proof({}) of the restored version", hx(&k.0)), || t.get_with_proof(k, target))?;
        let (v2, p2) = must(|| "get_with_proof of the source".into(), || st_.get_with_proof(k, src.s.version))?;
        chk!(v.as_ref() == map.get(&k), "restored value of {} is wrong", hx(&k.0));
        chk!(v == v2 && from_jmt(&p)? == from_jmt(&p2)?, "the restored version proves {} differently", hx(&k.0));
        chk!(p.verify(src.root, k, v).is_ok(), "proof of {} at the restored version does not verify", hx(&k.0));
        let g = must(|| "get of the restored version".into(), || t.get(k, target))?;
        chk!(g.as_ref() == map.get(&k), "restored plain read of {} is wrong", hx(&k.0));
        if map.contains_key(&k) {
            let a = must(|| "range proof of the restored version".into(), || t.get_range_proof(k, target))?;
            let b = must(|| "range proof of the source".into(), || st_.get_range_proof(k, src.s.version))?;
            chk!(range_from_jmt(&a)? == range_from_jmt(&b)?, "the restored version gives another range proof for {}", hx(&k.0));
        }
        st.inc("restored_reads_compared");
    }
    let what = "iteration of the restored version";
    let mut it = must(|| what.into(), || JellyfishMerkleIterator::new(store.clone(), target, KeyHash([0; 32])))?;
    chk!(drain(&mut it, map.len() + 1, what)? == src.all, "{what}: wrong entries");
    if !map.is_empty() {
        let i = r.below(map.len());
        let mut it = must(|| what.into(), || JellyfishMerkleIterator::new_by_index(store.clone(), target, i))?;
        chk!(drain(&mut it, map.len() + 1, what)? == src.all[i..], "{what} by index: wrong entries");
    }
    // further updates
    let mut m = (**map).clone();
    let mut v = target;
    let (cfg, mut ctr) = (Cfg::std(), 1u64 << 40);
    for _ in 0..2 {
        v = v.wrapping_add(1);
        if v == PRE_GENESIS {
            break;
        }
        let set = gen_set(r, &cfg, pool, &m, &mut ctr);
        m = apply(&m, &set);
        let (rt, b) = must(|| format!("updating the restored tree at version {v}"), || t.put_value_set(set.clone(), v))?;
        chk!(rt.0 == root::<H>(&m), "update of the restored tree: wrong root");
        must(|| "writing the update".into(), || store.put(b))?;
        for k in probes(r, pool, &m, 8) {
            let (x, p) = must(|| "get_with_proof after the update".into(), || t.get_with_proof(k, v))?;
            chk!(x.as_ref() == m.get(&k) && p.verify(rt, k, x).is_ok(), "read of {} after an update of the restored tree is wrong", hx(&k.0));
        }
        let mut it = must(|| what.into(), || JellyfishMerkleIterator::new(store.clone(), v, KeyHash([0; 32])))?;
        chk!(
            drain(&mut it, m.len() + 1, what)?.into_iter().eq(m.iter().map(|(k, v)| (*k, v.clone()))),
            "iteration after an update of the restored tree: wrong entries"
        );
        st.inc("updates_after_restore");
    }
    Ok(())
}

fn open<H: SimpleHasher, D: Back>(store: &Arc<D>, target: u64, root: RootHash) -> R<JellyfishMerkleRestore<H>> {
    must(|| format!("JellyfishMerkleRestore::new for version {target}"), || JellyfishMerkleRestore::<H>::new(store.clone(), target, root))
}

fn done<H: SimpleHasher>(rec: JellyfishMerkleRestore<H>, boxed: bool) -> anyhow::Result<()> {
    if boxed {
        Box::new(rec).finish_box()
    } else {
        rec.finish()
    }
}

fn run_c11<H: SimpleHasher, D: Back>(store: Arc<D>, target: u64, src: &Source<H>, r: &mut Rng, st: &mut Stats, log: &mut Vec<String>) -> R<()> {
    let n = src.all.len();
    let mut rec = open::<H, D>(&store, target, src.root)?;
    let mut i = 0;
    let style = r.below(4);
    let interrupt = *r.pick(&[0usize, 20, 50, 100]);
    let mut interruptions = 0;
    while i < n {
        let len = match style {
            _ if r.big => r.range(200, n.max(200)),
            0 => 1,
            1 => r.range(1, 3),
            2 => r.range(1, n - i),
            _ => r.range(1, 8),
        }
        .min(n - i);
        let p = range_proof(src, i + len - 1)?;
        log.push(format!("chunk {i}..{}", i + len));
        must(|| format!("add_chunk of entries {i}..{} of {n}", i + len), || rec.add_chunk(src.all[i..i + len].to_vec(), range_to_jmt(&p).map_err(|e| anyhow::anyhow!("{e:?}"))?))?;
        st.inc("chunks_accepted");
        i += len;
        if interruptions < 40 && r.chance(interrupt) {
            drop(rec);
            interruptions += 1;
            st.inc("interruptions");
            let last = must(|| "get_rightmost_leaf".into(), || store.get_rightmost_leaf())?;
            i = match last {
                None => 0,
                Some((k, l)) => {
                    chk!(k.version() == target, "a leaf of version {} was stored while restoring {target}", k.version());
                    src.all.partition_point(|e| e.0 <= l.key_hash())
                }
            };
            log.push(format!("interrupted; resuming from entry {i}"));
            st.peak("resumed_at_entry", i as u64);
            rec = open::<H, D>(&store, target, src.root)?;
            if i > 0 {
                st.inc("resumptions_mid_tree");
            }
        }
    }
    must(|| format!("finish after {n} entries"), || done(rec, r.chance(30)))?;
    log.push("finish".into());
    st.inc("restorations_finished");
    if n == 0 {
        st.inc("empty_trees_restored");
    }
    Ok(())
}

/// More entries than fit sixteen bits: counts, indexes and chunks of that size.
fn enormous<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let n = 65_536 + r.range(300, 2000);
    // nearly all of them below one inner node
    let (base, depth) = (r.bytes32(), 4 * r.range(1, 20));
    let ops: Vec<Op> = (0..n)
        .map(|i| {
            let k = r.bytes32();
            (KeyHash(if i < 100 { k } else { splice(&base, &k, depth) }), Some((i as u32).to_be_bytes().to_vec()))
        })
        .collect();
    let mut w = World::<H>::new(0);
    w.commit(&[ops], Entry::Plain)?;
    let s = w.snaps[0].clone();
    let all: Chunk = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
    let root = RootHash(root::<H>(&s.map));
    chk!(w.cur_root() == root, "root of {n} entries is {:?}, expected {root:?}", w.cur_root());
    let src = Source { w, s, all, root };
    (cx.sample, cx.nontrivial, cx.sig) = (format!("{n} random entries, restored in chunks of thousands"), true, n as u64);
    cx.desc = format!("{n} entries at version 0, all but 100 of them below bit {depth}\n");
    let target = pick_target(r);
    let store = Arc::new(MonStore::new());
    let mut rec = open::<H, _>(&store, target, src.root)?;
    let mut i = 0;
    while i < n {
        let len = r.range(5_000, 30_000).min(n - i);
        let p = range_to_jmt(&range_proof(&src, i + len - 1)?)?;
        must(|| format!("add_chunk of entries {i}..{} of {n}", i + len), || rec.add_chunk(src.all[i..i + len].to_vec(), p))?;
        i += len;
        st.inc("chunks_accepted");
        if r.chance(50) {
            drop(rec);
            rec = open::<H, _>(&store, target, src.root)?;
            // all but the last entry are known to be written
            i -= 1;
            st.inc("resumptions_mid_tree");
        }
    }
    must(|| format!("finish after {n} entries"), || done(rec, false))?;
    st.peak("entries_restored", n as u64);
    let wk = check_walk::<H>(&store, target, &src.s.map, "restored")?;
    chk!(store.node_count() == wk.paths.len(), "restoring left {} nodes in storage, the restored version has {}", store.node_count(), wk.paths.len());
    for (store, v, what) in [(&src.w.store, 0, "the source"), (&store, target, "the restored version")] {
        let c = must(|| format!("get_leaf_count of {what}"), || JellyfishMerkleTree::<_, H>::new(&**store).get_leaf_count(v))?;
        chk!(c == n, "leaf count of {what} is {c}, it has {n} entries");
        for i in [65_535, 65_536, n - 1, n] {
            let what = format!("iteration of {what} by index {i} ({n} entries)");
            let mut it = must(|| what.clone(), || JellyfishMerkleIterator::new_by_index(store.clone(), v, i))?;
            chk!(drain(&mut it, n + 1, &what)? == src.all[i..], "{what}: wrong entries");
        }
    }
    let pool: Vec<KeyHash> = src.s.map.keys().copied().collect();
    check_restored(&store, target, &src, &pool, r, st)
}

pub fn c11<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    if cx.idx % 20_000 == 777 {
        return enormous::<H>(cx);
    }
    let src = source::<H>(cx, if cx.idx % 8 == 0 { 0 } else { 1 })?;
    let pool: Vec<KeyHash> = src.w.snaps.iter().flat_map(|s| s.map.keys().copied()).chain([KeyHash([7; 32])]).collect();
    let mut log = vec![format!("source version {} with {} entries", src.s.version, src.all.len())];
    let res = (|| -> R<()> {
        let (r, st) = (&mut cx.rng, &mut cx.stats);
        for round in 0..3 {
            let target = pick_target(r);
            log.push(format!("round {round}: restoring into version {target}"));
            if round == 1 && target != PRE_GENESIS {
                let store = Arc::new(MockTreeStore::default());
                run_c11::<H, _>(store.clone(), target, &src, r, st, &mut log)?;
                check_restored(&store, target, &src, &pool, r, st)?;
                st.inc("restored_into_mock_store");
                continue;
            }
            let store = Arc::new(MonStore::new());
            if round == 2 && src.all.len() > 1 {
                // a fresh start over the leftovers of an abandoned attempt
                let k = r.range(1, src.all.len());
                let mut rec = open::<H, _>(&store, target, src.root)?;
                let p = range_to_jmt(&range_proof(&src, k - 1)?)?;
                must(|| format!("add_chunk of entries 0..{k}"), || rec.add_chunk(src.all[..k].to_vec(), p))?;
                drop(rec);
                let mut rec = must(|| "new_overwrite".into(), || JellyfishMerkleRestore::<H>::new_overwrite(store.clone(), target, src.root))?;
                let mut i = 0;
                while i < src.all.len() {
                    let len = r.range(1, src.all.len() - i);
                    let p = range_to_jmt(&range_proof(&src, i + len - 1)?)?;
                    must(|| format!("add_chunk (overwriting) of entries {i}..{}", i + len), || rec.add_chunk(src.all[i..i + len].to_vec(), p))?;
                    i += len;
                }
                must(|| "finish (overwriting)".into(), || done(rec, false))?;
                st.inc("overwriting_restorations");
            } else {
                run_c11::<H, _>(store.clone(), target, &src, r, st, &mut log)?;
            }
            let wk = check_walk::<H>(&store, target, &src.s.map, "restored")?;
            chk!(
                store.node_count() == wk.paths.len(),
                "restoring left {} nodes in storage, the restored version has {}",
                store.node_count(),
                wk.paths.len()
            );
            check_restored(&store, target, &src, &pool, r, st)?;
        }
        Ok(())
    })();
    cx.note(&log.join("\n"));
    res
}

/// One tampered delivery. Returns what was done.
fn tamper<H: SimpleHasher>(r: &mut Rng, src: &Source<H>, i: usize, chunk: &mut Chunk, proof: &mut Vec<SNode>, donors: &[SNode]) -> R<String> {
    let n = src.all.len();
    let c = chunk.len();
    Ok(match r.below(16) {
        0 if c > 1 => {
            let x = r.below(c);
            chunk.remove(x);
            format!("entry {x} of the chunk missing")
        }
        1 => {
            let x = r.below(c);
            if chunk[x].1.is_empty() || r.chance(30) {
                chunk[x].1.push(r.u64() as u8);
            } else {
                let y = r.below(chunk[x].1.len());
                chunk[x].1[y] ^= 1 << r.below(8);
            }
            format!("value {x} of the chunk altered")
        }
        2 => {
            let x = r.below(c);
            chunk[x].0 = KeyHash(flip(&chunk[x].0 .0, pick_depth(r)));
            format!("key {x} of the chunk altered")
        }
        3 => {
            // an added entry, in order
            let style = r.below(6);
            let keys: Vec<KeyHash> = src.all.iter().map(|e| e.0).collect();
            let k = new_key(r, &keys, style);
            if !chunk.iter().any(|e| e.0 == k) {
                chunk.push((k, vec![r.u64() as u8]));
                if r.chance(85) {
                    chunk.sort();
                }
            }
            format!("entry {} added", hx(&k.0))
        }
        4 if c > 1 => {
            let x = r.below(c - 1);
            chunk.swap(x, x + 1);
            "two entries swapped".into()
        }
        5 => {
            let x = r.below(c);
            let e = chunk[x].clone();
            chunk.insert(x, e);
            "an entry repeated".into()
        }
        6 if i > 0 => {
            let x = r.below(i);
            let e = src.all[x..i].to_vec();
            let mut v = e;
            v.append(chunk);
            *chunk = v;
            format!("entries {x}..{i} sent again")
        }
        7 if i + c < n => {
            let k = r.range(1, n - i - c);
            chunk.extend(src.all[i + c..i + c + k].iter().cloned());
            "entries beyond the proof's bound".into()
        }
        8 if i + c < n => {
            // skip entries: a later chunk with its own proof
            let a = r.range(i + 1, n - 1);
            let b = r.range(a, n - 1);
            *chunk = src.all[a..=b].to_vec();
            *proof = range_proof(src, b)?;
            format!("entries {i}..{a} skipped")
        }
        9 if c > 1 => {
            // drop a tail, keep the proof
            let k = r.range(1, c - 1);
            chunk.truncate(k);
            "chunk shorter than its proof".into()
        }
        10 if c > 2 => {
            let x = r.range(1, c - 2);
            chunk.drain(x..r.range(x + 1, c - 1));
            "a run in the middle missing".into()
        }
        11 => {
            *proof = range_proof(src, r.below(n))?;
            "range proof of another entry".into()
        }
        12 => {
            chunk.clear();
            "no entries at all".into()
        }
        13 => {
            *proof = (0..r.below(300)).map(|_| rand_node(r)).collect();
            "random siblings".into()
        }
        _ => {
            mutate_nodes(r, proof, donors);
            "siblings mutated".into()
        }
    })
}

pub fn c12<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let src = source::<H>(cx, 1)?;
    let pool: Vec<KeyHash> = src.w.snaps.iter().flat_map(|s| s.map.keys().copied()).chain([KeyHash([7; 32])]).collect();
    let mut log = vec![format!("source version {} with {} entries", src.s.version, src.all.len())];
    let thorough = cx.thorough;
    let res = (|| -> R<()> {
        let (r, st) = (&mut cx.rng, &mut cx.stats);
        let keys: Vec<KeyHash> = src.all.iter().map(|e| e.0).collect();
        let donors = all_nodes::<H>(&entries::<H>(&src.s.map), &keys, 60);
        let target = pick_target(r);
        // what any correct restoration of this source stores at this version
        let truth = Arc::new(MonStore::new());
        restore_into::<H>(&truth, target, &src.s.map, r)?;
        let subset = |s: &MonStore, what: &str| -> R<()> {
            let (a, b) = (s.s.borrow(), truth.s.borrow());
            for (k, n) in &a.nodes {
                chk!(b.nodes.get(k) == Some(n), "{what}: storage holds {k:?} = {n:?}, which is not part of the expected tree");
            }
            for (k, h) in &a.values {
                for (v, x) in h {
                    chk!(
                        *v == ord(target) && x.as_ref() == src.s.map.get(k),
                        "{what}: storage holds a value for {} that is not part of the expected tree",
                        hx(&k.0)
                    );
                }
            }
            Ok(())
        };
        let n = src.all.len();
        for round in 0..if thorough { 30 } else { 12 } {
            let store = Arc::new(MonStore::new());
            let mut rec = open::<H, _>(&store, target, src.root)?;
            log.push(format!("round {round} into version {target}"));
            // honest progress, perhaps interrupted
            let mut i = 0;
            for _ in 0..r.below(4) {
                if i + 1 >= n {
                    break;
                }
                let len = r.range(1, n - i - 1);
                let p = range_to_jmt(&range_proof(&src, i + len - 1)?)?;
                must(|| format!("add_chunk of entries {i}..{}", i + len), || rec.add_chunk(src.all[i..i + len].to_vec(), p))?;
                log.push(format!(" honest chunk {i}..{}", i + len));
                i += len;
            }
            if i > 0 && r.chance(40) {
                drop(rec);
                rec = open::<H, _>(&store, target, src.root)?;
                i = match must(|| "get_rightmost_leaf".into(), || store.get_rightmost_leaf())? {
                    None => 0,
                    Some((_, l)) => src.all.partition_point(|e| e.0 <= l.key_hash()),
                };
                log.push(format!(" resumed at {i}"));
                st.inc("attacks_on_resumed");
            }
            let before = store.snapshot();
            store.writes.set(0);
            match r.below(10) {
                0 => {
                    // finishing although entries are missing
                    if i >= n {
                        continue;
                    }
                    let e = guard(|| format!("finish after {i} of {n} entries"), || done(rec, r.chance(50)))?;
                    chk!(e.is_err(), "finish succeeded after {i} of {n} entries");
                    chk!(store.writes.get() == 0 && store.snapshot().nodes == before.nodes, "a refused finish wrote to storage");
                    chk!(store.node(&root_key(target)).is_none(), "a refused finish left a root");
                    st.inc("truncated_finish_refused");
                }
                1 => {
                    // another expected root altogether
                    let mut bad = src.root;
                    bad.0[r.below(32)] ^= 1 << r.below(8);
                    let store = Arc::new(MonStore::new());
                    let mut rec = open::<H, _>(&store, target, bad)?;
                    let len = r.range(1, n);
                    let p = range_to_jmt(&range_proof(&src, len - 1)?)?;
                    let e = guard(|| "add_chunk under another root".into(), || rec.add_chunk(src.all[..len].to_vec(), p))?;
                    chk!(e.is_err() && store.writes.get() == 0, "a chunk was accepted under another root");
                    let e = guard(|| "finish under another root".into(), || done(rec, false))?;
                    chk!(e.is_err() && store.writes.get() == 0, "finish succeeded under another root");
                    st.inc("other_root_refused");
                }
                2 => {
                    // the storage refuses the write
                    let len = r.range(1, n - i);
                    let p = range_proof(&src, i + len - 1)?;
                    store.fail_write.set(true);
                    let e = guard(|| "add_chunk with failing storage".into(), || rec.add_chunk(src.all[i..i + len].to_vec(), range_to_jmt(&p).map_err(|e| anyhow::anyhow!("{e:?}"))?))?;
                    chk!(e.is_err(), "add_chunk reported success although the write failed");
                    store.fail_write.set(false);
                    st.inc("write_faults");
                    if r.chance(50) {
                        // go on with the same receiver
                        i += len;
                        let mut ok = true;
                        while i < n && ok {
                            let len = r.range(1, n - i);
                            let p = range_to_jmt(&range_proof(&src, i + len - 1)?)?;
                            ok = guard(|| "add_chunk after a write fault".into(), || rec.add_chunk(src.all[i..i + len].to_vec(), p))?.is_ok();
                            i += len;
                        }
                        let e = guard(|| "finish after a write fault".into(), || done(rec, false))?;
                        if e.is_ok() {
                            check_walk::<H>(&store, target, &src.s.map, "restored after a write fault")?;
                            check_restored(&store, target, &src, &pool, r, st)?;
                            st.inc("continued_after_write_fault");
                        }
                        continue;
                    }
                    drop(rec);
                    resume_and_finish(&store, target, &src, &pool, r, st)?;
                }
                3 => {
                    // the storage refuses the final write
                    let len = n - i;
                    if len > 0 {
                        let p = range_to_jmt(&range_proof(&src, n - 1)?)?;
                        must(|| "add_chunk of the rest".into(), || rec.add_chunk(src.all[i..].to_vec(), p))?;
                    }
                    store.fail_write.set(true);
                    let e = guard(|| "finish with failing storage".into(), || done(rec, r.chance(50)))?;
                    chk!(e.is_err(), "finish reported success although the write failed");
                    store.fail_write.set(false);
                    st.inc("write_faults");
                    resume_and_finish(&store, target, &src, &pool, r, st)?;
                }
                _ => {
                    let len = r.range(1, n - i);
                    let mut chunk = src.all[i..i + len].to_vec();
                    let mut proof = range_proof(&src, i + len - 1)?;
                    let mut what = tamper(r, &src, i, &mut chunk, &mut proof, &donors)?;
                    if r.chance(15) {
                        if chunk.is_empty() {
                            continue;
                        }
                        what += " and ";
                        what += &tamper(r, &src, i, &mut chunk, &mut proof, &donors)?;
                    }
                    // what was delivered may still be the truth
                    let c = chunk.len();
                    let true_entries = c > 0 && i + c <= n && chunk[..] == src.all[i..i + c];
                    let true_proof = true_entries && {
                        let h = range_proof(&src, i + c - 1)?;
                        h.len() == proof.len() && h.iter().zip(&proof).all(|(a, b)| a.hash::<H>() == b.hash::<H>())
                    };
                    log.push(format!(" {what} at {i}: {} entries, {} siblings", chunk.len(), proof.len()));
                    let jp = range_to_jmt(&proof)?;
                    let e = guard(|| format!("add_chunk ({what}) at entry {i} of {n}"), || rec.add_chunk(chunk.clone(), jp))?;
                    if true_proof {
                        st.inc("harmless_tampering");
                        chk!(e.is_ok(), "a chunk with true entries and proof was refused: {e:?}");
                        continue;
                    }
                    chk!(e.is_err(), "a chunk was accepted although tampered with: {what} (at entry {i} of {n})");
                    chk!(store.writes.get() == 0, "a rejected chunk was written to storage: {what}");
                    let now = store.snapshot();
                    chk!(now.nodes == before.nodes && now.values == before.values, "a rejected chunk changed storage: {what}");
                    st.inc(if true_entries { "chunks_rejected_for_proof" } else { "chunks_rejected_for_entries" });
                    if r.chance(50) {
                        // the same receiver is fed the true rest: whatever it does, only the truth may be stored
                        let mut j = i;
                        if r.chance(50) && i + 1 < n {
                            j = r.range(i, n - 1);
                        }
                        while j < n {
                            let len = r.range(1, n - j);
                            let p = range_to_jmt(&range_proof(&src, j + len - 1)?)?;
                            let e = guard(|| format!("add_chunk of entries {j}.. after a rejected chunk ({what})"), || rec.add_chunk(src.all[j..j + len].to_vec(), p))?;
                            subset(&store, "after a rejected chunk")?;
                            j += len;
                            if e.is_err() && r.chance(70) {
                                break;
                            }
                        }
                        let e = guard(|| format!("finish after a rejected chunk ({what})"), || done(rec, false))?;
                        subset(&store, "after a rejected chunk and finish")?;
                        if e.is_ok() {
                            check_walk::<H>(&store, target, &src.s.map, "restored by the receiver that had rejected a chunk")?;
                            st.inc("same_receiver_recovered");
                        } else {
                            chk!(store.node(&root_key(target)).is_none(), "a refused finish left a root");
                        }
                        st.inc("same_receiver_continued");
                    } else {
                        drop(rec);
                        resume_and_finish(&store, target, &src, &pool, r, st)?;
                    }
                }
            }
            subset(&store, "at the end of the round").or_else(|e| {
                // rounds that go on to update the tree hold more than the restored version
                if store.s.borrow().stale.is_empty() && !store.s.borrow().nodes.keys().any(|k| k.version() != target) {
                    Err(e)
                } else {
                    Ok(())
                }
            })?;
        }
        Ok(())
    })();
    cx.note(&log.join("\n"));
    res
}

fn resume_and_finish<H: SimpleHasher>(store: &Arc<MonStore>, target: u64, src: &Source<H>, pool: &[KeyHash], r: &mut Rng, st: &mut Stats) -> R<()> {
    let n = src.all.len();
    let mut i = match must(|| "get_rightmost_leaf".into(), || store.get_rightmost_leaf())? {
        None => 0,
        Some((_, l)) => src.all.partition_point(|e| e.0 <= l.key_hash()),
    };
    let mut rec = open::<H, _>(store, target, src.root)?;
    while i < n {
        let len = r.range(1, n - i);
        let p = range_to_jmt(&range_proof(src, i + len - 1)?)?;
        must(|| format!("add_chunk of entries {i}..{} after a failed attempt", i + len), || rec.add_chunk(src.all[i..i + len].to_vec(), p))?;
        i += len;
    }
    must(|| "finish after a failed attempt".into(), || done(rec, false))?;
    check_walk::<H>(store, target, &src.s.map, "restored after a failed attempt")?;
    check_restored(store, target, src, pool, r, st)?;
    st.inc("recovered_restorations");
    Ok(())
}
