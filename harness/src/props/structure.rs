//! C10 iteration, C13 pruning, C14 stale reporting, C15 purity and crash repeatability, C16 well-formedness,
//! C17 counts, C18 write-path equivalence, C21 append, C25 pre-genesis, C26 locality.
use super::proofs::check_exclusion;
use super::reads::check_reads;
use crate::core::*;
use crate::forge::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::store::*;
use crate::walk::*;
use crate::world::*;
use jmt::restore::StateSnapshotReceiver;
use jmt::storage::{Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch};
use jmt::{JellyfishMerkleIterator, KeyHash, MissingRootError, RootHash, SimpleHasher};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Drives an iterator to its end (bounded) and checks it stays ended.
pub fn drain<I: Iterator<Item = anyhow::Result<(KeyHash, Vec<u8>)>>>(it: &mut I, max: usize, what: &str) -> R<Vec<(KeyHash, Vec<u8>)>> {
    let mut out = vec![];
    loop {
        match guard(|| what.to_string(), || it.next())? {
            None => break,
            Some(Err(e)) => vio!("{what}: item {} is an error: {e:#}", out.len()),
            Some(Ok(x)) => out.push(x),
        }
        chk!(out.len() <= max, "{what}: yields more than {max} items: last {:?}", out.last().map(|x| hx(&x.0 .0)));
    }
    for _ in 0..3 {
        chk!(guard(|| what.to_string(), || it.next())?.is_none(), "{what}: yields again after it ended");
    }
    Ok(out)
}

pub fn check_iter<H: SimpleHasher, D: TreeReader>(store: &Arc<D>, v: u64, map: &Map, start: KeyHash, ctx: &str) -> R<u64> {
    let what = format!("{ctx}: iteration of version {v} from {} ({} entries)", hx(&start.0), map.len());
    let mut it = must(|| what.clone(), || JellyfishMerkleIterator::new(store.clone(), v, start))?;
    let got = drain(&mut it, map.len() + 1, &what)?;
    let want: Vec<(KeyHash, Vec<u8>)> = map.range(start..).map(|(k, v)| (*k, v.clone())).collect();
    chk!(
        got == want,
        "{what}: got {} items {:?}.., expected {} {:?}..",
        got.len(),
        got.first().map(|x| hx(&x.0 .0)),
        want.len(),
        want.first().map(|x| hx(&x.0 .0))
    );
    Ok(want.len() as u64)
}

pub fn check_iter_idx<D: TreeReader>(store: &Arc<D>, v: u64, map: &Map, i: usize, ctx: &str) -> R<u64> {
    let what = format!("{ctx}: iteration of version {v} by index {i} ({} entries)", map.len());
    let mut it = must(|| what.clone(), || JellyfishMerkleIterator::new_by_index(store.clone(), v, i))?;
    let got = drain(&mut it, map.len() + 1, &what)?;
    let want: Vec<(KeyHash, Vec<u8>)> = map.iter().skip(i).map(|(k, v)| (*k, v.clone())).collect();
    chk!(got == want, "{what}: got {} items, expected {}", got.len(), want.len());
    Ok(want.len() as u64)
}

pub fn c10<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    for s in w.snaps.clone() {
        let n = s.map.len();
        let mut starts = probes(r, &plan.pool, &s.map, if n > 60 { 6 } else { 20 });
        if n <= 40 {
            for k in s.map.keys() {
                starts.push(*k);
                starts.extend(succ(&k.0).map(KeyHash));
                starts.extend(pred(&k.0).map(KeyHash));
            }
        }
        for k in starts {
            st.add("items_yielded", check_iter::<H, _>(&w.store, s.version, &s.map, k, "iter")?);
            st.inc("iterations_by_key");
        }
        let mut idx: Vec<usize> = if n <= 40 { (0..n + 3).collect() } else { (0..6).map(|_| r.below(n)).chain([0, 1, n - 1, n, n + 1]).collect() };
        idx.extend([usize::MAX, usize::MAX - 1, 1 << 40]);
        for i in idx {
            st.add("items_yielded", check_iter_idx(&w.store, s.version, &s.map, i, "iter")?);
            st.inc("iterations_by_index");
        }
        if n == 0 {
            st.inc("empty_versions");
        }
        if n == 1 {
            st.inc("single_leaf_versions");
        }
    }
    if r.chance(40) {
        huge_iteration(&w, r, st)?;
    }
    Ok(())
}

pub fn c16<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    for s in w.snaps.clone() {
        let wk = check_walk::<H>(&w.store, s.version, &s.map, "after all commits")?;
        st.add("nodes_checked", wk.paths.len() as u64);
        st.peak("path_nibbles", wk.paths.keys().map(|p| p.len()).max().unwrap_or(0) as u64);
        st.inc("versions_walked");
    }
    // again after pruning some prefix of the history
    let i = r.below(w.snaps.len());
    w.store.prune(w.snaps[i].version)?;
    for s in &w.snaps[i..] {
        let wk = check_walk::<H>(&w.store, s.version, &s.map, "after pruning")?;
        st.add("nodes_checked", wk.paths.len() as u64);
    }
    Ok(())
}

/// Everything a version answers, byte-exact.
#[derive(PartialEq, Clone)]
pub struct Answers {
    items: Vec<(String, Vec<u8>)>,
}
pub fn answers<H: SimpleHasher>(w: &World<H>, s: &Snap, keys: &[KeyHash], st: &mut Stats) -> R<Answers> {
    let t = w.tree();
    let v = s.version;
    let mut a = Answers { items: vec![] };
    let rh = must(|| format!("get_root_hash({v})"), || t.get_root_hash(v))?;
    a.items.push(("root".into(), rh.0.to_vec()));
    let lc = must(|| format!("get_leaf_count({v})"), || t.get_leaf_count(v))?;
    a.items.push(("count".into(), lc.to_be_bytes().to_vec()));
    for k in keys {
        let (val, p) = must(|| format!("get_with_proof({}) at {v}", hx(&k.0)), || t.get_with_proof(*k, v))?;
        a.items.push((format!("proof {}", hx(&k.0)), borsh::to_vec(&(val.clone(), from_jmt(&p)?)).unwrap()));
        let g = must(|| format!("get({}) at {v}", hx(&k.0)), || t.get(*k, v))?;
        a.items.push((format!("get {}", hx(&k.0)), borsh::to_vec(&g).unwrap()));
        if s.map.contains_key(k) {
            let p = must(|| format!("get_range_proof({}) at {v}", hx(&k.0)), || t.get_range_proof(*k, v))?;
            a.items.push((format!("range {}", hx(&k.0)), borsh::to_vec(&p).unwrap()));
        } else if !s.map.is_empty() {
            check_exclusion(w, s, RootHash(root::<H>(&s.map)), k, st)?;
        }
        st.inc("answers_recorded");
    }
    let what = format!("iteration of version {v}");
    let start = keys.first().copied().unwrap_or(KeyHash([0; 32]));
    for from in [KeyHash([0; 32]), start] {
        let mut it = must(|| what.clone(), || JellyfishMerkleIterator::new(w.store.clone(), v, from))?;
        a.items.push(("iter".into(), borsh::to_vec(&drain(&mut it, s.map.len() + 1, &what)?).unwrap()));
    }
    let mut it = must(|| what.clone(), || JellyfishMerkleIterator::new_by_index(w.store.clone(), v, s.map.len() / 2))?;
    a.items.push(("iter by index".into(), borsh::to_vec(&drain(&mut it, s.map.len() + 1, &what)?).unwrap()));
    Ok(a)
}
fn same(a: &Answers, b: &Answers, ctx: &str) -> R<()> {
    for (x, y) in a.items.iter().zip(&b.items) {
        chk!(x == y, "{ctx}: {} changed", x.0);
    }
    chk!(a.items.len() == b.items.len(), "{ctx}: number of answers changed");
    Ok(())
}

/// A read at a version that may be (partly) gone: the right answer or an error.
fn weak_read<H: SimpleHasher>(w: &World<H>, s: &Snap, k: &KeyHash, st: &mut Stats) -> R<()> {
    let t = w.tree();
    let v = s.version;
    let root_gone = w.store.node(&root_key(v)).is_none();
    let want = s.map.get(k);
    let root = RootHash(root::<H>(&s.map));
    let miss = |e: &anyhow::Error, what: &str| -> R<()> {
        if root_gone {
            chk!(
                e.downcast_ref::<MissingRootError>().map(|m| m.version) == Some(v),
                "{what} at pruned version {v}: error does not name the missing root: {e:#}"
            );
        }
        Ok(())
    };
    match guard(|| format!("get at pruned version {v}"), || t.get(*k, v))? {
        Ok(x) => {
            chk!(x.as_ref() == want, "get({}) at pruned version {v} gave {:?}", hx(&k.0), x.map(|v| short(&v)));
            st.inc("pruned_version_correct_answers");
        }
        Err(_) => st.inc("pruned_version_errors"),
    }
    match guard(|| format!("get_with_proof at pruned version {v}"), || t.get_with_proof(*k, v))? {
        Ok((x, p)) => {
            chk!(x.as_ref() == want, "get_with_proof at pruned version {v} gave a wrong value");
            chk!(
                p.verify(root, *k, want.map(|v| v.as_slice())).is_ok(),
                "get_with_proof at pruned version {v} gave a proof that does not verify"
            );
        }
        Err(e) => {
            miss(&e, "get_with_proof")?;
            st.inc("pruned_version_errors");
        }
    }
    match guard(|| format!("get_root_hash at pruned version {v}"), || t.get_root_hash(v))? {
        Ok(x) => chk!(x == root && !root_gone, "get_root_hash at pruned version {v} gave {x:?}"),
        Err(e) => {
            chk!(root_gone, "get_root_hash({v}) failed although the root is there: {e:#}");
        }
    }
    match guard(|| format!("get_root_hash_option at pruned version {v}"), || t.get_root_hash_option(v))? {
        Ok(x) => chk!(x == if root_gone { None } else { Some(root) }, "get_root_hash_option at pruned version {v} gave {x:?}"),
        Err(e) => vio!("get_root_hash_option({v}) failed: {e:#}"),
    }
    match guard(|| format!("get_leaf_count at pruned version {v}"), || t.get_leaf_count(v))? {
        Ok(n) => chk!(!root_gone && n == s.map.len(), "get_leaf_count at pruned version {v} gave {n}"),
        Err(e) => chk!(root_gone, "get_leaf_count({v}) failed although the root is there: {e:#}"),
    }
    match guard(|| format!("get_with_exclusion_proof at pruned version {v}"), || t.get_with_exclusion_proof(*k, v))? {
        Err(e) => miss(&e, "get_with_exclusion_proof")?,
        Ok(x) => match x {
            Ok((val, p)) => chk!(
                Some(&val) == want && p.verify_existence(root, *k, &val).is_ok(),
                "get_with_exclusion_proof at pruned version {v}: wrong value"
            ),
            Err(_) => chk!(want.is_none(), "get_with_exclusion_proof at pruned version {v}: denies a present key"),
        },
    }
    if want.is_some() {
        let p = guard(|| format!("get_range_proof at pruned version {v}"), || t.get_range_proof(*k, v))?;
        if let Err(e) = &p {
            miss(e, "get_range_proof")?;
        }
        if let Ok(p) = p {
            let es = entries::<H>(&s.map);
            let right = range_from_jmt(&p)?;
            let i = es.iter().position(|e| e.0 == k.0).unwrap();
            let l = left_for_range::<H>(&es[..=i], &k.0, right.len());
            chk!(
                p.verify(root, leaf_to_jmt(&es[i].0, &es[i].1)?, l).is_ok(),
                "get_range_proof at pruned version {v} gave a proof that does not verify"
            );
        }
    }
    // iteration: a correct prefix, then the end or an error
    if let Ok(mut it) = guard(|| format!("iterator at pruned version {v}"), || JellyfishMerkleIterator::new(w.store.clone(), v, *k))? {
        let mut want = s.map.range(*k..);
        for _ in 0..s.map.len() + 2 {
            match guard(|| format!("iterating pruned version {v}"), || it.next())? {
                None => {
                    chk!(want.next().is_none(), "iteration of pruned version {v} ended early without an error");
                    break;
                }
                Some(Err(_)) => break,
                Some(Ok((k, val))) => {
                    chk!(want.next() == Some((&k, &val)), "iteration of pruned version {v} yields a wrong entry {}", hx(&k.0))
                }
            }
        }
    }
    Ok(())
}

pub fn c13<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    cfg.versions.0 = cfg.versions.0.max(2);
    cfg.versions.1 = cfg.versions.1.max(3);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    let mut oldest = 0usize; // first version that must stay readable
    let gs = groups(plan, r);
    for (gi, g) in gs.iter().enumerate() {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        w.commit(sets, e)?;
        count_ops(sets, e, st);
        let last = gi + 1 == gs.len();
        if !(last || r.chance(30)) {
            continue;
        }
        let n = w.snaps.len();
        let p = if r.chance(30) { n - 1 } else { r.range(oldest, n - 1) };
        let mut before = vec![];
        for s in &w.snaps[p..] {
            let keys = probes(r, &plan.pool, &s.map, 8);
            before.push((keys.clone(), answers(&w, s, &keys, st)?));
        }
        if r.chance(35) {
            // a pruner interrupted half-way: an arbitrary subset of what is stale is gone
            let f = w.fork();
            {
                let mut s = f.store.s.borrow_mut();
                let share = *r.pick(&[10usize, 50, 90]);
                let mut idx: Vec<StaleNodeIndex> =
                    s.stale.iter().filter(|i| ord(i.stale_since_version) <= ord(f.snaps[p].version)).cloned().collect();
                if r.chance(40) {
                    // keep the roots: the tree looks alive but has holes
                    idx.retain(|i| !i.node_key.nibble_path().is_empty());
                }
                for i in idx {
                    if r.chance(share) {
                        s.nodes.remove(&i.node_key);
                        s.stale.remove(&i);
                    }
                }
            }
            for (s, (keys, b)) in f.snaps[p..].iter().zip(&before) {
                same(b, &answers(&f, s, keys, st)?, &format!("version {} while pruning up to {}", s.version, f.snaps[p].version))?;
            }
            for s in f.snaps[oldest..p].to_vec() {
                for k in probes(r, &plan.pool, &s.map, 4).iter().take(8) {
                    weak_read(&f, &s, k, st)?;
                }
            }
            st.inc("interrupted_prunings");
        }
        let removed = w.store.prune(w.snaps[p].version)?;
        st.add("nodes_pruned", removed as u64);
        st.inc("prunings");
        oldest = oldest.max(p);
        for (s, (keys, b)) in w.snaps[p..].iter().zip(&before) {
            let a = answers(&w, s, keys, st)?;
            same(b, &a, &format!("version {} after pruning up to {}", s.version, w.snaps[p].version))?;
            let keys = probes(r, &plan.pool, &s.map, 6);
            check_reads(&w, s, &keys, st, "after pruning")?;
            st.inc("retained_versions_compared");
        }
        for i in 0..p {
            let s = w.snaps[i].clone();
            let keys = probes(r, &plan.pool, &s.map, 4);
            for k in keys.iter().take(8) {
                weak_read(&w, &s, k, st)?;
            }
        }
    }
    Ok(())
}

pub fn c14<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    let mut reports: Vec<StaleNodeIndex> = vec![];
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        let o = w.commit(sets, e)?;
        reports.extend(o.batch.stale_node_index_batch.iter().cloned());
        count_ops(sets, e, st);
    }
    let mut walks = vec![];
    let mut versions: Vec<u64> = w.snaps.iter().map(|s| s.version).collect();
    if plan.pre.is_some() {
        versions.insert(0, PRE_GENESIS);
    }
    for v in &versions {
        let Some(x) = reach(&w.store, *v) else { vio!("version {v} is not fully stored") };
        walks.push(x.keys());
    }
    // exactly once, at the first version that no longer needs it
    let mut want: BTreeSet<StaleNodeIndex> = BTreeSet::new();
    for i in 1..walks.len() {
        for k in walks[i - 1].difference(&walks[i]) {
            want.insert(StaleNodeIndex { stale_since_version: versions[i], node_key: k.clone() });
        }
    }
    let got: BTreeSet<StaleNodeIndex> = reports.iter().cloned().collect();
    chk!(got.len() == reports.len(), "a node was reported stale more than once at the same version");
    for x in got.difference(&want) {
        vio!("{x:?} was reported stale, but no version stops needing that node there");
    }
    for x in want.difference(&got) {
        vio!("{x:?} was never reported: the node became unreachable at that version");
    }
    st.add("stale_reports_matched", got.len() as u64);
    let all: BTreeSet<NodeKey> = walks.iter().flatten().cloned().collect();
    let stored: BTreeSet<NodeKey> = w.store.s.borrow().nodes.keys().cloned().collect();
    if let Some(x) = stored.difference(&all).next() {
        vio!("{x:?} was stored although no version ever reaches it");
    }
    st.add("stored_nodes_accounted", stored.len() as u64);
    // pruning step by step, then to the latest version
    for i in 0..walks.len() {
        if versions[i] == PRE_GENESIS || (i + 1 < walks.len() && r.chance(50)) {
            continue;
        }
        w.store.prune(versions[i])?;
        let stored: BTreeSet<NodeKey> = w.store.s.borrow().nodes.keys().cloned().collect();
        let need: BTreeSet<NodeKey> = walks[i..].iter().flatten().cloned().collect();
        if let Some(x) = stored.difference(&need).next() {
            vio!("after pruning up to version {} storage still holds unreachable {x:?}", versions[i]);
        }
        if let Some(x) = need.difference(&stored).next() {
            vio!("after pruning up to version {} storage lost {x:?}", versions[i]);
        }
        st.inc("prunings_compared");
    }
    Ok(())
}

fn written_versions_ok(b: &TreeUpdateBatch, first: u64, n: usize, store: &MonStore) -> R<()> {
    let range = first..first + n as u64;
    for k in b.node_batch.nodes().keys() {
        chk!(range.contains(&k.version()), "update of versions {first}..+{n} writes node {k:?}");
        chk!(store.node(k).is_none(), "update of versions {first}..+{n} overwrites stored node {k:?}");
    }
    for (v, k) in b.node_batch.values().keys() {
        chk!(range.contains(v), "update of versions {first}..+{n} writes a value of version {v}");
        chk!(
            store.s.borrow().values.get(k).map(|h| !h.contains_key(&ord(*v))).unwrap_or(true),
            "update of versions {first}..+{n} overwrites a stored value of {} at {v}",
            hx(&k.0)
        );
    }
    for s in &b.stale_node_index_batch {
        chk!(range.contains(&s.stale_since_version), "update of versions {first}..+{n} reports {s:?}");
    }
    Ok(())
}

/// A random part of what an update would have written.
fn partial(b: &TreeUpdateBatch, r: &mut Rng) -> TreeUpdateBatch {
    let mut p = TreeUpdateBatch::default();
    let density = *r.pick(&[0usize, 15, 50, 85, 100]);
    let order: bool = r.chance(30); // a prefix in key order instead of an arbitrary subset
    let n = b.node_batch.nodes().len();
    let cut = r.below(n + 1);
    for (i, (k, x)) in b.node_batch.nodes().iter().enumerate() {
        if if order { i < cut } else { r.chance(density) } {
            p.node_batch.insert_node(k.clone(), x.clone());
        }
    }
    let keep_vals = r.below(3);
    let vals: BTreeMap<_, _> = b
        .node_batch
        .values()
        .iter()
        .filter(|_| keep_vals == 2 || (keep_vals == 1 && r.chance(50)))
        .map(|(k, v)| (*k, v.clone()))
        .collect();
    p.node_batch.extend(BTreeMap::<NodeKey, Node>::new(), vals);
    for s in &b.stale_node_index_batch {
        if r.chance(density) {
            p.stale_node_index_batch.insert(s.clone());
        }
    }
    p
}

pub fn c15<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    let mut ctr = 1u64 << 40;
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let first = w.next();
        let e = w.choose(sets, r);
        let (nodes0, writes0) = (w.store.node_count(), w.store.writes.get());
        let out = w.compute(sets, first, e)?;
        chk!(w.store.node_count() == nodes0 && w.store.writes.get() == writes0, "computing an update wrote to storage");
        written_versions_ok(&out.batch, first, sets.len(), &w.store)?;
        // an alternative from the same base, thrown away
        let alt = vec![gen_set(r, &cfg, &plan.pool, &w.cur(), &mut ctr)];
        let ae = w.choose(&alt, r);
        let alt_out = w.compute(&alt, first, ae)?;
        chk!(
            alt_out.roots == [RootHash(root::<H>(&apply(&w.cur(), &alt[0])))],
            "alternative update of version {first} from the same base: wrong root"
        );
        let again = w.compute(sets, first, e)?;
        chk!(again.roots == out.roots && again.batch == out.batch, "computing the same update again gave another result: {}", super::proofs::diff_batches(&out.batch, &again.batch));
        st.inc("alternatives_computed");
        // crash: some of it reaches storage
        let mut f = w.fork();
        for _ in 0..r.range(1, 2) {
            let p = partial(&out.batch, r);
            st.add("crash_leftover_nodes", p.node_batch.nodes().len() as u64);
            f.store.apply(&p)?;
            st.inc("crashes");
            for _ in 0..2 {
                if !f.snaps.is_empty() {
                    let s = r.pick(&f.snaps).clone();
                    let keys = probes(r, &plan.pool, &s.map, 6);
                    check_reads(&f, &s, &keys, st, "after a crash")?;
                    check_iter::<H, _>(&f.store, s.version, &s.map, keys[0], "after a crash")?;
                }
            }
            let redo = f.compute(sets, first, e)?;
            chk!(redo.roots == out.roots, "recomputing version {first} after a crash: other roots {:?} / {:?}", redo.roots, out.roots);
            chk!(
                redo.batch == out.batch,
                "recomputing version {first} after a crash: other changes: {}",
                super::proofs::diff_batches(&out.batch, &redo.batch)
            );
        }
        f.commit(sets, e)?;
        let n = f.snaps.len();
        for i in n - sets.len()..n {
            let s = f.snaps[i].clone();
            let keys = probes(r, &plan.pool, &s.map, 8);
            check_reads(&f, &s, &keys, st, "recovered")?;
            check_walk::<H>(&f.store, s.version, &s.map, "recovered")?;
            let rh = must(|| "get_root_hash".into(), || f.tree().get_root_hash(s.version))?;
            chk!(rh.0 == root::<H>(&s.map), "recovered version {}: wrong root", s.version);
        }
        // the original timeline goes on, either from the recovered store or the clean one
        if r.chance(50) {
            w = f;
        } else {
            w.store.apply(&out.batch)?;
            for (i, s) in sets.iter().enumerate() {
                let m = Arc::new(apply(&w.cur(), s));
                w.snaps.push(Snap { version: first + i as u64, map: m, root: out.roots[i] });
            }
        }
        count_ops(sets, e, st);
    }
    Ok(())
}

fn kind_leaf(store: &MonStore, b: &TreeUpdateBatch, k: &NodeKey) -> Option<bool> {
    b.node_batch.nodes().get(k).cloned().or_else(|| store.node(k)).map(|n| matches!(n, Node::Leaf(_)))
}

pub fn c17<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let first = w.next();
        let e = w.choose(sets, r);
        let o = w.commit(sets, e)?;
        count_ops(sets, e, st);
        chk!(o.batch.node_stats.len() == sets.len(), "{} statistics for {} versions", o.batch.node_stats.len(), sets.len());
        for (i, ns) in o.batch.node_stats.iter().enumerate() {
            let v = first + i as u64;
            let new: Vec<_> = o.batch.node_batch.nodes().iter().filter(|(k, _)| k.version() == v).collect();
            let leaves = new.iter().filter(|(_, n)| matches!(n, Node::Leaf(_))).count();
            let stale: Vec<_> = o.batch.stale_node_index_batch.iter().filter(|s| s.stale_since_version == v).collect();
            let mut sl = 0;
            for s in &stale {
                match kind_leaf(&w.store, &o.batch, &s.node_key) {
                    Some(l) => sl += l as usize,
                    None => vio!("stale {s:?} refers to a node that does not exist"),
                }
            }
            let want = (new.len(), leaves, stale.len(), sl);
            let got = (ns.new_nodes, ns.new_leaves, ns.stale_nodes, ns.stale_leaves);
            chk!(
                got == want,
                "version {v} via {e:?}: statistics (new nodes, new leaves, stale nodes, stale leaves) are {got:?}, the batch has {want:?}"
            );
            st.inc("statistics_compared");
        }
        for s in &w.snaps[g.0..g.1] {
            let n = must(|| format!("get_leaf_count({})", s.version), || w.tree().get_leaf_count(s.version))?;
            chk!(n == s.map.len(), "leaf count of version {} is {n}, it has {} entries", s.version, s.map.len());
        }
    }
    for s in &w.snaps {
        let n = must(|| format!("get_leaf_count({})", s.version), || w.tree().get_leaf_count(s.version))?;
        chk!(n == s.map.len(), "leaf count of version {} is {n}, it has {} entries", s.version, s.map.len());
        st.inc("leaf_counts_compared");
        st.peak("leaf_count", n as u64);
    }
    if r.chance(15) && w.next() != PRE_GENESIS {
        huge_updates(&w, &cfg, &plan.pool, r, st)?;
    }
    Ok(())
}

/// A copy of the world in which the counts recorded for one subtree of the latest version are scaled up as if it held
/// a great many more entries than are at hand: (copy, path to that subtree, how many more).
fn huge_subtree<H: SimpleHasher>(w: &World<H>, r: &mut Rng) -> Option<(World<H>, Vec<u8>, u64)> {
    let f = w.fork();
    let s = w.snaps.last()?;
    let x = reach(&w.store, s.version)?;
    let inner: Vec<_> = x.paths.iter().filter(|(p, k)| !p.is_empty() && !x.leaves.contains(*k)).map(|(p, _)| p.clone()).collect();
    if inner.is_empty() {
        return None;
    }
    let top = r.pick(&inner).clone();
    let more = match r.below(6) {
        0 => 253 + r.below(6) as u64,
        1 => 65530 + r.below(12) as u64,
        2 => (1 << 32) - 6 + r.below(12) as u64,
        3 => (1 << 53) - 2 + r.below(6) as u64,
        _ => 1u64 << r.range(8, 62),
    };
    for n in 0..top.len() {
        let k = &x.paths[&top[..n]];
        let old = f.store.node(k)?;
        let new = super::enc::recount(&old, |nib, c| if nib == top[n] { c + more } else { c })?;
        f.store.s.borrow_mut().nodes.insert(k.clone(), new);
    }
    Some((f, top, more))
}
fn below(top: &[u8], k: &KeyHash) -> bool {
    top.iter().enumerate().all(|(i, n)| nibble(&k.0, i) == *n)
}

/// Updates next to a huge subtree must carry its count along exactly.
fn huge_updates<H: SimpleHasher>(w: &World<H>, cfg: &Cfg, pool: &[KeyHash], r: &mut Rng, st: &mut Stats) -> R<()> {
    let Some((mut f, top, more)) = huge_subtree(w, r) else { return Ok(()) };
    let s = f.snaps.last().unwrap().clone();
    let what = |v: u64| format!("version {v}, a subtree of which holds {more} entries more than are at hand");
    let count = |f: &World<H>, v: u64| must(|| format!("get_leaf_count({v})"), || f.tree().get_leaf_count(v));
    chk!(count(&f, s.version)? as u64 == s.map.len() as u64 + more, "{}: wrong leaf count", what(s.version));
    let mut ctr = 1u64 << 43;
    for _ in 0..r.range(1, 3) {
        let mut set = gen_set(r, cfg, pool, &f.cur(), &mut ctr);
        set.retain(|(k, _)| !below(&top, k));
        let sets = [set];
        let e = f.choose(&sets, r);
        f.commit(&sets, e)?;
        let s = f.snaps.last().unwrap();
        let n = count(&f, s.version)?;
        chk!(
            n as u64 == s.map.len() as u64 + more,
            "{} (via {e:?}): leaf count {n}, there are {} + {more}",
            what(s.version),
            s.map.len()
        );
        st.inc("updates_beside_huge_subtrees");
    }
    Ok(())
}

/// Iteration by index skips huge subtrees by their counts.
fn huge_iteration<H: SimpleHasher>(w: &World<H>, r: &mut Rng, st: &mut Stats) -> R<()> {
    let Some((f, top, more)) = huge_subtree(w, r) else { return Ok(()) };
    let s = f.snaps.last().unwrap();
    let last = s.map.keys().filter(|k| below(&top, k)).last().copied();
    let n = s.map.len() as u64;
    let mut at: Vec<(u64, Option<usize>)> = vec![(n + more, None), (n + more + 1, None)];
    for (i, k) in s.map.keys().enumerate() {
        if Some(*k) > last {
            at.push((i as u64 + more, Some(i)));
        } else if !below(&top, k) {
            at.push((i as u64, Some(i)));
        }
    }
    r.shuffle(&mut at[2..]);
    for (idx, i) in at.into_iter().take(12) {
        let what = format!("iterating version {} from index {idx}, next to a subtree that holds {more} entries more than are at hand", s.version);
        let mut it = must(|| what.clone(), || JellyfishMerkleIterator::new_by_index(f.store.clone(), s.version, idx as usize))?;
        let got = drain(&mut it, s.map.len() + 1, &what)?;
        let want: Vec<_> = match i {
            Some(i) => s.map.iter().skip(i).map(|(k, v)| (*k, v.clone())).collect(),
            None => vec![],
        };
        chk!(got == want, "{what}: yields {} entries, expected {}", got.len(), want.len());
        st.inc("iterations_past_huge_subtrees");
    }
    Ok(())
}

fn cmp_inner(a: &MonStore, b: &MonStore, what: &str) -> R<()> {
    let (a, b) = (a.s.borrow(), b.s.borrow());
    for (k, n) in &a.nodes {
        chk!(b.nodes.get(k) == Some(n), "{what}: node {k:?} is {:?} one way and {:?} the other", n, b.nodes.get(k));
    }
    for k in b.nodes.keys() {
        chk!(a.nodes.contains_key(k), "{what}: node {k:?} only one way");
    }
    chk!(a.values == b.values, "{what}: stored values differ");
    for x in a.stale.symmetric_difference(&b.stale) {
        vio!("{what}: stale entry {x:?} only one way");
    }
    Ok(())
}

pub fn c18<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    if cx.rng.chance(35) {
        // histories every entry point can take
        cfg.deletes = false;
        cfg.empty_sets = 0;
        cfg.ops.0 = cfg.ops.0.max(1);
        cfg.start_zero = true;
    }
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    // reference way: one plain call per version
    let mut a = World::<H>::of(plan, st)?;
    let mut stats = vec![];
    let mut merged = NodeBatch::default();
    let mut merged_stales = BTreeSet::new();
    chk!(merged.is_empty(), "a new batch is not empty");
    for s in &plan.sets {
        let o = a.commit(std::slice::from_ref(s), Entry::Plain)?;
        stats.extend(o.batch.node_stats);
        chk!(!o.batch.node_batch.is_empty(), "the batch of a version, which has at least a root node, says that it is empty");
        merged.merge(o.batch.node_batch);
        merged_stales.extend(o.batch.stale_node_index_batch);
    }
    count_ops(&plan.sets, Entry::Plain, st);
    let n = plan.sets.len();
    for way in 0..if r.big { 3 } else { 6 } {
        let mut b = World::<H>::of(plan, st)?;
        let mut bstats = vec![];
        let gs: Vec<(usize, usize)> = match way {
            0 => vec![(0, n)],
            1 | 2 | 3 => groups(plan, r),
            _ => (0..n).map(|i| (i, i + 1)).collect(),
        };
        let mut used = String::new();
        // deletions applied in another order may move a leaf up and back down: the same tree with a rewritten leaf
        let mut exact = true;
        for g in gs {
            let mut sets: Vec<Vec<Op>> = plan.sets[g.0..g.1].to_vec();
            if way >= 4 || r.chance(30) {
                exact &= sets.iter().all(|s| s.iter().all(|(_, v)| v.is_some()));
                for s in &mut sets {
                    // repeated keys collapse to their last write; distinct keys in any order
                    let mut last: BTreeMap<KeyHash, Option<Vec<u8>>> = BTreeMap::new();
                    for (k, v) in s.iter() {
                        last.insert(*k, v.clone());
                    }
                    *s = last.into_iter().collect();
                    if way == 4 {
                        s.reverse();
                    } else {
                        r.shuffle(s);
                    }
                }
                st.inc("reordered_calls");
            }
            let e = match way {
                2 => Entry::Proof,
                3 if b.batch_ok(&sets) => *r.pick(&[Entry::Batch, Entry::BatchHashes]),
                _ => b.choose(&sets, r),
            };
            used = format!("way {way}, versions {}..{} via {e:?}", g.0, g.1);
            let o = b.commit(&sets, e)?;
            count_ops(&sets, e, st);
            bstats.extend(o.batch.node_stats);
            if way == 0 && exact {
                chk!(o.batch.node_batch == merged, "{used}: the update batch differs from the merged batches of the single versions");
                chk!(o.batch.stale_node_index_batch == merged_stales, "{used}: the stale entries differ from those of the single versions");
                st.inc("merged_batches_compared");
            }
        }
        for (x, y) in a.snaps.iter().zip(&b.snaps) {
            chk!(x.root == y.root, "{used}: root of version {} differs from the one-call-per-version way", x.version);
        }
        if exact {
            cmp_inner(&a.store, &b.store, &used)?;
            chk!(stats == bstats, "{used}: update statistics differ: {stats:?} / {bstats:?}");
            st.inc("ways_compared_exactly");
        } else {
            let (x, y) = (a.store.s.borrow(), b.store.s.borrow());
            chk!(x.values == y.values, "{used}: stored values differ");
            drop((x, y));
            for s in &a.snaps {
                let (Some(x), Some(y)) = (reach(&a.store, s.version), reach(&b.store, s.version)) else {
                    vio!("{used}: version {} is not fully stored", s.version)
                };
                chk!(x.paths.keys().eq(y.paths.keys()), "{used}: the node paths of version {} differ", s.version);
            }
            // whatever the order, the whole history prunes to the same tree
            let v = a.snaps[n - 1].version;
            let f = (a.store.fork(), b.store.fork());
            f.0.prune(v)?;
            f.1.prune(v)?;
            chk!(f.0.node_count() == f.1.node_count(), "{used}: pruning leaves {} nodes one way, {} the other", f.0.node_count(), f.1.node_count());
            st.inc("ways_compared_by_shape");
        }
        st.inc("ways_compared");
    }
    Ok(())
}

pub fn c21<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    cfg.versions = (1, 6);
    let mut plan = gen_plan(&mut cx.rng, &cfg);
    // appending overwrites
    plan.mock = plan.mock.map(|_| true);
    cx.plan(&plan);
    let mut notes = vec![];
    let res = c21_run::<H>(cx, &cfg, &plan, &mut notes);
    for n in notes {
        cx.note(&n);
    }
    res
}
fn c21_run<H: SimpleHasher>(cx: &mut Cx, cfg: &Cfg, plan: &Plan, notes: &mut Vec<String>) -> R<()> {
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let mut w = World::<H>::of(plan, st)?;
    let mut ctr = 1u64 << 41;
    let mut oldest = 0usize;
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        w.commit(sets, e)?;
        count_ops(sets, e, st);
        for _ in 0..r.below(3) {
            let n = w.snaps.len();
            let latest = w.snaps[n - 1].clone();
            // only the latest version can be appended to
            let set = gen_set(r, cfg, &plan.pool, &latest.map, &mut ctr);
            for v in [latest.version + 1, latest.version + 7, if n > 1 { w.snaps[r.below(n - 1)].version } else { latest.version + 2 }] {
                let t = w.tree();
                let x = guard(|| format!("append to version {v}"), || t.append_value_set(set.clone(), v))?;
                chk!(x.is_err(), "append to version {v} was accepted, the latest is {}", latest.version);
                st.inc("appends_refused");
            }
            if latest.map.is_empty() {
                let t = w.tree();
                let _ = guard(|| "append to an empty tree".into(), || t.append_value_set(set.clone(), latest.version))?;
                continue;
            }
            notes.push(format!("append to version {}: {:?}", latest.version, set.iter().map(|(k, v)| (hx(&k.0), v.as_ref().map(|v| short(v)))).collect::<Vec<_>>()));
            let t = w.tree();
            let before = w.store.snapshot();
            let (root_, b) = must(
                || format!("appending {} operations to version {} ({} entries)", set.len(), latest.version, latest.map.len()),
                || t.append_value_set(set.clone(), latest.version),
            )?;
            let map = apply(&latest.map, &set);
            let want = RootHash(root::<H>(&map));
            chk!(root_ == want, "appending to version {}: root {:?}, expected {:?}", latest.version, root_, want);
            for (k, node) in b.node_batch.nodes() {
                chk!(k.version() == latest.version, "append writes node {k:?}");
                let _ = node;
            }
            for (v, _) in b.node_batch.values().keys() {
                chk!(*v == latest.version, "append writes a value of version {v}");
            }
            drop(before);
            w.store.apply(&b)?;
            w.snaps[n - 1] = Snap { version: latest.version, map: Arc::new(map), root: root_ };
            st.inc("appends");
            for s in &sample(r, &w.snaps[oldest..], 1, 12) {
                let i = (s.version - w.start) as usize;
                let keys = probes(r, &plan.pool, &s.map, 8);
                check_reads(&w, s, &keys, st, if i + 1 == n { "appended version" } else { "version before the appended one" })?;
                let rh = must(|| "get_root_hash".into(), || w.tree().get_root_hash(s.version))?;
                chk!(rh.0 == root::<H>(&s.map), "root of version {} is wrong after an append to {}", s.version, latest.version);
            }
            let s = w.snaps[n - 1].clone();
            check_iter::<H, _>(&w.store, s.version, &s.map, KeyHash([0; 32]), "appended version")?;
            for s in sample(r, &w.snaps[oldest..], 1, 12) {
                check_walk::<H>(&w.store, s.version, &s.map, "after an append")?;
            }
            for k in probes(r, &plan.pool, &s.map, 6) {
                let (v, p) = must(|| "get_with_proof".into(), || w.tree().get_with_proof(k, s.version))?;
                chk!(p.verify(want, k, v).is_ok(), "proof at the appended version does not verify");
            }
        }
        if r.chance(35) {
            let n = w.snaps.len();
            let p = r.range(oldest, n - 1);
            w.store.prune(w.snaps[p].version)?;
            oldest = p;
            st.inc("prunings");
            for s in &w.snaps[oldest..] {
                check_walk::<H>(&w.store, s.version, &s.map, "after append and pruning")?;
                let keys = probes(r, &plan.pool, &s.map, 6);
                check_reads(&w, s, &keys, st, "after append and pruning")?;
            }
        }
    }
    // a further ordinary update and a final pruning
    let set = gen_set(r, cfg, &plan.pool, &w.cur(), &mut ctr);
    w.commit(&[set], Entry::Plain)?;
    let s = w.snaps.last().unwrap().clone();
    chk!(s.root.0 == root::<H>(&s.map), "update after an append: wrong root");
    w.store.prune(s.version)?;
    check_walk::<H>(&w.store, s.version, &s.map, "update after append, pruned")?;
    Ok(())
}

/// All of them, or of a long history the `last` ones and some of the others.
fn sample(r: &mut Rng, snaps: &[Snap], last: usize, most: usize) -> Vec<Snap> {
    if snaps.len() <= most + last {
        return snaps.to_vec();
    }
    let (old, new) = snaps.split_at(snaps.len() - last);
    let mut o: Vec<Snap> = (0..most).map(|_| r.pick(old).clone()).collect();
    o.extend(new.iter().cloned());
    o
}

pub fn c25<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied(&mut cx.rng, cx.thorough);
    cfg.start_zero = true;
    let mut plan = gen_plan(&mut cx.rng, &cfg);
    let pre = !cx.rng.chance(25);
    let mut base = Map::new();
    let mut ctr = 1u64 << 42;
    if pre {
        for k in &plan.pool {
            if cx.rng.chance(55) {
                base.insert(*k, gen_value(&mut cx.rng, &mut ctr, &[]));
            }
        }
        if cx.rng.chance(10) {
            base.clear();
        }
        // the first update: often one that changes nothing, deletes, or everything
        let r = &mut cx.rng;
        let keys: Vec<KeyHash> = base.keys().copied().collect();
        match r.below(6) {
            0 => plan.sets[0] = vec![],
            1 if !keys.is_empty() => {
                let k = *r.pick(&keys);
                plan.sets[0] = vec![(k, Some(base[&k].clone()))];
            }
            2 => {
                let k = new_key(r, &plan.pool, 1);
                if !base.contains_key(&k) {
                    plan.sets[0] = vec![(k, None)];
                }
            }
            3 => plan.sets[0] = keys.iter().map(|k| (*k, None)).collect(),
            _ => {}
        }
    } else if cx.rng.chance(40) {
        let k = new_key(&mut cx.rng, &plan.pool, 1);
        plan.sets[0] = if cx.rng.chance(50) { vec![] } else { vec![(k, None)] };
    }
    cx.plan(&plan);
    cx.note(&format!("pre-genesis: {pre}, {} entries: {:?}", base.len(), base.iter().map(|(k, v)| (hx(&k.0), short(v))).collect::<Vec<_>>()));
    cx.sig ^= crate::rng::mix(&[base.len() as u64, pre as u64]);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::new(0);
    w.base = Arc::new(base.clone());
    if pre {
        restore_into::<H>(&w.store.clone(), PRE_GENESIS, &base, r)?;
        st.inc("pre_genesis_states");
        if base.is_empty() {
            st.inc("empty_pre_genesis_states");
        }
    } else {
        st.inc("no_pre_genesis");
    }
    let pg = Snap { version: PRE_GENESIS, map: Arc::new(base.clone()), root: RootHash(root::<H>(&base)) };
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        if g.0 == 0 && r.chance(40) {
            // a crash on the way to the genesis, then the same genesis again
            let out = w.compute(sets, 0, e)?;
            w.store.apply(&partial(&out.batch, r))?;
            st.inc("genesis_crashes");
        }
        w.commit(sets, e)?;
        count_ops(sets, e, st);
        for s in sample(r, &w.snaps, sets.len(), 12) {
            chk!(s.root.0 == root::<H>(&s.map), "version {} on {} pre-genesis entries: reported root is not the map's", s.version, base.len());
            let rh = must(|| format!("get_root_hash({})", s.version), || w.tree().get_root_hash(s.version))?;
            chk!(rh == s.root, "version {}: root read back differs", s.version);
            let keys = probes(r, &plan.pool, &s.map, 10);
            check_reads(&w, &s, &keys, st, "on pre-genesis")?;
            for k in keys.iter().take(6) {
                let (v, p) = must(|| "get_with_proof".into(), || w.tree().get_with_proof(*k, s.version))?;
                chk!(p.verify(s.root, *k, v).is_ok(), "proof of {} at version {} does not verify", hx(&k.0), s.version);
            }
            check_iter::<H, _>(&w.store, s.version, &s.map, keys[0], "on pre-genesis")?;
            check_walk::<H>(&w.store, s.version, &s.map, "on pre-genesis")?;
        }
        if g.0 == 0 && pre {
            st.inc("first_updates_on_pre_genesis");
            let keys = probes(r, &plan.pool, &base, 8);
            check_reads(&w, &pg, &keys, st, "pre-genesis itself")?;
        }
    }
    // pruning works across the boundary
    let i = r.below(w.snaps.len());
    w.store.prune(w.snaps[i].version)?;
    for s in &w.snaps[i..] {
        check_walk::<H>(&w.store, s.version, &s.map, "on pre-genesis, pruned")?;
    }
    Ok(())
}

pub fn c26<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    if cx.rng.chance(25) {
        cfg.pool = (150, 500);
        cfg.versions = (2, 4);
    }
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    let depth = |wk: &Walk, k: &KeyHash| -> u64 {
        (0..=64usize).take_while(|d| wk.paths.contains_key(&(0..*d).map(|i| nibble(&k.0, i)).collect::<Vec<u8>>())).count() as u64
    };
    // generous: every node of the path, its siblings (up to four a node), and re-reads
    let bound = |d: u64| 10 * d + 12;
    // what makes no proof has no use for siblings
    let lean = |d: u64| 3 * d + 8;
    let budget = |e: Entry, d: u64| if matches!(e, Entry::Proof) { bound(d) } else { lean(d) };
    let mut prev: Option<Walk> = None;
    for i in 0..plan.sets.len() {
        let set = &plan.sets[i];
        let e = w.choose(std::slice::from_ref(set), r);
        // budget of a single-key update on the current state
        if let (Some(wk), Some(last)) = (&prev, w.snaps.last().cloned()) {
            for _ in 0..4 {
                let k = if r.chance(50) && !last.map.is_empty() {
                    *r.pick(&last.map.keys().copied().collect::<Vec<_>>())
                } else {
                    new_key(r, &plan.pool, 1)
                };
                let v = if r.chance(50) { None } else { Some(vec![r.u64() as u8]) };
                for e in [Entry::Plain, Entry::Proof] {
                    w.store.reset();
                    let o = w.compute(&[vec![(k, v.clone())]], w.next(), e)?;
                    let (n, d) = (w.store.reads.get(), depth(wk, &k));
                    chk!(
                        n <= budget(e, d),
                        "single-key update of {} via {e:?} read {n} times at depth {d} in a tree of {} entries",
                        hx(&k.0),
                        last.map.len()
                    );
                    st.peak(if matches!(e, Entry::Plain) { "reads_per_path_node_update_x10" } else { "reads_per_path_node_update_with_proof_x10" }, n * 10 / d.max(1));
                    let nn = o.batch.node_batch.nodes().len() as u64;
                    let deep = last.map.keys().map(|x| common_bits(&x.0, &k.0) as u64 / 4).filter(|c| *c < 64).max().unwrap_or(0);
                    chk!(nn <= d.max(deep + 1) + 3, "single-key update of {} created {nn} nodes at depth {d}", hx(&k.0));
                    st.inc("update_budgets_checked");
                }
            }
        }
        if let Some(pw) = &prev {
            // what the whole update reads
            w.store.reset();
            w.compute(std::slice::from_ref(set), w.next(), e)?;
            let n = w.store.reads.get();
            let all: u64 = set.iter().map(|(k, _)| budget(e, depth(pw, k))).sum::<u64>() + 12;
            st.peak(if matches!(e, Entry::Proof) { "whole_update_with_proof_percent_of_budget" } else { "whole_update_percent_of_budget" }, n * 100 / all);
            chk!(n <= all, "update of {} keys via {e:?} read {n} times, the paths of those keys allow {all}", set.len());
            st.inc("whole_update_budgets_checked");
        }
        let o = w.commit(std::slice::from_ref(set), e)?;
        count_ops(std::slice::from_ref(set), e, st);
        let s = w.snaps[i].clone();
        let Some(wk) = reach(&w.store, s.version) else { vio!("version {} is not fully stored", s.version) };
        // locality
        let touched = |p: &[u8]| set.iter().any(|(k, _)| p.iter().enumerate().all(|(i, n)| nibble(&k.0, i) == *n));
        for (k, n) in o.batch.node_batch.nodes() {
            let p = path_vec(k.nibble_path());
            let moved = matches!(n, Node::Leaf(_)) && !p.is_empty() && touched(&p[..p.len() - 1]);
            chk!(
                p.is_empty() || touched(&p) || moved,
                "update of version {} ({} ops) created {k:?}, which lies on no updated path",
                s.version,
                set.len()
            );
            st.inc("new_nodes_located");
        }
        if let Some(pw) = &prev {
            for (p, k) in &pw.paths {
                if !p.is_empty() && !touched(p) {
                    match wk.paths.get(p) {
                        Some(k2) => chk!(
                            k2 == k || (wk.leaves.contains(k2) && !p.is_empty() && touched(&p[..p.len() - 1])),
                            "version {}: untouched subtree at {k:?} was rewritten as {k2:?}",
                            s.version
                        ),
                        // only a leaf next to a changed path may move away
                        None => chk!(
                            pw.leaves.contains(k) && touched(&p[..p.len() - 1]),
                            "version {}: untouched node {k:?} disappeared",
                            s.version
                        ),
                    }
                    st.inc("shared_nodes_checked");
                }
            }
        }
        // iterators: getting in place and the first few entries
        let keys: Vec<KeyHash> = s.map.keys().copied().collect();
        let ends = [0, r.below(keys.len() + 1), keys.len()];
        for (j, by_key) in [(ends[0], false), (ends[1], false), (ends[2], false), (ends[1], true)] {
            let start = if by_key && j < keys.len() && r.chance(50) { pred(&keys[j].0).map(KeyHash).unwrap_or(keys[j]) } else { keys.get(j).copied().unwrap_or(KeyHash([0xff; 32])) };
            let few: Vec<&KeyHash> = if by_key { keys.iter().filter(|k| **k >= start).take(3).collect() } else { keys.iter().skip(j).take(3).collect() };
            w.store.reset();
            let it = must(
                || "positioning an iterator".into(),
                || {
                    if by_key {
                        JellyfishMerkleIterator::new(w.store.clone(), s.version, start)
                    } else {
                        JellyfishMerkleIterator::new_by_index(w.store.clone(), s.version, j)
                    }
                },
            )?;
            let got = guard(|| "iterating".into(), || it.take(3).filter(|x| x.is_ok()).count())?;
            let n = w.store.reads.get();
            let all: u64 = few.iter().map(|k| lean(depth(&wk, k))).sum::<u64>() + if by_key { lean(depth(&wk, &start)) } else { 12 };
            st.peak("iterator_percent_of_budget", n * 100 / all);
            chk!(n <= all, "positioning an iterator ({}) in a tree of {} entries and taking {got} entries read {n} times, the paths of those entries allow {all}", if by_key { "by key" } else { "by index" }, keys.len());
            st.inc("iterator_budgets_checked");
        }
        // reads
        for k in probes(r, &plan.pool, &s.map, 8) {
            let d = depth(&wk, &k);
            let t = w.tree();
            w.store.reset();
            must(|| "get".into(), || t.get(k, s.version))?;
            chk!(w.store.reads.get() <= lean(d), "get read {} times at depth {d} in a tree of {} entries", w.store.reads.get(), s.map.len());
            w.store.reset();
            must(|| "get_with_proof".into(), || t.get_with_proof(k, s.version))?;
            st.peak("reads_per_path_node_proof_x10", w.store.reads.get() * 10 / d.max(1));
            chk!(w.store.reads.get() <= bound(d), "get_with_proof read {} times at depth {d} in a tree of {} entries", w.store.reads.get(), s.map.len());
            if s.map.contains_key(&k) {
                w.store.reset();
                must(|| "get_range_proof".into(), || t.get_range_proof(k, s.version))?;
                chk!(w.store.reads.get() <= bound(d), "get_range_proof read {} times at depth {d}", w.store.reads.get());
            } else if !s.map.is_empty() {
                w.store.reset();
                must(|| "get_with_exclusion_proof".into(), || t.get_with_exclusion_proof(k, s.version))?;
                // the neighbours' own paths may be longer than the key's
                let nd = d
                    + s.map.range(..k).next_back().map(|x| depth(&wk, x.0)).unwrap_or(0)
                    + s.map.range(k..).next().map(|x| depth(&wk, x.0)).unwrap_or(0);
                chk!(w.store.reads.get() <= bound(nd), "get_with_exclusion_proof read {} times at depth {nd}", w.store.reads.get());
            }
            w.store.reset();
            must(|| "get_root_hash".into(), || t.get_root_hash(s.version))?;
            must(|| "get_leaf_count".into(), || t.get_leaf_count(s.version))?;
            chk!(w.store.reads.get() <= 8, "root hash and leaf count read {} times", w.store.reads.get());
            st.inc("read_budgets_checked");
        }
        prev = Some(wk);
    }
    Ok(())
}
