//! C24: the in-memory store against a reference multi-version store.
use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use jmt::mock::{put_value, MockTreeStore};
use jmt::storage::{HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter};
use jmt::{JellyfishMerkleTree, KeyHash, SimpleHasher, ValueHash};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
struct Ref {
    nodes: BTreeMap<NodeKey, Node>,
    values: BTreeMap<KeyHash, BTreeMap<u64, Option<Vec<u8>>>>,
    stale: BTreeSet<(u64, NodeKey)>,
    pre: BTreeMap<KeyHash, Vec<u8>>,
}
impl Ref {
    fn value(&self, v: u64, k: &KeyHash) -> Option<Vec<u8>> {
        self.values.get(k).and_then(|h| h.range(..=v).next_back()).and_then(|x| x.1.clone())
    }
    fn last(&self, k: &KeyHash) -> Option<u64> {
        self.values.get(k).and_then(|h| h.keys().next_back().copied())
    }
}

/// Everything the store answers equals the reference.
fn compare(db: &MockTreeStore, m: &Ref, r: &mut Rng, st: &mut Stats, keys: &[NodeKey], hashes: &[KeyHash], ctx: &str) -> R<()> {
    chk!(db.num_nodes() == m.nodes.len(), "{ctx}: store counts {} nodes, expected {}", db.num_nodes(), m.nodes.len());
    for k in m.nodes.keys().chain(keys) {
        let want = m.nodes.get(k);
        let got = must(|| format!("{ctx}: get_node_option({k:?})"), || db.get_node_option(k))?;
        chk!(got.as_ref() == want, "{ctx}: node {k:?} reads {got:?}, last written {want:?}");
        let got = guard(|| format!("{ctx}: get_node({k:?})"), || db.get_node(k).ok())?;
        chk!(got.as_ref() == want, "{ctx}: get_node({k:?}) reads {got:?}, last written {want:?}");
        st.inc("node_reads_compared");
    }
    for k in m.values.keys().chain(hashes) {
        let mut vs: Vec<u64> = vec![0, u64::MAX, r.u64()];
        if let Some(h) = m.values.get(k) {
            for v in h.keys() {
                vs.extend([*v, v.wrapping_sub(1), v.wrapping_add(1)]);
            }
        }
        for v in vs {
            let want = m.value(v, k);
            let got = must(|| format!("{ctx}: get_value_option({v}, {})", hx(&k.0)), || db.get_value_option(v, *k))?;
            chk!(
                got == want,
                "{ctx}: value of {} at or below {v} reads {:?}, expected {:?} (written versions {:?})",
                hx(&k.0[..4]),
                got.map(|x| short(&x)),
                want.map(|x| short(&x)),
                m.values.get(k).map(|h| h.keys().collect::<Vec<_>>())
            );
            let got = guard(|| format!("{ctx}: get_value"), || db.get_value(v, *k).ok())?;
            chk!(got == want, "{ctx}: get_value of {} at {v} differs", hx(&k.0[..4]));
            st.inc("value_reads_compared");
            if want.is_none() && m.value(u64::MAX, k).is_some() {
                st.inc("older_absent_reads");
            }
        }
        let got = must(|| format!("{ctx}: preimage"), || db.preimage(*k))?;
        chk!(got.as_ref() == m.pre.get(k), "{ctx}: preimage of {} reads {got:?}", hx(&k.0[..4]));
    }
    let got = must(|| format!("{ctx}: get_rightmost_leaf"), || db.get_rightmost_leaf())?;
    let want = m.nodes.values().filter_map(|n| if let Node::Leaf(l) = n { Some(l.key_hash()) } else { None }).max();
    match &got {
        None => chk!(want.is_none(), "{ctx}: no rightmost leaf found, expected {want:?}"),
        Some((k, l)) => {
            chk!(Some(l.key_hash()) == want, "{ctx}: rightmost leaf is {l:?}, the greatest key is {want:?}");
            chk!(m.nodes.get(k) == Some(&Node::Leaf(l.clone())), "{ctx}: rightmost leaf {l:?} is not what is stored under {k:?}");
            st.inc("rightmost_leaves_found");
        }
    }
    Ok(())
}

fn purge(db: &MockTreeStore, m: &mut Ref, v: u64, st: &mut Stats) -> R<bool> {
    let due: Vec<(u64, NodeKey)> = m.stale.iter().filter(|s| s.0 <= v).cloned().collect();
    // two entries may name one node (synthetic), or a node that was never written
    let mut seen = BTreeSet::new();
    let bad = due.iter().any(|d| !m.nodes.contains_key(&d.1) || !seen.insert(&d.1));
    let res = guard(|| format!("purge_stale_nodes({v})"), || db.purge_stale_nodes(v).map_err(|e| format!("{e:#}")))?;
    if bad {
        st.inc("purges_of_missing_nodes");
        chk!(res.is_err(), "purge_stale_nodes({v}) accepts a stale entry whose node does not exist");
        return Ok(false);
    }
    chk!(res.is_ok(), "purge_stale_nodes({v}) fails: {res:?}");
    for d in due {
        m.nodes.remove(&d.1);
        m.stale.remove(&d);
        st.inc("nodes_purged");
    }
    st.inc("purges");
    Ok(true)
}

fn synthetic(cx: &mut Cx) -> R<()> {
    let overwrite = cx.rng.chance(30);
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let db = MockTreeStore::new(overwrite);
    let mut m = Ref::default();
    let np = r.range(1, 12);
    let hashes = gen_pool(r, np);
    let base = gen_start(r);
    let mut log = format!("allow_overwrite={overwrite}, first version {base}\n");
    let key = |r: &mut Rng, lo: u64| {
        let k = r.pick(&hashes).0;
        let n = r.below(65).min(if r.chance(60) { 3 } else { 64 });
        let nib: Vec<u8> = (0..n).map(|i| nibble(&k, i)).collect();
        node_key(lo.wrapping_add(r.below(6) as u64), &nib)
    };
    let asked: Vec<NodeKey> = (0..4).map(|_| key(r, base)).collect();
    let mut v = base;
    let steps = r.range(3, 30);
    for step in 0..steps {
        v = v.saturating_add(r.below(3) as u64);
        match r.below(10) {
            0..=4 => {
                // a batch of nodes and values
                let mut nb = NodeBatch::default();
                let mut clash = false;
                let mut back = false;
                for _ in 0..r.below(6) {
                    let k = if r.chance(8) && !m.nodes.is_empty() { r.pick(&m.nodes.keys().cloned().collect::<Vec<_>>()).clone() } else { key(r, v) };
                    if m.nodes.contains_key(&k) {
                        if !overwrite && r.chance(70) {
                            continue;
                        }
                        clash = true;
                    }
                    let n: Node = if r.chance(15) { Node::Null } else { LeafNode::new(*r.pick(&hashes), ValueHash(r.bytes32())).into() };
                    nb.insert_node(k, n);
                }
                let mut vals = BTreeMap::new();
                for _ in 0..r.below(5) {
                    let k = *r.pick(&hashes);
                    let mut at = v.saturating_add(r.below(3) as u64);
                    if m.last(&k).is_some_and(|l| at < l) {
                        at = m.last(&k).unwrap();
                    }
                    if r.chance(3) {
                        if let Some(l) = m.last(&k) {
                            at = l.saturating_sub(1 + r.below(3) as u64);
                        }
                    }
                    back |= m.last(&k).is_some_and(|l| at < l);
                    let n = r.below(8);
                    vals.insert((at, k), if r.chance(30) { None } else { Some(r.vec(n)) });
                }
                for ((at, k), val) in &vals {
                    match val {
                        Some(x) if r.chance(50) => nb.insert_value(*at, *k, x.clone()),
                        _ => nb.extend(vec![], vec![((*at, *k), val.clone())]),
                    }
                }
                chk!(nb.values() == &vals, "a batch holds other values than were put into it");
                log += &format!("{step}: batch {:?} {:?}\n", nb.nodes().keys().collect::<Vec<_>>(), vals.iter().map(|((a, k), x)| (a, hx(&k.0[..3]), x.as_ref().map(|x| hx(x)))).collect::<Vec<_>>());
                // with stale entries, perhaps
                let mut stale = BTreeSet::new();
                let full = r.chance(60);
                if full {
                    for k in m.nodes.keys() {
                        if r.chance(20) && (r.chance(2) || !m.stale.iter().any(|s| s.1 == *k)) {
                            let s = v.saturating_add(r.below(3) as u64);
                            stale.insert(StaleNodeIndex { stale_since_version: s, node_key: k.clone() });
                        }
                    }
                    if r.chance(2) {
                        stale.insert(StaleNodeIndex { stale_since_version: v, node_key: key(r, v) });
                    }
                    if r.chance(3) {
                        if let Some(s) = m.stale.iter().next().cloned() {
                            stale.insert(StaleNodeIndex { stale_since_version: s.0, node_key: s.1 });
                        }
                    }
                }
                let dup = stale.iter().any(|s| m.stale.contains(&(s.stale_since_version, s.node_key.clone())));
                log += &format!("    stale {stale:?}\n");
                cx.desc = log.clone();
                let what = || format!("writing batch of step {step}");
                let res = catch(|| {
                    if full {
                        db.write_tree_update_batch(TreeUpdateBatch { node_batch: nb.clone(), stale_node_index_batch: stale.clone(), node_stats: vec![] })
                    } else {
                        db.write_node_batch(&nb)
                    }
                });
                let refused = !matches!(res, Ok(Ok(())));
                if clash && !overwrite {
                    chk!(refused, "{}: an existing node was overwritten in a store that must refuse that", what());
                    st.inc("overwrites_refused");
                    return Ok(());
                }
                if let Err((loc, msg)) = &res {
                    vio!("{}: panicked at {loc}: {msg}", what());
                }
                if back {
                    chk!(refused, "{}: a value older than the newest of its key was accepted", what());
                    st.inc("backward_values_refused");
                    return Ok(());
                }
                if dup {
                    chk!(refused, "{}: a repeated stale entry was accepted", what());
                    st.inc("repeated_stale_refused");
                    return Ok(());
                }
                chk!(!refused, "{}: refused: {:?}", what(), res.map(|x| x.map_err(|e| e.to_string())));
                if clash {
                    st.inc("overwrites_allowed");
                }
                for (k, n) in nb.nodes() {
                    m.nodes.insert(k.clone(), n.clone());
                }
                for ((at, k), x) in vals {
                    m.values.entry(k).or_default().insert(at, x);
                }
                for s in stale {
                    m.stale.insert((s.stale_since_version, s.node_key));
                }
                st.inc("batches_written");
            }
            5 => {
                let l = LeafNode::new(*r.pick(&hashes), ValueHash(r.bytes32()));
                let k = if r.chance(30) && !m.nodes.is_empty() { r.pick(&m.nodes.keys().cloned().collect::<Vec<_>>()).clone() } else { key(r, v.max(m.last(&l.key_hash()).unwrap_or(0))) };
                let val = r.vec(5);
                log += &format!("{step}: put_leaf {k:?} of {}\n", hx(&l.key_hash().0[..3]));
                cx.desc = log.clone();
                let res = guard(|| format!("put_leaf({k:?})"), || db.put_leaf(k.clone(), l.clone(), val.clone()).is_ok())?;
                if m.nodes.contains_key(&k) {
                    chk!(!res, "put_leaf({k:?}) replaced an existing node");
                    st.inc("duplicate_leaves_refused");
                } else if m.last(&l.key_hash()).is_some_and(|x| x > k.version()) {
                    chk!(!res, "put_leaf({k:?}) accepted a value older than the newest of its key");
                    st.inc("backward_values_refused");
                    return Ok(());
                } else {
                    chk!(res, "put_leaf({k:?}) refused");
                    m.values.entry(l.key_hash()).or_default().insert(k.version(), Some(val));
                    m.nodes.insert(k, l.into());
                    st.inc("leaves_put");
                }
            }
            6..=7 => {
                let p = match r.below(4) {
                    0 => v.saturating_sub(r.below(5) as u64),
                    1 => u64::MAX,
                    _ => v,
                };
                log += &format!("{step}: purge {p}\n");
                cx.desc = log.clone();
                if !purge(&db, &mut m, p, st)? {
                    return Ok(());
                }
            }
            8 => {
                let k = *r.pick(&hashes);
                let n = r.below(9);
                let p = r.vec(n);
                db.put_key_preimage(k, &p);
                m.pre.insert(k, p);
            }
            _ => {}
        }
        if r.chance(40) || step + 1 == steps {
            compare(&db, &m, r, st, &asked, &hashes, &format!("after step {step}"))?;
        }
    }
    cx.desc = log;
    Ok(())
}

fn history(r: &mut Rng, st: &mut Stats) -> R<()> {
    let mut h: JHashMap<KeyHash, Vec<(u64, Option<Vec<u8>>)>> = Default::default();
    let mut m: BTreeMap<KeyHash, Vec<(u64, Option<Vec<u8>>)>> = BTreeMap::new();
    let ks: Vec<KeyHash> = (0..3).map(|_| KeyHash(r.bytes32())).collect();
    let mut v = gen_start(r);
    for _ in 0..r.below(20) {
        let k = *r.pick(&ks);
        v = v.saturating_add(r.below(2) as u64);
        let at = if r.chance(20) { v.saturating_sub(1 + r.below(3) as u64) } else { v };
        let val = if r.chance(30) { None } else { Some(r.vec(3)) };
        let ok = guard(|| "put_value".into(), || put_value(&mut h, at, k, val.clone()).is_ok())?;
        let e = m.entry(k).or_default();
        match e.last_mut() {
            Some(l) if at < l.0 => {
                chk!(!ok, "put_value accepted version {at} after {}", l.0);
                st.inc("backward_values_refused");
            }
            Some(l) if at == l.0 => {
                chk!(ok, "put_value refused version {at} again");
                l.1 = val;
                st.inc("values_replaced");
            }
            _ => {
                chk!(ok, "put_value refused version {at}");
                e.push((at, val));
            }
        }
        for k in &ks {
            chk!(h.get(k).cloned().unwrap_or_default() == m.get(k).cloned().unwrap_or_default(), "value history differs after put_value({at})");
        }
    }
    Ok(())
}

/// A real tree kept in the store next to the reference.
fn real<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::std();
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let db = MockTreeStore::default();
    let mut m = Ref::default();
    let mut map = Map::new();
    let mut asked: Vec<NodeKey> = vec![];
    for (i, s) in plan.sets.iter().enumerate() {
        let v = plan.start + i as u64;
        let t = JellyfishMerkleTree::<_, H>::new(&db);
        let (rt, b) = must(|| format!("update {v} over the in-memory store"), || t.put_value_set(s.clone(), v))?;
        must(|| format!("writing version {v}"), || db.write_tree_update_batch(b.clone()))?;
        map = apply(&map, s);
        chk!(rt.0 == root::<H>(&map), "root of version {v} over the in-memory store is not that of its entries");
        for (k, n) in b.node_batch.nodes() {
            chk!(m.nodes.insert(k.clone(), n.clone()).is_none(), "version {v} rewrites node {k:?}");
            asked.push(k.clone());
        }
        for ((v, k), x) in b.node_batch.values() {
            m.values.entry(*k).or_default().insert(*v, x.clone());
        }
        for x in b.stale_node_index_batch {
            m.stale.insert((x.stale_since_version, x.node_key));
        }
        st.inc("batches_written");
        if r.chance(40) {
            let to = v.saturating_sub(r.below(4) as u64);
            chk!(purge(&db, &mut m, to, st)?, "a real history's stale entries name missing nodes");
        }
        if r.chance(50) || i + 1 == plan.sets.len() {
            compare(&db, &m, r, st, &asked, &plan.pool, &format!("after version {v}"))?;
        }
    }
    st.inc("real_histories");
    Ok(())
}

pub fn c24<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    if cx.rng.chance(35) {
        return real::<H>(cx);
    }
    history(&mut cx.rng, &mut cx.stats)?;
    let before = cx.rng.u64();
    cx.sig ^= before;
    cx.nontrivial = true;
    synthetic(cx)?;
    cx.sample = cx.desc.lines().take(5).map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n");
    fnv(&mut cx.sig, cx.desc.as_bytes());
    Ok(())
}

/// C27: a batch of changes against two maps, and a storage reader's derived reads.
pub fn c27<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    cx.nontrivial = true;
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let np = r.range(1, 6);
    let pool = gen_pool(r, np);
    let base = gen_start(r);
    // nodes of every kind, some of them of a real tree
    let mut nodes: Vec<Node> = vec![Node::Null];
    for k in &pool {
        nodes.push(LeafNode::new(*k, ValueHash(r.bytes32())).into());
        nodes.push(LeafNode::new(*k, ValueHash::with::<H>(&r.vec(3))).into());
    }
    {
        let store = crate::store::MonStore::new();
        let set: Vec<(KeyHash, Option<Vec<u8>>)> = pool.iter().map(|k| (*k, Some(r.vec(2)))).collect();
        let t = JellyfishMerkleTree::<_, H>::new(&store);
        let (_, b) = must(|| "building a tree to take nodes from".into(), || t.put_value_set(set, 0))?;
        nodes.extend(b.node_batch.nodes().values().take(6).cloned());
    }
    let key = |r: &mut Rng| {
        let k = r.pick(&pool).0;
        let n = r.below(65).min(if r.chance(70) { 2 } else { 64 });
        let nib: Vec<u8> = (0..n).map(|i| nibble(&k, i)).collect();
        node_key(base.wrapping_add(r.below(3) as u64), &nib)
    };
    type Ns = BTreeMap<NodeKey, Node>;
    type Vs = BTreeMap<(u64, KeyHash), Option<Vec<u8>>>;
    let some_nodes = |r: &mut Rng, max: usize| -> Vec<(NodeKey, Node)> { (0..r.below(max + 1)).map(|_| (key(r), r.pick(&nodes).clone())).collect() };
    let some_values = |r: &mut Rng, max: usize| -> Vec<((u64, KeyHash), Option<Vec<u8>>)> {
        (0..r.below(max + 1))
            .map(|_| {
                let n = r.below(4);
                ((base.wrapping_add(r.below(3) as u64), *r.pick(&pool)), if r.chance(35) { None } else { Some(r.vec(n)) })
            })
            .collect()
    };
    let mut log = format!("first version {base}\n");
    let (mut ns, mut vs): (Ns, Vs) = Default::default();
    let mut nb = if r.chance(50) {
        NodeBatch::default()
    } else {
        ns = some_nodes(r, 3).into_iter().collect();
        vs = some_values(r, 3).into_iter().collect();
        NodeBatch::new(ns.clone(), vs.clone())
    };
    let steps = r.range(1, 14);
    for step in 0..=steps {
        let what = if step == 0 { 99 } else { r.below(12) };
        match what {
            0..=2 => {
                let (k, n) = (key(r), r.pick(&nodes).clone());
                log += &format!("{step}: insert_node {k:?}\n");
                let old = ns.insert(k.clone(), n.clone());
                st.inc(if old.is_some() { "nodes_replaced" } else { "nodes_inserted" });
                let got = guard(|| "insert_node".into(), || nb.insert_node(k.clone(), n))?;
                chk!(got == old, "insert_node({k:?}) returns {got:?}; the node held before is {old:?}");
            }
            3..=4 => {
                let (v, k) = (base.wrapping_add(r.below(3) as u64), *r.pick(&pool));
                let n = r.below(4);
                let x = r.vec(n);
                log += &format!("{step}: insert_value {v} {} {}\n", hx(&k.0), hx(&x));
                match vs.insert((v, k), Some(x.clone())) {
                    Some(None) => st.inc("deletions_replaced"),
                    Some(_) => st.inc("values_replaced"),
                    None => st.inc("values_inserted"),
                }
                guard(|| "insert_value".into(), || nb.insert_value(v, k, x))?;
            }
            5..=7 => {
                let (a, b) = (some_nodes(r, 3), some_values(r, 4));
                log += &format!("{step}: extend {a:?} {b:?}\n");
                st.add("deletions_added", b.iter().filter(|x| x.1.is_none()).count() as u64);
                ns.extend(a.clone());
                vs.extend(b.clone());
                // (repeated keys in one call: the later one counts)
                guard(|| "extend".into(), || nb.extend(a, b))?;
                st.inc("extended");
            }
            8..=10 => {
                let (a, b): (Ns, Vs) = match r.below(4) {
                    0 => (some_nodes(r, 3).into_iter().collect(), Vs::new()),
                    1 => (Ns::new(), some_values(r, 3).into_iter().collect()),
                    _ => (some_nodes(r, 4).into_iter().collect(), some_values(r, 4).into_iter().collect()),
                };
                log += &format!("{step}: merge {a:?} {b:?}\n");
                if a.iter().any(|(k, n)| ns.get(k).is_some_and(|m| m != n)) || b.iter().any(|(k, x)| vs.get(k).is_some_and(|y| y != x)) {
                    st.inc("merges_with_conflicts");
                }
                let other = NodeBatch::new(a.clone(), b.clone());
                if r.chance(15) {
                    // into an empty batch, and the other way around
                    let mut e = NodeBatch::default();
                    guard(|| "merge into an empty batch".into(), || e.merge(other.clone()))?;
                    chk!(e == other, "a batch merged into an empty one is {e:?}, not {other:?}");
                    let mut f = other.clone();
                    guard(|| "merge of an empty batch".into(), || f.merge(NodeBatch::default()))?;
                    chk!(f == other, "merging an empty batch turned {other:?} into {f:?}");
                }
                ns.extend(a);
                vs.extend(b);
                guard(|| "merge".into(), || nb.merge(other))?;
                st.inc("merged");
            }
            11 if r.chance(40) => {
                log += &format!("{step}: clear\n");
                guard(|| "clear".into(), || nb.clear())?;
                ns.clear();
                vs.clear();
                st.inc("cleared");
            }
            _ => {}
        }
        cx.desc = log.clone();
        // everything the batch answers is what the two maps say
        chk!(nb.nodes() == &ns, "step {step}: the batch holds nodes {:?}, put into it were {ns:?}", nb.nodes());
        chk!(nb.values() == &vs, "step {step}: the batch holds values {:?}, put into it were {vs:?}", nb.values());
        let empty = ns.is_empty() && vs.is_empty();
        chk!(nb.is_empty() == empty, "step {step}: is_empty() is {} for {} nodes and {} values", nb.is_empty(), ns.len(), vs.len());
        match (ns.is_empty(), vs.is_empty()) {
            (true, true) => st.inc("batches_empty"),
            (true, false) => st.inc("batches_of_values_only"),
            (false, true) => st.inc("batches_of_nodes_only"),
            _ => st.inc("batches_of_both"),
        }
        for k in ns.keys().cloned().chain([key(r), key(r)]) {
            let got = guard(|| format!("get_node({k:?})"), || nb.get_node(&k).cloned())?;
            chk!(got.as_ref() == ns.get(&k), "step {step}: get_node({k:?}) of the batch is {got:?}, put into it was {:?}", ns.get(&k));
            st.inc("batch_reads_compared");
        }
        let same = NodeBatch::new(ns.clone(), vs.clone());
        chk!(nb == same, "step {step}: the batch differs from the one made of the same nodes and values");
        if let Some((k, x)) = vs.iter().next().map(|(k, x)| (*k, x.clone())) {
            // a deletion, an empty value and no entry at all are three things
            for y in [Some(None), Some(Some(vec![])), None] {
                let mut other = vs.clone();
                match &y {
                    Some(z) => other.insert(k, z.clone()),
                    None => other.remove(&k),
                };
                chk!((nb == NodeBatch::new(ns.clone(), other)) == (y == Some(x.clone())), "step {step}: batches that differ in one value ({x:?} and {y:?}) are not told apart");
            }
            st.inc("batches_told_apart");
        }
    }
    // a storage that implements only what it must
    struct Small<'a> {
        ns: &'a Ns,
        vs: &'a Vs,
        fail: bool,
    }
    impl TreeReader for Small<'_> {
        fn get_node_option(&self, k: &NodeKey) -> anyhow::Result<Option<Node>> {
            anyhow::ensure!(!self.fail, "jmtmon: read refused");
            Ok(self.ns.get(k).cloned())
        }
        fn get_value_option(&self, v: u64, k: KeyHash) -> anyhow::Result<Option<Vec<u8>>> {
            anyhow::ensure!(!self.fail, "jmtmon: read refused");
            Ok(self.vs.iter().filter(|((w, l), _)| *l == k && *w <= v).max_by_key(|((w, _), _)| *w).and_then(|x| x.1.clone()))
        }
        fn get_rightmost_leaf(&self) -> anyhow::Result<Option<(NodeKey, LeafNode)>> {
            Ok(None)
        }
    }
    let probes: Vec<NodeKey> = ns.keys().cloned().chain([key(r), key(r)]).collect();
    for fail in [false, true] {
        let s = Small { ns: &ns, vs: &vs, fail };
        for k in &probes {
            let got = guard(|| format!("get_node({k:?})"), || s.get_node(k).map_err(|e| format!("{e:#}")))?;
            match (&got, ns.get(k)) {
                _ if fail => {
                    chk!(got.as_ref().is_err_and(|e| e.contains("read refused")), "get_node({k:?}) over a failing storage gives {got:?}, not the storage's error");
                    st.inc("storage_errors_passed_on");
                }
                (Ok(a), Some(b)) => {
                    chk!(a == b, "get_node({k:?}) gives {a:?}, the storage holds {b:?}");
                    st.inc("derived_reads_found");
                }
                (Err(_), None) => st.inc("derived_reads_missing"),
                (a, b) => vio!("get_node({k:?}) gives {a:?}, the storage holds {b:?}"),
            }
        }
        for k in &pool {
            for v in [0, base.wrapping_sub(1), base, base.wrapping_add(1), base.wrapping_add(2), u64::MAX] {
                let want = Small { ns: &ns, vs: &vs, fail: false }.get_value_option(v, *k).unwrap();
                let got = guard(|| format!("get_value({v}, {})", hx(&k.0)), || s.get_value(v, *k).map_err(|e| format!("{e:#}")))?;
                match (&got, &want) {
                    _ if fail => chk!(got.as_ref().is_err_and(|e| e.contains("read refused")), "get_value({v}) over a failing storage gives {got:?}, not the storage's error"),
                    (Ok(a), Some(b)) => {
                        chk!(a == b, "get_value({v}, {}) gives {a:?}, the storage holds {b:?}", hx(&k.0));
                        st.inc("derived_reads_found");
                    }
                    (Err(_), None) => st.inc("derived_reads_missing"),
                    (a, b) => vio!("get_value({v}, {}) gives {a:?}, the storage holds {b:?}", hx(&k.0)),
                }
            }
        }
    }
    cx.sample = log.lines().take(4).map(|l| l.chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n");
    fnv(&mut cx.sig, log.as_bytes());
    cx.desc = log;
    Ok(())
}
