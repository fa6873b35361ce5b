//! C20: every storage read of every operation fails once (and stickily).
use crate::core::*;
use crate::forge::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::store::*;
use crate::world::*;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{TreeReader, TreeUpdateBatch};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use std::sync::Arc;

/// What an operation returned: the items of a sequence (one item for a single result), and whether an error ended it.
struct Seen {
    items: Vec<Vec<u8>>,
    err: Option<String>,
    /// items offered after the error
    later: Vec<Vec<u8>>,
    reads: u64,
    fired: u64,
}
type Fault = Option<(u64, bool)>;

fn watch(s: &MonStore, f: Fault, what: &str, op: impl FnOnce(&mut Vec<Vec<u8>>, &mut Vec<Vec<u8>>) -> anyhow::Result<()>) -> R<Seen> {
    s.reset();
    if let Some((n, sticky)) = f {
        s.fail_at.set(Some(n));
        s.fail_sticky.set(sticky);
    }
    let (mut items, mut later) = (vec![], vec![]);
    let res = guard(|| format!("{what} with {}", name(f)), || op(&mut items, &mut later));
    let (reads, fired) = (s.reads.get(), s.faults_fired.get());
    s.reset();
    Ok(Seen { items, err: res?.err().map(|e| format!("{e:#}")), later, reads, fired })
}
fn name(f: Fault) -> String {
    match f {
        None => "no fault".into(),
        Some((n, false)) => format!("storage read {n} failing once"),
        Some((n, true)) => format!("storage reads from {n} on failing"),
    }
}

type Op1<'a> = (&'static str, String, Box<dyn Fn(Fault) -> R<Seen> + 'a>);

fn b<T: borsh::BorshSerialize>(v: &T) -> Vec<u8> {
    borsh::to_vec(v).expect("in-memory encoding")
}
fn upd(roots: &[RootHash], batch: &TreeUpdateBatch) -> Vec<u8> {
    let mut o = b(&roots.to_vec());
    o.extend(b(batch));
    o
}

fn excl<H: SimpleHasher>(e: &jmt::ExclusionProof<H>) -> Vec<u8> {
    use jmt::ExclusionProof::*;
    match e {
        Leftmost { leftmost_right_proof: r } => [vec![0], b(r)].concat(),
        Middle { leftmost_right_proof: r, rightmost_left_proof: l } => [vec![1], b(r), b(l)].concat(),
        Rightmost { rightmost_left_proof: l } => [vec![2], b(l)].concat(),
    }
}

fn iterate(
    it: anyhow::Result<JellyfishMerkleIterator<MonStore>>,
    items: &mut Vec<Vec<u8>>,
    later: &mut Vec<Vec<u8>>,
) -> anyhow::Result<()> {
    let mut it = it?;
    while let Some(x) = it.next() {
        match x {
            Ok(kv) => items.push(b(&kv)),
            Err(e) => {
                for _ in 0..40 {
                    match it.next() {
                        Some(Ok(kv)) => later.push(b(&kv)),
                        Some(Err(_)) => {}
                        None => break,
                    }
                }
                return Err(e);
            }
        }
    }
    Ok(())
}

/// Enumerates the reads of one operation.
fn enumerate(r: &mut Rng, st: &mut Stats, digest: &mut u64, op: &Op1, cap: u64) -> R<()> {
    let (kind, what, run) = op;
    let clean = run(None)?;
    if clean.err.is_none() {
        st.inc("operations_correct_without_fault");
    }
    for i in &clean.items {
        fnv(digest, i);
    }
    st.inc(kind);
    st.peak("reads_of_one_operation", clean.reads);
    let n = clean.reads;
    let mut at: Vec<u64> = (0..n).collect();
    if n > cap {
        r.shuffle(&mut at);
        at.truncate(cap as usize - 2);
        at.extend([0, n - 1]);
        st.inc("operations_sampled_not_enumerated");
    } else {
        st.inc("operations_fully_enumerated");
    }
    for i in at {
        for sticky in [false, true] {
            if sticky && r.chance(50) {
                continue;
            }
            let f = Some((i, sticky));
            let got = run(f)?;
            chk!(got.fired > 0 || got.items == clean.items, "{what}: {} reads without fault, but read {i} was not reached again and the result differs", n);
            st.add("faults_injected", got.fired.min(1));
            match &got.err {
                None => {
                    st.inc("results_despite_fault");
                    chk!(
                        clean.err.is_none() && got.items == clean.items,
                        "{what} with {}: reported success with a result that differs from the correct one ({} items, correct {}; correct run failed: {:?})",
                        name(f),
                        got.items.len(),
                        clean.items.len(),
                        clean.err
                    );
                }
                Some(_) => {
                    st.inc("errors_returned");
                    chk!(
                        clean.items.starts_with(&got.items),
                        "{what} with {}: the {} items before the error are not the first of the correct {}",
                        name(f),
                        got.items.len(),
                        clean.items.len()
                    );
                    chk!(
                        clean.items[got.items.len()..].starts_with(&got.later),
                        "{what} with {}: the {} items yielded after the error do not continue the correct sequence where the error interrupted it",
                        name(f),
                        got.later.len()
                    );
                    if !got.later.is_empty() {
                        st.inc("sequences_resumed_after_error");
                    }
                }
            }
        }
    }
    let again = run(None)?;
    chk!(again.items == clean.items && again.err == clean.err, "{what}: result after the faults cleared differs from the one before");
    st.inc("retries_compared");
    Ok(())
}

pub fn c20<H: SimpleHasher + 'static>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::std();
    match cx.rng.below(8) {
        0 => cfg.pool = (30, 60),
        1 => cfg.pool = (1, 3),
        _ => cfg.pool = (2, 14),
    }
    cfg.versions = (1, 4);
    cfg.nonempty_values = true;
    let mut plan = gen_plan(&mut cx.rng, &cfg);
    // some keys with known preimages
    let names: Vec<Vec<u8>> = (0..4u8).map(|i| vec![b'k', i, cx.rng.below(256) as u8]).collect();
    let i = cx.rng.below(plan.sets.len());
    for n in &names[..2] {
        let k = KeyHash(H::hash(n));
        plan.sets[i].push((k, Some(n.clone())));
        plan.pool.push(k);
    }
    let p = cx.rng.chance(50);
    if p {
        // always a two-neighbour situation
        plan.sets[i].push((KeyHash([0; 32]), Some(vec![1])));
        plan.sets[i].push((KeyHash([0xff; 32]), Some(vec![2])));
    }
    cx.plan(&plan);
    let thorough = cx.thorough;
    let (r, st, digest) = (&mut cx.rng, &mut cx.stats, &mut cx.digest);
    let mut w = World::<H>::of(&plan, st)?;
    w.run_plan(&plan, r, st)?;
    {
        let mut s = w.store.s.borrow_mut();
        for k in plan.pool.iter().chain([&KeyHash([0; 32]), &KeyHash([0xff; 32])]) {
            s.preimages.insert(*k, k.0[..7].to_vec());
        }
        for n in &names[..2] {
            s.preimages.insert(KeyHash(H::hash(n)), n.clone());
        }
    }
    let w = w;
    let store = &w.store;
    // updates go on top of the latest version, or are the first ones on top of a pre-genesis state or of nothing
    let gen = if r.chance(20) {
        let mut m = Map::new();
        let share = *r.pick(&[0, 30, 100]);
        for k in &plan.pool {
            if r.chance(share) {
                m.insert(*k, vec![9, k.0[0]]);
            }
        }
        let p0 = Plan { start: 0, pool: plan.pool.clone(), sets: vec![], pre: if r.chance(80) { Some(m) } else { None }, mock: None };
        st.inc("first_updates");
        Some(World::<H>::of(&p0, st)?)
    } else {
        None
    };
    let ustore = gen.as_ref().map(|g| &g.store).unwrap_or(store);
    let mut ops: Vec<Op1> = vec![];
    let s = r.pick(&w.snaps).clone();
    let v = s.version;
    macro_rules! op {
        ($kind:literal, $what:expr, |$t:ident, $items:ident, $later:ident| $body:expr) => {
            op!(on store, $kind, $what, |$t, $items, $later| $body)
        };
        (on $store:ident, $kind:literal, $what:expr, |$t:ident, $items:ident, $later:ident| $body:expr) => {{
            let what: String = $what;
            let w2 = what.clone();
            ops.push((
                $kind,
                what,
                Box::new(move |f| {
                    let $t = JellyfishMerkleTree::<MonStore, H>::new(&**$store);
                    #[allow(unused)]
                    watch($store, f, &w2, |$items, $later| $body)
                }),
            ));
        }};
    }
    // root and count
    op!("op_get_root_hash", format!("get_root_hash({v})"), |t, items, later| { items.push(b(&t.get_root_hash(v)?)); Ok(()) });
    op!("op_get_root_hash_option", format!("get_root_hash_option({v})"), |t, items, later| { items.push(b(&t.get_root_hash_option(v)?)); Ok(()) });
    op!("op_get_root_hash_option", format!("get_root_hash_option({})", v.wrapping_add(1 << 20)), |t, items, later| { items.push(b(&t.get_root_hash_option(v.wrapping_add(1 << 20))?)); Ok(()) });
    op!("op_get_leaf_count", format!("get_leaf_count({v})"), |t, items, later| { items.push(b(&(t.get_leaf_count(v)? as u64))); Ok(()) });
    // key reads and proofs
    let mut ks = probes(r, &plan.pool, &s.map, 6);
    r.shuffle(&mut ks);
    ks.truncate(if thorough { 12 } else { 6 });
    for k in ks {
        let present = s.map.contains_key(&k);
        let at = format!("{} ({}) at {v}", hx(&k.0), if present { "present" } else { "absent" });
        op!("op_get", format!("get {at}"), |t, items, later| { items.push(b(&t.get(k, v)?)); Ok(()) });
        op!("op_get_with_proof", format!("get_with_proof {at}"), |t, items, later| { let (x, p) = t.get_with_proof(k, v)?; items.push([b(&x), b(&p)].concat()); Ok(()) });
        op!("op_exclusion", format!("get_with_exclusion_proof {at}"), |t, items, later| {
            items.push(match t.get_with_exclusion_proof(k, v)? { Ok((x, p)) => [b(&x), b(&p)].concat(), Err(e) => excl(&e) });
            Ok(())
        });
        if present {
            op!("op_range_proof", format!("get_range_proof {at}"), |t, items, later| { items.push(b(&t.get_range_proof(k, v)?)); Ok(()) });
        }
        op!("op_iterate", format!("iterating from {at}"), |t, items, later| iterate(JellyfishMerkleIterator::new(store.clone(), v, k), items, later));
    }
    let n = s.map.len();
    for i in [0, n / 2, n] {
        op!("op_iterate_by_index", format!("iterating version {v} from index {i} of {n}"), |t, items, later| iterate(JellyfishMerkleIterator::new_by_index(store.clone(), v, i), items, later));
    }
    #[cfg(feature = "ics23")]
    for name in &names {
        let name = name.clone();
        op!("op_ics23", format!("get_with_ics23_proof({}) at {v}", hx(&name)), |t, items, later| {
            let (x, p) = t.get_with_ics23_proof(name.clone(), v)?;
            items.push([b(&x), format!("{p:?}").into_bytes()].concat());
            Ok(())
        });
    }
    // the trait's own provided methods
    let rk = root_key(v);
    op!("op_store", format!("get_node(root of {v})"), |t, items, later| { items.push(b(&store.get_node(&rk)?)); Ok(()) });
    if let Some(k) = s.map.keys().next().copied() {
        op!("op_store", "get_value".into(), |t, items, later| { items.push(b(&store.get_value(v, k)?)); Ok(()) });
    }
    // updates of the latest version
    let uw = gen.as_ref().unwrap_or(&w);
    let next = uw.next();
    let mut ctr = 1u64 << 44;
    let cur = uw.cur();
    let dels: Vec<Op> = cur.keys().map(|k| (*k, None)).collect();
    let mut sets = vec![gen_set(r, &cfg, &plan.pool, &cur, &mut ctr)];
    if r.chance(30) && !dels.is_empty() {
        let mut d = dels;
        r.shuffle(&mut d);
        d.truncate(r.range(1, d.len()));
        sets[0] = d;
    }
    sets.push(gen_set(r, &cfg, &plan.pool, &apply(&cur, &sets[0]), &mut ctr));
    let one = sets[0].clone();
    let (o1, o2, s1, s2) = (one.clone(), one.clone(), sets.clone(), sets.clone());
    op!(on ustore, "op_put", format!("put_value_set of {} operations at {next}", one.len()), |t, items, later| { let (x, p) = t.put_value_set(o1.clone(), next)?; items.push(upd(&[x], &p)); Ok(()) });
    op!(on ustore, "op_put_with_proof", format!("put_value_set_with_proof of {} operations at {next}", one.len()), |t, items, later| {
        let (x, p, u) = t.put_value_set_with_proof(o2.clone(), next)?;
        items.push([upd(&[x], &u), b(&p)].concat());
        Ok(())
    });
    op!(on ustore, "op_put_sets", format!("put_value_sets of two versions at {next}"), |t, items, later| { let (x, p) = t.put_value_sets(s1.clone(), next)?; items.push(upd(&x, &p)); Ok(()) });
    op!(on ustore, "op_put_sets", format!("put_value_sets_with_proof of two versions at {next}"), |t, items, later| {
        let (x, u) = t.put_value_sets_with_proof(s2.clone(), next)?;
        let (roots, ps): (Vec<_>, Vec<_>) = x.into_iter().unzip();
        items.push([upd(&roots, &u), b(&ps)].concat());
        Ok(())
    });
    let ins: Vec<Vec<(KeyHash, Vec<u8>)>> = sets.iter().map(|s| s.iter().filter_map(|(k, v)| v.clone().map(|v| (*k, v))).collect::<Vec<_>>()).filter(|s: &Vec<_>| !s.is_empty()).collect();
    if !ins.is_empty() {
        op!(on ustore, "op_batch_put", format!("batch_put_value_sets of {} versions at {next}", ins.len()), |t, items, later| { let (x, p) = t.batch_put_value_sets(ins.clone(), None, next)?; items.push(upd(&x, &p)); Ok(()) });
    }
    let last = w.snaps.last().unwrap().version;
    let ap: Vec<Op> = gen_set(r, &cfg, &plan.pool, &w.cur(), &mut ctr);
    op!("op_append", format!("append_value_set of {} operations to {last}", ap.len()), |t, items, later| { let (x, p) = t.append_value_set(ap.clone(), last)?; items.push(upd(&[x], &p)); Ok(()) });
    // restoration recovered from an interrupted one: constructor reads, then the rest must complete
    if !s.map.is_empty() {
        let all: Vec<(KeyHash, Vec<u8>)> = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
        let part = Arc::new(MonStore::new());
        let target = gen_start(r);
        let cut = r.range(0, all.len());
        let proof = |i: usize| range_from_jmt(&w.tree().get_range_proof(all[i].0, v).map_err(|e| Fail::Vio(format!("range proof: {e}")))?);
        if cut > 0 {
            let mut rec = must(|| "new restore".into(), || JellyfishMerkleRestore::<H>::new(part.clone(), target, s.root))?;
            let p = range_to_jmt::<H>(&proof(cut - 1)?)?;
            must(|| "first chunk".into(), || rec.add_chunk(all[..cut].to_vec(), p))?;
        }
        let from = {
            let rm = part.get_rightmost_leaf().ok().flatten().map(|x| x.1.key_hash());
            all.iter().position(|e| Some(e.0) > rm).unwrap_or(all.len())
        };
        let fin = if from < all.len() { Some(proof(all.len() - 1)?) } else { None };
        let root = s.root;
        let what = format!("resuming a restoration into {target} at entry {from} of {}", all.len());
        let w2 = what.clone();
        ops.push((
            "op_restore",
            what,
            Box::new(move |f| {
                let st2 = Arc::new(part.fork());
                watch(&st2.clone(), f, &w2, |items, _| {
                    let rec = JellyfishMerkleRestore::<H>::new(st2.clone(), target, root)?;
                    // an opened receiver has the true state: whatever is wrong with it is a wrong result of opening it
                    st2.fail_at.set(None);
                    let mut rec = Some(rec);
                    let mut rest = || -> anyhow::Result<()> {
                        if let Some(p) = &fin {
                            let p = range_to_jmt::<H>(p).map_err(|e| anyhow::anyhow!("{e:?}"))?;
                            rec.as_mut().expect("receiver").add_chunk(all[from..].to_vec(), p)?;
                        }
                        rec.take().expect("receiver").finish()
                    };
                    if let Err(e) = rest() {
                        items.push(format!("the opened receiver failed: {e:#}").into_bytes());
                        return Ok(());
                    }
                    let s = st2.s.borrow();
                    let mut nodes: Vec<Vec<u8>> = s.nodes.iter().map(|x| b(&x)).collect();
                    nodes.sort();
                    items.push(nodes.concat());
                    Ok(())
                })
            }),
        ));
    }
    for o in &ops {
        enumerate(r, st, digest, o, if thorough { 200 } else { 40 })?;
    }
    Ok(())
}
