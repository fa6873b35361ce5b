//! C23: one workload touching every public operation; everything it yields goes into a digest that is compared
//! between repetitions, processes, feature sets and build profiles.
use crate::core::*;
use crate::forge::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::store::*;
use crate::world::*;
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::{TreeReader, TreeUpdateBatch};
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use std::sync::Arc;

/// Outputs in order: a digest of everything, and the last few tags for the report.
pub struct Rec {
    pub digest: u64,
    pub outputs: u64,
    pub accepted: u64,
    pub refused: u64,
    pub panics: u64,
}
impl Rec {
    fn new() -> Self {
        Rec { digest: 0xcbf2_9ce4_8422_2325, outputs: 0, accepted: 0, refused: 0, panics: 0 }
    }
    /// Records what `f` did: its bytes, that it failed, or that it panicked (never the message).
    fn put(&mut self, tag: &str, f: impl FnOnce() -> anyhow::Result<Vec<u8>>) {
        fnv(&mut self.digest, tag.as_bytes());
        self.outputs += 1;
        match catch(f) {
            Ok(Ok(b)) => {
                fnv(&mut self.digest, b"ok");
                fnv(&mut self.digest, &b);
                self.accepted += 1;
            }
            Ok(Err(_)) => {
                fnv(&mut self.digest, b"err");
                self.refused += 1;
            }
            Err(_) => {
                fnv(&mut self.digest, b"panic");
                self.panics += 1;
            }
        }
    }
}
fn b<T: borsh::BorshSerialize>(v: &T) -> Vec<u8> {
    borsh::to_vec(v).expect("in-memory encoding")
}
fn upd(roots: &[RootHash], batch: &TreeUpdateBatch) -> Vec<u8> {
    [b(&roots.to_vec()), b(batch)].concat()
}
fn excl<H: SimpleHasher>(e: &jmt::ExclusionProof<H>) -> Vec<u8> {
    use jmt::ExclusionProof::*;
    match e {
        Leftmost { leftmost_right_proof: r } => [vec![0], b(r)].concat(),
        Middle { leftmost_right_proof: r, rightmost_left_proof: l } => [vec![1], b(r), b(l)].concat(),
        Rightmost { rightmost_left_proof: l } => [vec![2], b(l)].concat(),
    }
}
fn items(it: anyhow::Result<JellyfishMerkleIterator<MonStore>>, max: usize) -> anyhow::Result<Vec<u8>> {
    let mut o = vec![];
    for (n, x) in it?.enumerate() {
        anyhow::ensure!(n <= max, "too many items");
        match x {
            Ok(x) => o.extend(b(&x)),
            Err(_) => {
                o.push(255);
                break;
            }
        }
    }
    Ok(o)
}

/// The workload. `ics` receives what only exists in builds with ICS23 support.
fn drive<H: SimpleHasher + 'static>(plan: &Plan, names: &[Vec<u8>], mut r: Rng, rec: &mut Rec, ics: &mut Rec) -> R<()> {
    let r = &mut r;
    let mut w = World::<H>::new(plan.start);
    {
        let mut s = w.store.s.borrow_mut();
        for k in &plan.pool {
            s.preimages.insert(*k, k.0[..7].to_vec());
        }
        for n in names {
            s.preimages.insert(KeyHash(H::hash(n)), n.clone());
        }
    }
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        let old = w.cur_root();
        let out = w.commit(sets, e)?;
        rec.put("commit", || Ok([upd(&out.roots, &out.batch), b(&out.proofs)].concat()));
        let mut from = old;
        for (i, p) in out.proofs.into_iter().enumerate() {
            // honest and damaged update proofs
            let mut ps = upd_from_jmt(&p)?;
            let to = out.roots[i];
            rec.put("verify_update", || p.verify_update(from, to, &sets[i]).map(|_| vec![]));
            for _ in 0..3 {
                if ps.is_empty() {
                    break;
                }
                let j = r.below(ps.len());
                let es = entries::<H>(&w.cur());
                mutate_proof(r, &mut ps[j], &es, &[], &sets[i][j].0 .0);
                let q = upd_to_jmt::<H>(&ps)?;
                rec.put("verify_update(damaged)", || q.verify_update(from, to, &sets[i]).map(|_| vec![]));
            }
            from = to;
        }
    }
    let snaps = w.snaps.clone();
    let query = |w: &World<H>, r: &mut Rng, rec: &mut Rec, ics: &mut Rec| -> R<()> {
        let t = w.tree();
        for s in &snaps {
            let v = s.version;
            rec.put("root", || Ok(b(&t.get_root_hash(v)?)));
            rec.put("root_option", || Ok(b(&t.get_root_hash_option(v)?)));
            rec.put("leaf_count", || Ok(b(&(t.get_leaf_count(v)? as u64))));
            let es = entries::<H>(&s.map);
            for k in probes(r, &plan.pool, &s.map, 6) {
                rec.put("get", || Ok(b(&t.get(k, v)?)));
                let mut proof = None;
                rec.put("get_with_proof", || {
                    let (x, p) = t.get_with_proof(k, v)?;
                    let o = [b(&x), b(&p)].concat();
                    proof = Some((x, p));
                    Ok(o)
                });
                if let Some((x, p)) = proof {
                    rec.put("verify", || p.verify(s.root, k, x.as_ref()).map(|_| vec![]));
                    let mut sp = from_jmt(&p)?;
                    for _ in 0..3 {
                        mutate_proof(r, &mut sp, &es, &[], &k.0);
                        let q = to_jmt::<H>(&sp)?;
                        rec.put("verify(damaged)", || q.verify(s.root, k, x.as_ref()).map(|_| vec![]));
                        rec.put("verify_nonexistence(damaged)", || q.verify_nonexistence(s.root, k).map(|_| vec![]));
                        rec.put("root_hash(damaged)", || Ok(if sp.leaf.is_some() { b(&q.root_hash()) } else { vec![] }));
                    }
                }
                rec.put("exclusion", || Ok(match t.get_with_exclusion_proof(k, v)? { Ok((x, p)) => [b(&x), b(&p)].concat(), Err(e) => excl(&e) }));
                if let Some(val) = s.map.get(&k) {
                    let mut rp = None;
                    rec.put("range_proof", || {
                        let p = t.get_range_proof(k, v)?;
                        let o = b(&p);
                        rp = Some(p);
                        Ok(o)
                    });
                    if let Some(p) = rp {
                        let mut sib = range_from_jmt(&p)?;
                        let leaf = leaf_to_jmt(&k.0, &value_hash::<H>(val))?;
                        let left = left_siblings::<H>(&es, &k.0);
                        rec.put("range verify", || p.verify(s.root, leaf, left.clone()).map(|_| vec![]));
                        mutate_nodes(r, &mut sib, &[]);
                        let q = range_to_jmt::<H>(&sib)?;
                        rec.put("range verify(damaged)", || q.verify(s.root, leaf, left.clone()).map(|_| vec![]));
                    }
                }
                rec.put("iterate", || items(JellyfishMerkleIterator::new(w.store.clone(), v, k), s.map.len()));
            }
            let i = r.below(s.map.len() + 2);
            rec.put("iterate_by_index", || items(JellyfishMerkleIterator::new_by_index(w.store.clone(), v, i), s.map.len()));
            #[cfg(feature = "ics23")]
            for n in names {
                ics.put("ics23", || {
                    let (x, p) = t.get_with_ics23_proof(n.clone(), v)?;
                    Ok([b(&x), format!("{p:?}").into_bytes()].concat())
                });
            }
            let _ = &ics;
        }
        Ok(())
    };
    query(&w, r, rec, ics)?;
    // further updates, not written
    let next = w.next();
    let mut ctr = 1u64 << 44;
    for _ in 0..3 {
        let set = gen_set(r, &Cfg::std(), &plan.pool, &w.cur(), &mut ctr);
        let last = snaps.last().unwrap().version;
        rec.put("append", || w.tree().append_value_set(set.clone(), last).map(|(x, u)| upd(&[x], &u)));
        rec.put("put", || w.tree().put_value_set(set.clone(), next).map(|(x, u)| upd(&[x], &u)));
        rec.put("put_with_proof", || w.tree().put_value_set_with_proof(set.clone(), next).map(|(x, p, u)| [upd(&[x], &u), b(&p)].concat()));
    }
    // a restoration in chunks, one of them damaged and refused
    let s = r.pick(&snaps).clone();
    if !s.map.is_empty() {
        let all: Vec<(KeyHash, Vec<u8>)> = s.map.iter().map(|(k, v)| (*k, v.clone())).collect();
        let dst = Arc::new(MonStore::new());
        let mock = Arc::new(MockTreeStore::default());
        let target = gen_start(r);
        let mut ra = Some(JellyfishMerkleRestore::<H>::new(dst.clone(), target, s.root));
        let mut rb = Some(JellyfishMerkleRestore::<H>::new(mock.clone(), target, s.root));
        if let (Some(Ok(a)), Some(Ok(m))) = (&mut ra, &mut rb) {
            let mut i = 0;
            while i < all.len() {
                let n = r.range(1, all.len() - i);
                let sib = range_from_jmt(&must(|| "range proof".into(), || w.tree().get_range_proof(all[i + n - 1].0, s.version))?)?;
                if r.chance(50) {
                    let mut bad = sib.clone();
                    mutate_nodes(r, &mut bad, &[]);
                    let mut c = all[i..i + n].to_vec();
                    if r.chance(30) {
                        c[n / 2].1.push(1);
                    }
                    let q = range_to_jmt::<H>(&bad)?;
                    let probe = Arc::new(dst.fork());
                    rec.put("damaged chunk", || {
                        let mut x = JellyfishMerkleRestore::<H>::new(probe.clone(), target, s.root)?;
                        x.add_chunk(c, q).map(|_| vec![])
                    });
                }
                let (p, q) = (range_to_jmt::<H>(&sib)?, range_to_jmt::<H>(&sib)?);
                rec.put("chunk", || a.add_chunk(all[i..i + n].to_vec(), p).map(|_| vec![]));
                rec.put("chunk(mock)", || m.add_chunk(all[i..i + n].to_vec(), q).map(|_| vec![]));
                rec.put("rightmost(mock)", || Ok(mock.get_rightmost_leaf()?.map(|x| b(&x)).unwrap_or_default()));
                i += n;
            }
        }
        if let (Some(Ok(a)), Some(Ok(m))) = (ra.take(), rb.take()) {
            rec.put("finish", || a.finish().map(|_| vec![]));
            rec.put("finish(mock)", || m.finish().map(|_| vec![]));
        }
        let st = dst.s.borrow();
        let mut nodes: Vec<_> = st.nodes.iter().map(|(k, n)| (k.clone(), b(n))).collect();
        nodes.sort();
        rec.put("restored", || Ok(b(&nodes)));
        let t = JellyfishMerkleTree::<_, H>::new(&*mock);
        rec.put("restored(mock)", || Ok([b(&t.get_root_hash(target)?), b(&(mock.num_nodes() as u64))].concat()));
    }
    // pruning, then the same questions again
    let p = r.pick(&snaps).version;
    let gone = w.store.prune(p)?;
    rec.put("pruned", || Ok(b(&(gone as u64))));
    query(&w, r, rec, ics)?;
    w.snaps.clear();
    Ok(())
}

pub fn c23<H: SimpleHasher + 'static>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied(&mut cx.rng, false);
    cfg.nonempty_values = true;
    let mut plan = gen_plan(&mut cx.rng, &cfg);
    let names: Vec<Vec<u8>> = (0..4u8).map(|i| vec![b'k', i, cx.rng.below(256) as u8]).collect();
    let i = cx.rng.below(plan.sets.len());
    for n in &names[..2] {
        let k = KeyHash(H::hash(n));
        plan.sets[i].push((k, Some(n.clone())));
        plan.pool.push(k);
    }
    cx.plan(&plan);
    let seed = cx.rng.u64();
    let mut first: Option<(u64, u64)> = None;
    for round in 0..2 {
        let (mut rec, mut ics) = (Rec::new(), Rec::new());
        drive::<H>(&plan, &names, Rng::new(seed), &mut rec, &mut ics)?;
        let d = (rec.digest, ics.digest);
        if let Some(f) = first {
            chk!(f == d, "repeating the same operations in one process gives other outputs (digests {f:x?} and {d:x?})");
            cx.stats.inc("repetitions_compared");
        }
        first = Some(d);
        if round == 0 {
            cx.stats.add("outputs_recorded", rec.outputs + ics.outputs);
            cx.stats.add("outputs_accepted", rec.accepted);
            cx.stats.add("outputs_refused", rec.refused);
            cx.stats.add("outputs_ics23", ics.outputs);
            cx.stats.add("panics_recorded", rec.panics);
        }
    }
    let (d, i) = first.unwrap();
    cx.digest = d;
    cx.digest_ics = i;
    Ok(())
}
