//! Drives a real tree over the instrumented store next to the model.
use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::store::*;
use jmt::mock::MockTreeStore;
use jmt::proof::UpdateMerkleProof;
use jmt::storage::{Node, NibblePath, NodeKey, TreeUpdateBatch};
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher};
use std::marker::PhantomData;
use std::sync::Arc;

#[cfg(feature = "std")]
pub type JHashMap<K, V> = std::collections::HashMap<K, V>;
#[cfg(not(feature = "std"))]
pub type JHashMap<K, V> = hashbrown::HashMap<K, V>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    Plain,
    Proof,
    Batch,
    BatchHashes,
}

#[derive(Clone)]
pub struct Snap {
    pub version: u64,
    pub map: Arc<Map>,
    /// root as reported by the library when the version was written
    pub root: RootHash,
}

pub struct World<H: SimpleHasher> {
    pub store: Arc<MonStore>,
    pub snaps: Vec<Snap>,
    pub start: u64,
    pub base: Arc<Map>,
    _h: PhantomData<H>,
}

pub struct Out<H: SimpleHasher> {
    pub roots: Vec<RootHash>,
    pub batch: TreeUpdateBatch,
    pub proofs: Vec<UpdateMerkleProof<H>>,
}

pub fn root_key(v: u64) -> NodeKey {
    NodeKey::new(v, std::iter::empty().collect::<NibblePath>())
}
pub fn path_vec(p: &NibblePath) -> Vec<u8> {
    p.nibbles().map(u8::from).collect()
}
/// Builds any node key from raw nibbles (through the public encoding; `Nibble` cannot be named).
pub fn node_key(version: u64, nibbles: &[u8]) -> NodeKey {
    NodeKey::new(version, nibble_path(nibbles))
}
pub fn nibble_path(nibbles: &[u8]) -> NibblePath {
    nibbles.iter().map(|n| (*n).into()).collect::<NibblePath>()
}
pub fn node_hash<H: SimpleHasher>(n: &Node) -> H32 {
    match n {
        Node::Null => PLACEHOLDER,
        Node::Internal(i) => i.hash::<H>(),
        Node::Leaf(l) => l.hash::<H>(),
    }
}

impl<H: SimpleHasher> World<H> {
    pub fn new(start: u64) -> Self {
        World { store: Arc::new(MonStore::new()), snaps: vec![], start, base: Arc::new(Map::new()), _h: PhantomData }
    }
    /// An empty tree, or one on top of the plan's pre-genesis state.
    pub fn of(plan: &Plan, st: &mut Stats) -> R<Self> {
        let mut w = Self::new(plan.start);
        if let Some(m) = &plan.pre {
            let mut r = Rng::new(crate::rng::mix(&[m.len() as u64, plan.pool.len() as u64]));
            restore_into::<H>(&w.store.clone(), PRE_GENESIS, m, &mut r)?;
            w.base = Arc::new(m.clone());
            st.inc("histories_on_pre_genesis");
        }
        if let Some(overwrite) = plan.mock {
            *w.store.mock.borrow_mut() = Some(MockTreeStore::new(overwrite));
            st.inc("histories_in_mock_store");
        }
        Ok(w)
    }
    pub fn fork(&self) -> Self {
        World {
            store: Arc::new(self.store.fork()),
            snaps: self.snaps.clone(),
            start: self.start,
            base: self.base.clone(),
            _h: PhantomData,
        }
    }
    pub fn next(&self) -> u64 {
        self.start + self.snaps.len() as u64
    }
    pub fn cur(&self) -> Arc<Map> {
        self.snaps.last().map(|s| s.map.clone()).unwrap_or_else(|| self.base.clone())
    }
    pub fn cur_root(&self) -> RootHash {
        self.snaps.last().map(|s| s.root).unwrap_or(RootHash(root::<H>(&self.base)))
    }
    pub fn tree(&self) -> JellyfishMerkleTree<'_, MonStore, H> {
        JellyfishMerkleTree::new(&*self.store)
    }
    /// May the bulk entry point be used for these sets now?
    pub fn batch_ok(&self, sets: &[Vec<Op>]) -> bool {
        (!self.snaps.is_empty() || self.start == 0)
            && sets.iter().all(|s| !s.is_empty() && s.iter().all(|(_, v)| v.is_some()))
    }
    /// Computes (does not write) an update for consecutive versions starting at `first`.
    pub fn compute(&self, sets: &[Vec<Op>], first: u64, e: Entry) -> R<Out<H>> {
        let what = || format!("computing update of versions {}..+{} via {:?}", first, sets.len(), e);
        let t = self.tree();
        Ok(match e {
            Entry::Plain if sets.len() == 1 => {
                let (r, b) = must(what, || t.put_value_set(sets[0].clone(), first))?;
                Out { roots: vec![r], batch: b, proofs: vec![] }
            }
            Entry::Plain => {
                let (r, b) = must(what, || t.put_value_sets(sets.to_vec(), first))?;
                Out { roots: r, batch: b, proofs: vec![] }
            }
            Entry::Proof if sets.len() == 1 => {
                let (r, p, b) = must(what, || t.put_value_set_with_proof(sets[0].clone(), first))?;
                Out { roots: vec![r], batch: b, proofs: vec![p] }
            }
            Entry::Proof => {
                let (rp, b) = must(what, || t.put_value_sets_with_proof(sets.to_vec(), first))?;
                let (roots, proofs) = rp.into_iter().unzip();
                Out { roots, batch: b, proofs }
            }
            Entry::Batch | Entry::BatchHashes => {
                let vs: Vec<Vec<_>> = sets
                    .iter()
                    .map(|s| s.iter().filter_map(|(k, v)| v.clone().map(|v| (*k, v))).collect())
                    .collect();
                if e == Entry::Batch {
                    let (r, b) = must(what, || t.batch_put_value_sets(vs, None, first))?;
                    Out { roots: r, batch: b, proofs: vec![] }
                } else {
                    // precomputed hashes come from the specification, not from the library
                    let mut m = (*self.cur()).clone();
                    let mut hs: Vec<JHashMap<NibblePath, H32>> = vec![];
                    for s in sets {
                        m = apply(&m, s);
                        let mut hm = JHashMap::default();
                        for (p, h) in crate::spec::node_hashes::<H>(&entries::<H>(&m)) {
                            hm.insert(nibble_path(&p), h);
                        }
                        hs.push(hm);
                    }
                    let (r, b) =
                        must(what, || t.batch_put_value_sets(vs, Some(hs.iter().collect()), first))?;
                    Out { roots: r, batch: b, proofs: vec![] }
                }
            }
        })
    }
    pub fn commit(&mut self, sets: &[Vec<Op>], e: Entry) -> R<Out<H>> {
        let first = self.next();
        let out = self.compute(sets, first, e)?;
        chk!(
            out.roots.len() == sets.len(),
            "update of {} versions reported {} roots",
            sets.len(),
            out.roots.len()
        );
        self.store.apply(&out.batch)?;
        for (i, s) in sets.iter().enumerate() {
            let m = Arc::new(apply(&self.cur(), s));
            self.snaps.push(Snap { version: first + i as u64, map: m, root: out.roots[i] });
        }
        Ok(out)
    }
    /// Commits a whole plan in random groups and entry points.
    pub fn run_plan(&mut self, plan: &Plan, r: &mut Rng, st: &mut Stats) -> R<()> {
        for g in groups(plan, r) {
            let sets = &plan.sets[g.0..g.1];
            let e = self.choose(sets, r);
            self.commit(sets, e)?;
            count_ops(sets, e, st);
        }
        Ok(())
    }
    pub fn choose(&self, sets: &[Vec<Op>], r: &mut Rng) -> Entry {
        match r.below(10) {
            0..=4 => Entry::Plain,
            5..=6 => Entry::Proof,
            7 if self.batch_ok(sets) => Entry::BatchHashes,
            _ if self.batch_ok(sets) => Entry::Batch,
            _ => Entry::Plain,
        }
    }
}

pub fn count_ops(sets: &[Vec<Op>], e: Entry, st: &mut Stats) {
    st.add("versions_committed", sets.len() as u64);
    st.add("operations_applied", sets.iter().map(|s| s.len() as u64).sum());
    if sets.len() > 1 {
        st.inc("multi_version_calls");
    }
    st.inc(match e {
        Entry::Plain => "calls_plain",
        Entry::Proof => "calls_with_proof",
        Entry::Batch => "calls_bulk",
        Entry::BatchHashes => "calls_bulk_hashes",
    });
}

/// Random partition of the plan's versions into calls.
pub fn groups(plan: &Plan, r: &mut Rng) -> Vec<(usize, usize)> {
    let n = plan.sets.len();
    let single = r.chance(50);
    let all = !single && r.chance(10);
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        let len = if all {
            n
        } else if single || r.chance(50) {
            1
        } else {
            r.range(1, 4)
        }
        .min(n - i);
        out.push((i, i + len));
        i += len;
    }
    out
}

/// Puts `map` into storage at `version` the way an operator would: a restoration.
pub fn restore_into<H: SimpleHasher>(store: &Arc<MonStore>, version: u64, map: &Map, r: &mut Rng) -> R<()> {
    let mut src = World::<H>::new(0);
    let ops: Vec<Op> = map.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    src.commit(&[ops], Entry::Plain)?;
    let rt = RootHash(root::<H>(map));
    let mut rec = must(|| "new restore".into(), || JellyfishMerkleRestore::<H>::new(store.clone(), version, rt))?;
    let all: Vec<(KeyHash, Vec<u8>)> = map.iter().map(|(k, v)| (*k, v.clone())).collect();
    let mut i = 0;
    while i < all.len() {
        let n = r.range(1, all.len() - i);
        let p = must(|| "get_range_proof".into(), || src.tree().get_range_proof(all[i + n - 1].0, 0))?;
        must(|| format!("add_chunk {i}..{}", i + n), || rec.add_chunk(all[i..i + n].to_vec(), p))?;
        i += n;
    }
    must(|| "finish".into(), || rec.finish())
}
