//! Instrumented storage: records every access, injects faults, watches writes.
use anyhow::{anyhow, Result};
use crate::core::*;
use jmt::mock::MockTreeStore;
use jmt::storage::{
    HasPreimage, LeafNode, Node, NodeBatch, NodeKey, StaleNodeIndex, TreeReader, TreeUpdateBatch, TreeWriter,
};
use jmt::{KeyHash, Version};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const PRE_GENESIS: Version = u64::MAX;

/// Total order of versions in which the reserved pre-genesis version comes before version 0.
pub fn ord(v: Version) -> u128 {
    if v == PRE_GENESIS {
        0
    } else {
        v as u128 + 1
    }
}

#[derive(Default, Clone)]
pub struct Inner {
    pub nodes: HashMap<NodeKey, Node>,
    pub values: BTreeMap<KeyHash, BTreeMap<u128, Option<Vec<u8>>>>,
    pub stale: BTreeSet<StaleNodeIndex>,
    pub preimages: HashMap<KeyHash, Vec<u8>>,
}

#[derive(Default)]
pub struct MonStore {
    pub s: RefCell<Inner>,
    /// number of reads since `reset`
    pub reads: Cell<u64>,
    pub node_reads: Cell<u64>,
    pub value_reads: Cell<u64>,
    /// fail the read with this ordinal (0-based)
    pub fail_at: Cell<Option<u64>>,
    /// fail this and every later read
    pub fail_sticky: Cell<bool>,
    pub faults_fired: Cell<u64>,
    pub fail_write: Cell<bool>,
    pub log_nodes: Cell<bool>,
    pub node_log: RefCell<Vec<NodeKey>>,
    pub writes: Cell<u64>,
    /// writes (entries) seen since reset
    pub written: RefCell<Vec<NodeBatch>>,
    pub log_writes: Cell<bool>,
    /// bound on the reads since `reset`; exceeding it is a hang (see also watch.rs)
    pub budget: Cell<u64>,
    pub total_reads: Cell<u64>,
    /// The library's own in-memory store, kept in step and answering the reads, if this history is to live in it.
    pub mock: RefCell<Option<MockTreeStore>>,
}

pub const BUDGET_MSG: &str = "MONITOR: read budget of one operation exceeded (unbounded loop)";
pub const FAULT_MSG: &str = "injected storage fault";

impl MonStore {
    pub fn new() -> Self {
        let m = MonStore::default();
        m.budget.set(500_000_000);
        m
    }
    pub fn reset(&self) {
        self.total_reads.set(self.total_reads.get() + self.reads.get());
        self.reads.set(0);
        self.node_reads.set(0);
        self.value_reads.set(0);
        self.fail_at.set(None);
        self.fail_sticky.set(false);
        self.faults_fired.set(0);
        self.node_log.borrow_mut().clear();
        self.written.borrow_mut().clear();
        self.writes.set(0);
    }
    fn tick(&self) -> Result<()> {
        let n = self.reads.get();
        self.reads.set(n + 1);
        if n > self.budget.get() {
            panic!("{}", BUDGET_MSG);
        }
        if let Some(f) = self.fail_at.get() {
            if n == f || (self.fail_sticky.get() && n > f) {
                self.faults_fired.set(self.faults_fired.get() + 1);
                return Err(anyhow!(FAULT_MSG));
            }
        }
        Ok(())
    }
    pub fn snapshot(&self) -> Inner {
        self.s.borrow().clone()
    }
    /// A copy (always in the reference store).
    pub fn fork(&self) -> MonStore {
        let m = MonStore::new();
        *m.s.borrow_mut() = self.snapshot();
        m
    }
    pub fn put_value(&self, v: Version, k: KeyHash, val: Option<Vec<u8>>) {
        self.s.borrow_mut().values.entry(k).or_default().insert(ord(v), val);
    }
    pub fn apply_nodes(&self, b: &NodeBatch) {
        let mut s = self.s.borrow_mut();
        for (k, n) in b.nodes() {
            s.nodes.insert(k.clone(), n.clone());
        }
        for ((v, k), val) in b.values() {
            s.values.entry(*k).or_default().insert(ord(*v), val.clone());
        }
    }
    pub fn apply(&self, b: &TreeUpdateBatch) -> R<()> {
        if let Some(m) = &*self.mock.borrow() {
            must(|| "writing an update into MockTreeStore".into(), || m.write_tree_update_batch(b.clone()))?;
        }
        self.apply_nodes(&b.node_batch);
        let mut s = self.s.borrow_mut();
        for i in &b.stale_node_index_batch {
            s.stale.insert(i.clone());
        }
        Ok(())
    }
    /// The documented pruning rule: drop what is stale at or before `lrv`.
    pub fn prune(&self, lrv: Version) -> R<usize> {
        let mut s = self.s.borrow_mut();
        let (gone, keep): (Vec<_>, Vec<_>) =
            s.stale.iter().cloned().partition(|i| ord(i.stale_since_version) <= ord(lrv));
        for i in &gone {
            s.nodes.remove(&i.node_key);
        }
        s.stale = keep.into_iter().collect();
        if let Some(m) = &*self.mock.borrow() {
            must(|| format!("purging MockTreeStore up to {lrv}"), || m.purge_stale_nodes(lrv))?;
            chk!(m.num_nodes() == s.nodes.len(), "MockTreeStore purged up to {lrv} holds {} nodes, {} are left", m.num_nodes(), s.nodes.len());
        }
        Ok(gone.len())
    }
    pub fn node(&self, k: &NodeKey) -> Option<Node> {
        self.s.borrow().nodes.get(k).cloned()
    }
    pub fn node_count(&self) -> usize {
        self.s.borrow().nodes.len()
    }
}

impl TreeReader for MonStore {
    fn get_node_option(&self, node_key: &NodeKey) -> Result<Option<Node>> {
        self.tick()?;
        self.node_reads.set(self.node_reads.get() + 1);
        if self.log_nodes.get() {
            self.node_log.borrow_mut().push(node_key.clone());
        }
        if let Some(m) = &*self.mock.borrow() {
            return m.get_node_option(node_key);
        }
        Ok(self.s.borrow().nodes.get(node_key).cloned())
    }
    fn get_value_option(&self, max_version: Version, key_hash: KeyHash) -> Result<Option<Vec<u8>>> {
        self.tick()?;
        self.value_reads.set(self.value_reads.get() + 1);
        if let Some(m) = &*self.mock.borrow() {
            return m.get_value_option(max_version, key_hash);
        }
        Ok(self
            .s
            .borrow()
            .values
            .get(&key_hash)
            .and_then(|h| h.range(..=ord(max_version)).next_back())
            .and_then(|(_, v)| v.clone()))
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        self.tick()?;
        let s = self.s.borrow();
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, n) in s.nodes.iter() {
            if let Node::Leaf(l) = n {
                let better = match &best {
                    None => true,
                    Some((bk, bl)) => {
                        (l.key_hash(), ord(k.version()), k) > (bl.key_hash(), ord(bk.version()), bk)
                    }
                };
                if better {
                    best = Some((k.clone(), l.clone()));
                }
            }
        }
        Ok(best)
    }
}

impl TreeWriter for MonStore {
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        self.writes.set(self.writes.get() + 1);
        if self.fail_write.get() {
            return Err(anyhow!(FAULT_MSG));
        }
        if self.log_writes.get() {
            self.written.borrow_mut().push(b.clone());
        }
        if let Some(m) = &*self.mock.borrow() {
            m.write_node_batch(b)?;
        }
        self.apply_nodes(b);
        Ok(())
    }
}

impl HasPreimage for MonStore {
    fn preimage(&self, key_hash: KeyHash) -> Result<Option<Vec<u8>>> {
        self.tick()?;
        Ok(self.s.borrow().preimages.get(&key_hash).cloned())
    }
}
