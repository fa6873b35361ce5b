//! Walks one version of a stored tree and checks every structural invariant on the way.
use crate::core::*;
use crate::spec::*;
use crate::store::*;
use crate::world::*;
use jmt::storage::{Node, NodeKey};
use jmt::SimpleHasher;
use std::collections::{BTreeMap, BTreeSet};

pub struct Walk {
    /// nibble path -> key under which that node is stored
    pub paths: BTreeMap<Vec<u8>, NodeKey>,
    pub leaves: BTreeSet<NodeKey>,
}
impl Walk {
    pub fn keys(&self) -> BTreeSet<NodeKey> {
        self.paths.values().cloned().collect()
    }
}

/// Reachable set of a version without judging it (structure problems are left to C16).
pub fn reach(store: &MonStore, version: u64) -> Option<Walk> {
    let mut w = Walk { paths: BTreeMap::new(), leaves: BTreeSet::new() };
    let mut stack = vec![(vec![], root_key(version))];
    while let Some((path, key)) = stack.pop() {
        let node = store.node(&key)?;
        w.paths.insert(path.clone(), key.clone());
        match node {
            Node::Internal(i) => {
                for (n, c) in i.children_sorted() {
                    let mut p = path.clone();
                    p.push(u8::from(n));
                    stack.push((p.clone(), node_key(c.version, &p)));
                }
            }
            Node::Leaf(_) => {
                w.leaves.insert(key);
            }
            Node::Null => {}
        }
    }
    Some(w)
}

/// Full well-formedness of `version`, which must hold exactly `map`.
pub fn check_walk<H: SimpleHasher>(store: &MonStore, version: u64, map: &Map, ctx: &str) -> R<Walk> {
    let es = entries::<H>(map);
    let want = node_paths(&es);
    let hashes = node_hashes::<H>(&es);
    let mut w = Walk { paths: BTreeMap::new(), leaves: BTreeSet::new() };
    let at = |p: &[u8]| format!("{ctx}: version {version}, node at path [{}]", p.iter().map(|n| format!("{n:x}")).collect::<String>());
    let mut stack: Vec<(Vec<u8>, NodeKey)> = vec![(vec![], root_key(version))];
    while let Some((path, key)) = stack.pop() {
        let Some(node) = store.node(&key) else { vio!("{}: {key:?} does not resolve", at(&path)) };
        chk!(path_vec(key.nibble_path()) == path, "{}: stored under {key:?}", at(&path));
        w.paths.insert(path.clone(), key.clone());
        match node {
            Node::Null => chk!(path.is_empty() && es.is_empty(), "{}: empty node in a tree of {} entries", at(&path), es.len()),
            Node::Leaf(l) => {
                w.leaves.insert(key.clone());
                let k = l.key_hash().0;
                for (i, n) in path.iter().enumerate() {
                    chk!(nibble(&k, i) == *n, "{}: leaf of key {} is not on its path", at(&path), hx(&k));
                }
                match want.get(&path) {
                    Some((1, Some(e))) => {
                        chk!(e.0 == k, "{}: leaf of {}, expected {}", at(&path), hx(&k), hx(&e.0));
                        chk!(l.hash::<H>() == leaf_hash::<H>(&e.0, &e.1), "{}: leaf hash is not that of key and value", at(&path));
                    }
                    other => vio!("{}: leaf of {} where the key set wants {other:?}", at(&path), hx(&k)),
                }
            }
            Node::Internal(i) => {
                let Some((n, None)) = want.get(&path) else { vio!("{}: inner node where the key set wants {:?}", at(&path), want.get(&path)) };
                chk!(i.leaf_count() == *n, "{}: inner node counts {} leaves, there are {n}", at(&path), i.leaf_count());
                chk!(i.hash::<H>() == hashes[&path], "{}: inner node hash is not that of its entries", at(&path));
                let (mut bm, mut lm, mut last) = (0u16, 0u16, None);
                for (nib, c) in i.children_sorted() {
                    let b = u8::from(nib);
                    chk!(last < Some(b), "{}: children out of order", at(&path));
                    last = Some(b);
                    bm |= 1 << b;
                    let mut p = path.clone();
                    p.push(b);
                    let ck = node_key(c.version, &p);
                    let Some(child) = store.node(&ck) else { vio!("{}: pointer to {ck:?} does not resolve", at(&path)) };
                    chk!(c.hash == node_hash::<H>(&child), "{}: child {b:x} hash recorded differs from the node's", at(&path));
                    let (is_leaf, cnt) = match &child {
                        Node::Leaf(_) => (true, 1),
                        Node::Internal(x) => (false, x.leaf_count()),
                        Node::Null => vio!("{}: child {b:x} is an empty node", at(&path)),
                    };
                    if is_leaf {
                        lm |= 1 << b;
                    }
                    chk!(c.is_leaf() == is_leaf, "{}: child {b:x} kind recorded differs from the node's", at(&path));
                    chk!(c.leaf_count() == cnt, "{}: child {b:x} leaf count recorded {} but is {cnt}", at(&path), c.leaf_count());
                    chk!(ord(c.version) <= ord(key.version()), "{}: child {b:x} is of a later version", at(&path));
                    stack.push((p, ck));
                }
                chk!(i.generate_bitmaps() == (bm, lm), "{}: bitmaps {:?} for children {bm:b}/{lm:b}", at(&path), i.generate_bitmaps());
            }
        }
    }
    let got: BTreeSet<&Vec<u8>> = w.paths.keys().collect();
    let mut exp: BTreeSet<&Vec<u8>> = want.keys().collect();
    let empty = vec![];
    if es.is_empty() {
        exp.insert(&empty);
    }
    chk!(got == exp, "{ctx}: version {version}: node paths differ from those of the key set");
    Ok(w)
}
