//! Independent executable specification: the sparse Merkle tree a map stands for.
//! Nothing here uses jmt's own tree, hashing helpers, constants or bit iterators.
use jmt::{KeyHash, SimpleHasher};
use std::collections::BTreeMap;

pub type Map = BTreeMap<KeyHash, Vec<u8>>;
pub type H32 = [u8; 32];

pub const PLACEHOLDER: H32 = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";
const LEAF_SEP: &[u8] = b"JMT::LeafNode";
const INNER_SEP: &[u8] = b"JMT::IntrnalNode";

pub fn hash<H: SimpleHasher>(parts: &[&[u8]]) -> H32 {
    let mut h = H::new();
    for p in parts {
        h.update(p);
    }
    h.finalize()
}
pub fn value_hash<H: SimpleHasher>(v: &[u8]) -> H32 {
    hash::<H>(&[v])
}
pub fn leaf_hash<H: SimpleHasher>(k: &H32, vh: &H32) -> H32 {
    hash::<H>(&[LEAF_SEP, k, vh])
}
pub fn inner_hash<H: SimpleHasher>(l: &H32, r: &H32) -> H32 {
    hash::<H>(&[INNER_SEP, l, r])
}

pub fn bit(k: &H32, i: usize) -> bool {
    k[i / 8] & (0x80 >> (i % 8)) != 0
}
pub fn nibble(k: &H32, i: usize) -> u8 {
    if i % 2 == 0 {
        k[i / 2] >> 4
    } else {
        k[i / 2] & 15
    }
}
pub fn common_bits(a: &H32, b: &H32) -> usize {
    (0..256).find(|&i| bit(a, i) != bit(b, i)).unwrap_or(256)
}

/// key -> value hash, sorted
pub type KV = (H32, H32);

pub fn entries<H: SimpleHasher>(m: &Map) -> Vec<KV> {
    m.iter().map(|(k, v)| (k.0, value_hash::<H>(v))).collect()
}

/// Root of the subtree at bit depth `d` holding `es` (all sharing their first `d` bits, sorted).
pub fn subtree<H: SimpleHasher>(es: &[KV], d: usize) -> H32 {
    match es.len() {
        0 => PLACEHOLDER,
        1 => leaf_hash::<H>(&es[0].0, &es[0].1),
        _ => {
            let mid = es.partition_point(|e| !bit(&e.0, d));
            inner_hash::<H>(&subtree::<H>(&es[..mid], d + 1), &subtree::<H>(&es[mid..], d + 1))
        }
    }
}

pub fn root<H: SimpleHasher>(m: &Map) -> H32 {
    subtree::<H>(&entries::<H>(m), 0)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, borsh::BorshSerialize, borsh::BorshDeserialize)]
pub enum SNode {
    Null,
    Internal(H32, H32),
    Leaf(H32, H32),
}
impl SNode {
    pub fn hash<H: SimpleHasher>(&self) -> H32 {
        match self {
            SNode::Null => PLACEHOLDER,
            SNode::Internal(l, r) => inner_hash::<H>(l, r),
            SNode::Leaf(k, v) => leaf_hash::<H>(k, v),
        }
    }
}

pub fn subtree_node<H: SimpleHasher>(es: &[KV], d: usize) -> SNode {
    match es.len() {
        0 => SNode::Null,
        1 => SNode::Leaf(es[0].0, es[0].1),
        _ => {
            let mid = es.partition_point(|e| !bit(&e.0, d));
            SNode::Internal(subtree::<H>(&es[..mid], d + 1), subtree::<H>(&es[mid..], d + 1))
        }
    }
}

/// Mirror of the crate's point proof (same borsh layout): leaf, siblings bottom-up.
#[derive(Clone, PartialEq, Eq, Debug, borsh::BorshSerialize, borsh::BorshDeserialize)]
pub struct SProof {
    pub leaf: Option<KV>,
    pub siblings: Vec<SNode>,
}

/// The proof a correct prover gives for `key` in the tree of `es`.
pub fn prove<H: SimpleHasher>(es: &[KV], key: &H32) -> SProof {
    let mut cur = es;
    let mut d = 0;
    let mut sib = vec![];
    while cur.len() > 1 {
        let mid = cur.partition_point(|e| !bit(&e.0, d));
        let (l, r) = cur.split_at(mid);
        d += 1;
        if bit(key, d - 1) {
            sib.push(subtree_node::<H>(l, d));
            cur = r;
        } else {
            sib.push(subtree_node::<H>(r, d));
            cur = l;
        }
    }
    sib.reverse();
    SProof { leaf: cur.first().copied(), siblings: sib }
}

/// Left-hand sibling hashes (bottom-up) on the path to `key`, which must be among `es`.
pub fn left_siblings<H: SimpleHasher>(es: &[KV], key: &H32) -> Vec<H32> {
    let p = prove::<H>(es, key);
    let n = p.siblings.len();
    p.siblings
        .iter()
        .enumerate()
        .filter(|(i, _)| bit(key, n - 1 - i))
        .map(|(_, s)| s.hash::<H>())
        .collect()
}

/// Expected radix-16 node set: nibble path -> number of leaves below (1 = leaf, >=2 = inner node).
pub fn node_paths(es: &[KV]) -> BTreeMap<Vec<u8>, (usize, Option<KV>)> {
    fn rec(es: &[KV], depth: usize, path: &mut Vec<u8>, out: &mut BTreeMap<Vec<u8>, (usize, Option<KV>)>) {
        if es.is_empty() {
            return;
        }
        if es.len() == 1 {
            out.insert(path.clone(), (1, Some(es[0])));
            return;
        }
        out.insert(path.clone(), (es.len(), None));
        let mut i = 0;
        while i < es.len() {
            let n = nibble(&es[i].0, depth);
            let j = i + es[i..].partition_point(|e| nibble(&e.0, depth) == n);
            path.push(n);
            rec(&es[i..j], depth + 1, path, out);
            path.pop();
            i = j;
        }
    }
    let mut out = BTreeMap::new();
    rec(es, 0, &mut vec![], &mut out);
    out
}

/// Hash of every node of the radix-16 tree, by nibble path.
pub fn node_hashes<H: SimpleHasher>(es: &[KV]) -> BTreeMap<Vec<u8>, H32> {
    fn rec<H: SimpleHasher>(es: &[KV], depth: usize, path: &mut Vec<u8>, out: &mut BTreeMap<Vec<u8>, H32>) {
        if es.is_empty() {
            return;
        }
        out.insert(path.clone(), subtree::<H>(es, depth * 4));
        if es.len() == 1 {
            return;
        }
        let mut i = 0;
        while i < es.len() {
            let n = nibble(&es[i].0, depth);
            let j = i + es[i..].partition_point(|e| nibble(&e.0, depth) == n);
            path.push(n);
            rec::<H>(&es[i..j], depth + 1, path, out);
            path.pop();
            i = j;
        }
    }
    let mut out = BTreeMap::new();
    rec::<H>(es, 0, &mut vec![], &mut out);
    out
}

pub fn apply(m: &Map, ops: &[(KeyHash, Option<Vec<u8>>)]) -> Map {
    let mut m = m.clone();
    for (k, v) in ops {
        match v {
            Some(v) => {
                m.insert(*k, v.clone());
            }
            None => {
                m.remove(k);
            }
        }
    }
    m
}
