//! Forged and mutated proofs: what a malicious prover may send.
use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::{KeyHash, SimpleHasher};

fn recode<A: borsh::BorshSerialize, B: borsh::BorshDeserialize>(a: &A, what: &str) -> R<B> {
    let b = borsh::to_vec(a).map_err(|e| Fail::Harness(format!("encode {what}: {e}")))?;
    borsh::from_slice(&b).map_err(|e| Fail::Harness(format!("proof layout changed ({what}): {e}")))
}
pub fn to_jmt<H: SimpleHasher>(p: &SProof) -> R<SparseMerkleProof<H>> {
    recode(p, "point proof")
}
pub fn from_jmt<H: SimpleHasher>(p: &SparseMerkleProof<H>) -> R<SProof> {
    recode(p, "point proof")
}
pub fn upd_to_jmt<H: SimpleHasher>(p: &Vec<SProof>) -> R<UpdateMerkleProof<H>> {
    recode(p, "update proof")
}
pub fn upd_from_jmt<H: SimpleHasher>(p: &UpdateMerkleProof<H>) -> R<Vec<SProof>> {
    recode(p, "update proof")
}
pub fn range_to_jmt<H: SimpleHasher>(p: &Vec<SNode>) -> R<SparseMerkleRangeProof<H>> {
    recode(p, "range proof")
}
pub fn range_from_jmt<H: SimpleHasher>(p: &SparseMerkleRangeProof<H>) -> R<Vec<SNode>> {
    recode(p, "range proof")
}
pub fn leaf_to_jmt(k: &H32, vh: &H32) -> R<SparseMerkleLeafNode> {
    recode(&(*k, *vh), "leaf")
}

pub fn rand_node(r: &mut Rng) -> SNode {
    match r.below(3) {
        0 => SNode::Null,
        1 => SNode::Internal(r.bytes32(), r.bytes32()),
        _ => SNode::Leaf(r.bytes32(), r.bytes32()),
    }
}

/// Same payload, other kind.
pub fn retype(r: &mut Rng, n: &SNode) -> SNode {
    match n {
        SNode::Null => match r.below(3) {
            0 => SNode::Internal(PLACEHOLDER, PLACEHOLDER),
            1 => SNode::Leaf(PLACEHOLDER, PLACEHOLDER),
            _ => SNode::Internal(r.bytes32(), PLACEHOLDER),
        },
        SNode::Internal(a, b) => match r.below(4) {
            0 => SNode::Null,
            1 => SNode::Internal(*b, *a),
            _ => SNode::Leaf(*a, *b),
        },
        SNode::Leaf(a, b) => match r.below(4) {
            0 => SNode::Null,
            1 => SNode::Leaf(*b, *a),
            _ => SNode::Internal(*a, *b),
        },
    }
}

pub fn mutate_nodes(r: &mut Rng, s: &mut Vec<SNode>, donors: &[SNode]) {
    let donor = |r: &mut Rng| {
        if donors.is_empty() || r.chance(25) {
            rand_node(r)
        } else {
            *r.pick(donors)
        }
    };
    let n = s.len();
    match r.below(16) {
        0 if n > 0 => {
            s.remove(r.below(n));
        }
        1 if n > 0 => {
            s.remove(0);
        }
        2 if n > 0 => {
            s.pop();
        }
        3 if n > 0 => {
            let i = r.below(n);
            let x = s[i];
            s.insert(i, x);
        }
        4 => {
            let x = donor(r);
            s.insert(r.below(n + 1), x);
        }
        5 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            s.swap(i, j);
        }
        6 if n > 0 => {
            let i = r.below(n);
            s[i] = retype(r, &s[i].clone());
        }
        7 if n > 0 => {
            let i = r.below(n);
            s[i] = donor(r);
        }
        8 if n > 0 => {
            s.truncate(r.below(n));
        }
        9 if n > 0 => {
            let k = r.below(n);
            s.drain(..k);
        }
        10 if n > 1 => s.reverse(),
        11 => {
            // pad with empty subtrees at either end
            let k = r.range(1, 8);
            for _ in 0..k {
                if r.chance(50) {
                    s.insert(0, SNode::Null);
                } else {
                    s.push(SNode::Null);
                }
            }
        }
        12 => {
            // lengths around and beyond the key length
            let want = *r.pick(&[255usize, 256, 257, 258, 300, 512, 600]);
            while s.len() < want {
                let x = if r.chance(50) { SNode::Null } else { donor(r) };
                s.insert(r.below(s.len() + 1), x);
            }
        }
        13 if n > 0 => {
            // flip one bit somewhere
            let i = r.below(n);
            let f = r.below(256);
            let which = r.chance(50);
            s[i] = match s[i] {
                SNode::Null => SNode::Leaf(r.bytes32(), r.bytes32()),
                SNode::Internal(a, b) if which => SNode::Internal(flip(&a, f), b),
                SNode::Internal(a, b) => SNode::Internal(a, flip(&b, f)),
                SNode::Leaf(a, b) if which => SNode::Leaf(flip(&a, f), b),
                SNode::Leaf(a, b) => SNode::Leaf(a, flip(&b, f)),
            };
        }
        14 => s.clear(),
        _ => {
            for _ in 0..r.range(1, 3) {
                let x = donor(r);
                s.push(x);
            }
        }
    }
}

pub fn mutate_proof(r: &mut Rng, p: &mut SProof, leaves: &[KV], donors: &[SNode], key: &H32) {
    match r.below(10) {
        0 => p.leaf = None,
        1 if !leaves.is_empty() => p.leaf = Some(*r.pick(leaves)),
        2 => {
            // another key on the same leaf
            p.leaf = Some((*key, p.leaf.map(|l| l.1).unwrap_or([7; 32])));
        }
        3 => {
            let l = p.leaf.unwrap_or((*key, [0; 32]));
            p.leaf = Some((flip(&l.0, pick_depth(r)), l.1));
        }
        4 => {
            let l = p.leaf.unwrap_or((*key, [0; 32]));
            p.leaf = Some((l.0, r.bytes32()));
        }
        _ => mutate_nodes(r, &mut p.siblings, donors),
    }
}

/// A proof that presents an inner node on the path of `key` as if it were a leaf (type confusion).
pub fn inner_as_leaf<H: SimpleHasher>(es: &[KV], key: &H32, depth: usize) -> Option<SProof> {
    let p = prove::<H>(es, key);
    let d = depth.min(p.siblings.len().checked_sub(1)?);
    // subtree at depth d on the path
    let (mut lo, mut hi) = (0, es.len());
    for i in 0..d {
        let mid = lo + es[lo..hi].partition_point(|e| !bit(&e.0, i));
        if bit(key, i) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    match subtree_node::<H>(&es[lo..hi], d) {
        SNode::Internal(a, b) => {
            let n = p.siblings.len();
            Some(SProof { leaf: Some((a, b)), siblings: p.siblings[n - d..].to_vec() })
        }
        _ => None,
    }
}

fn fold<H: SimpleHasher>(start: H32, sibs: &[SNode], key: &H32) -> H32 {
    let n = sibs.len();
    let mut h = start;
    for (i, s) in sibs.iter().enumerate() {
        let pos = n - 1 - i;
        let b = pos < 256 && bit(key, pos);
        h = if b { inner_hash::<H>(&s.hash::<H>(), &h) } else { inner_hash::<H>(&h, &s.hash::<H>()) };
    }
    h
}

/// The root a verifier would arrive at if it believed everything in `p` about the old tree.
pub fn believed_new_root<H: SimpleHasher>(p: &SProof, old: H32, key: &H32, val: Option<&[u8]>) -> Option<H32> {
    let mut s = p.siblings.clone();
    if s.len() > 256 {
        return None;
    }
    match val {
        Some(v) => {
            let new_leaf = leaf_hash::<H>(key, &value_hash::<H>(v));
            match p.leaf {
                Some((k, vh)) if k != *key => {
                    let c = common_bits(&k, key);
                    // number of default siblings, computed the way the library does
                    let nib = c / 4;
                    let n = s.len();
                    let lead = (4 - (n % 4)) % 4;
                    let add = ((4 * (nib + 1)).checked_sub(n)? / 4) * 4;
                    let num = (lead + add + (c % 4)).checked_sub(4)?;
                    let mut t = vec![SNode::Leaf(k, vh)];
                    t.resize(num + 1, SNode::Null);
                    t.append(&mut s);
                    if t.len() > 256 {
                        return None;
                    }
                    Some(fold::<H>(new_leaf, &t, key))
                }
                _ => Some(fold::<H>(new_leaf, &s, key)),
            }
        }
        None => match p.leaf {
            Some((k, _)) if k == *key => {
                let first = s.iter().position(|x| *x != SNode::Null);
                match first {
                    None => Some(PLACEHOLDER),
                    Some(i) => match s[i] {
                        SNode::Leaf(..) => {
                            let mut j = i + 1;
                            while j < s.len() && s[j] == SNode::Null {
                                j += 1;
                            }
                            Some(fold::<H>(s[i].hash::<H>(), &s[j..], key))
                        }
                        _ => Some(fold::<H>(PLACEHOLDER, &s[i..], key)),
                    },
                }
            }
            _ => Some(old),
        },
    }
}

/// Left-hand hashes a restorer derives from the entries it has received up to `key`, given the number of
/// right-hand siblings in the proof.
pub fn left_for_range<H: SimpleHasher>(es: &[KV], key: &H32, n_right: usize) -> Vec<H32> {
    let es: Vec<KV> = es.iter().filter(|e| e.0 <= *key).copied().collect();
    let mut lefts: Vec<Option<H32>> = vec![]; // by depth: Some(hash) where the key goes right
    let (mut lo, mut hi) = (0, es.len());
    for i in 0..256 {
        let mid = lo + es[lo..hi].partition_point(|e| !bit(&e.0, i));
        if bit(key, i) {
            lefts.push(Some(subtree::<H>(&es[lo..mid], i + 1)));
            lo = mid;
        } else {
            lefts.push(None);
            hi = mid;
        }
    }
    let mut visited = lefts.iter().filter(|l| l.is_none()).count();
    let mut depth = 256;
    while depth > 0 {
        match lefts[depth - 1] {
            Some(h) if h == PLACEHOLDER => {}
            None if visited > n_right => visited -= 1,
            _ => break,
        }
        depth -= 1;
    }
    lefts[..depth].iter().rev().flatten().copied().collect()
}

pub fn all_nodes<H: SimpleHasher>(es: &[KV], keys: &[KeyHash], cap: usize) -> Vec<SNode> {
    let mut out = vec![];
    for k in keys {
        for s in prove::<H>(es, &k.0).siblings {
            if out.len() >= cap {
                return out;
            }
            out.push(s);
        }
    }
    out
}
