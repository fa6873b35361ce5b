//! C19: encodings, against independent encoders written from the type layouts.
use crate::core::*;
use crate::forge;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::{LeafNode, NibblePath, Node, NodeBatch, NodeKey, NodeStats, StaleNodeIndex, TreeUpdateBatch};
use jmt::{KeyHash, RootHash, SimpleHasher};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

type B = Vec<u8>;
fn u(n: u64) -> B {
    n.to_le_bytes().to_vec()
}
fn len(n: usize) -> B {
    (n as u32).to_le_bytes().to_vec()
}
fn cat(parts: &[B]) -> B {
    parts.concat()
}
fn bytes(b: &[u8]) -> B {
    cat(&[len(b.len()), b.to_vec()])
}
fn opt(b: Option<B>) -> B {
    match b {
        None => vec![0],
        Some(b) => cat(&[vec![1], b]),
    }
}
fn seq(items: impl ExactSizeIterator<Item = B>) -> B {
    let mut o = len(items.len());
    for i in items {
        o.extend(i);
    }
    o
}
fn pack(nib: &[u8]) -> B {
    nib.chunks(2).map(|c| (c[0] << 4) | c.get(1).copied().unwrap_or(0)).collect()
}
fn e_path(nib: &[u8]) -> B {
    cat(&[u(nib.len() as u64), bytes(&pack(nib))])
}
fn j_path(nib: &[u8]) -> Value {
    json!({"num_nibbles": nib.len(), "bytes": pack(nib)})
}
fn e_key(k: &NodeKey) -> B {
    cat(&[u(k.version()), e_path(&path_vec(k.nibble_path()))])
}
fn j_key(k: &NodeKey) -> Value {
    json!({"version": k.version(), "nibble_path": j_path(&path_vec(k.nibble_path()))})
}
/// (borsh, JSON) of an inner node, from its public accessors
fn inner(n: &Node) -> Option<(B, Value)> {
    inner_with(n, |_, c| c)
}
/// The same node but for the leaf counts it records for its subtrees.
pub fn recount(n: &Node, f: impl Fn(u8, u64) -> u64) -> Option<Node> {
    Node::try_from_slice(&cat(&[vec![1], inner_with(n, f)?.0])).ok()
}
fn inner_with(n: &Node, f: impl Fn(u8, u64) -> u64) -> Option<(B, Value)> {
    let Node::Internal(i) = n else { return None };
    let mut slots: Vec<(B, Value)> = (0..16).map(|_| (vec![0u8], Value::Null)).collect();
    let mut count = 0u64;
    let mut leaves = 0u64;
    for (nib, c) in i.children_sorted() {
        count += 1;
        let nib = u8::from(nib);
        let lc = f(nib, c.leaf_count() as u64);
        leaves += lc;
        let (kb, kj) = if c.is_leaf() {
            (vec![0], json!("Leaf"))
        } else {
            (cat(&[vec![1], u(lc)]), json!({"Internal": {"leaf_count": lc}}))
        };
        slots[nib as usize] = (
            opt(Some(cat(&[c.hash.to_vec(), u(c.version), kb]))),
            json!({"hash": c.hash, "version": c.version, "node_type": kj}),
        );
    }
    let (sb, sj): (Vec<B>, Vec<Value>) = slots.into_iter().unzip();
    Some((
        cat(&[sb.concat(), u(count), u(leaves)]),
        json!({"children": {"children": sj, "num_children": count}, "leaf_count": leaves}),
    ))
}
fn arr32(v: &Value) -> Option<H32> {
    let a = v.as_array()?;
    if a.len() != 32 {
        return None;
    }
    let mut o = [0u8; 32];
    for (i, x) in a.iter().enumerate() {
        o[i] = u8::try_from(x.as_u64()?).ok()?;
    }
    Some(o)
}
/// key and value hash of a leaf: read from the JSON form and confirmed by the leaf's hash
fn leaf_parts<H: SimpleHasher>(l: &LeafNode) -> R<KV> {
    let j = jval(l)?;
    let Some(vh) = arr32(&j["value_hash"]) else { vio!("JSON form of a leaf has no 32-byte value_hash: {j}") };
    let k = l.key_hash().0;
    chk!(l.hash::<H>() == leaf_hash::<H>(&k, &vh), "the value hash in a leaf's JSON form does not give the leaf's hash");
    Ok((k, vh))
}
fn e_node<H: SimpleHasher>(n: &Node) -> R<(B, Value)> {
    Ok(match n {
        Node::Null => (vec![0], json!("Null")),
        Node::Internal(_) => {
            let (b, j) = inner(n).unwrap();
            (cat(&[vec![1], b]), json!({ "Internal": j }))
        }
        Node::Leaf(l) => {
            let (k, v) = leaf_parts::<H>(l)?;
            (cat(&[vec![2], k.to_vec(), v.to_vec()]), json!({"Leaf": {"key_hash": k, "value_hash": v}}))
        }
    })
}
fn e_snode(n: &SNode) -> (B, Value) {
    match n {
        SNode::Null => (vec![0], json!("Null")),
        SNode::Internal(a, b) => {
            (cat(&[vec![1], a.to_vec(), b.to_vec()]), json!({"Internal": {"left_child": a, "right_child": b}}))
        }
        SNode::Leaf(a, b) => (cat(&[vec![2], a.to_vec(), b.to_vec()]), json!({"Leaf": {"key_hash": a, "value_hash": b}})),
    }
}
fn e_proof(p: &SProof) -> (B, Value) {
    let sib: Vec<_> = p.siblings.iter().map(e_snode).collect();
    (
        cat(&[opt(p.leaf.map(|(k, v)| cat(&[k.to_vec(), v.to_vec()]))), seq(sib.iter().map(|s| s.0.clone()))]),
        json!({
            "leaf": p.leaf.map(|(k, v)| json!({"key_hash": k, "value_hash": v})),
            "siblings": sib.iter().map(|s| s.1.clone()).collect::<Vec<_>>(),
            "phantom_hasher": null,
        }),
    )
}
fn j_snode(v: &Value) -> Option<SNode> {
    if v == "Null" {
        return Some(SNode::Null);
    }
    if let Some(i) = v.get("Internal") {
        return Some(SNode::Internal(arr32(&i["left_child"])?, arr32(&i["right_child"])?));
    }
    let l = v.get("Leaf")?;
    Some(SNode::Leaf(arr32(&l["key_hash"])?, arr32(&l["value_hash"])?))
}
fn j_proof(v: &Value) -> Option<SProof> {
    let leaf = match &v["leaf"] {
        Value::Null => None,
        l => Some((arr32(&l["key_hash"])?, arr32(&l["value_hash"])?)),
    };
    Some(SProof { leaf, siblings: v["siblings"].as_array()?.iter().map(j_snode).collect::<Option<_>>()? })
}
fn e_nodebatch<H: SimpleHasher>(b: &NodeBatch) -> R<B> {
    let mut nodes: Vec<(&NodeKey, B)> = vec![];
    for (k, n) in b.nodes() {
        nodes.push((k, cat(&[e_key(k), e_node::<H>(n)?.0])));
    }
    nodes.sort_by_key(|(k, _)| okey(k));
    let mut vals: Vec<_> = b.values().iter().collect();
    vals.sort_by_key(|((v, k), _)| (*v, k.0));
    Ok(cat(&[
        seq(nodes.into_iter().map(|x| x.1)),
        seq(vals.into_iter().map(|((v, k), x)| cat(&[u(*v), k.0.to_vec(), opt(x.as_ref().map(|x| bytes(x)))]))),
    ]))
}
/// the documented order of node keys: version, then length, then path
fn okey(k: &NodeKey) -> (u64, usize, B) {
    let p = path_vec(k.nibble_path());
    (k.version(), p.len(), pack(&p))
}
fn e_stale(s: &StaleNodeIndex) -> B {
    cat(&[u(s.stale_since_version), e_key(&s.node_key)])
}
fn e_update<H: SimpleHasher>(b: &TreeUpdateBatch) -> R<B> {
    let mut st: Vec<_> = b.stale_node_index_batch.iter().collect();
    st.sort_by_key(|s| (s.stale_since_version, okey(&s.node_key)));
    Ok(cat(&[
        e_nodebatch::<H>(&b.node_batch)?,
        seq(st.into_iter().map(e_stale)),
        seq(b.node_stats.iter().map(|s| {
            cat(&[u(s.new_nodes as u64), u(s.new_leaves as u64), u(s.stale_nodes as u64), u(s.stale_leaves as u64)])
        })),
    ]))
}

fn to_b<T: BorshSerialize>(v: &T, what: &str) -> R<B> {
    must(|| format!("borsh encoding of {what}"), || Ok(borsh::to_vec(v)?))
}
fn jval<T: Serialize>(v: &T) -> R<Value> {
    must(|| "JSON encoding".into(), || Ok(serde_json::to_value(v)?))
}
fn un_b<T: BorshDeserialize>(b: &[u8], what: &str) -> R<T> {
    must(|| format!("borsh decoding of {what} from {}", short(b)), || Ok(borsh::from_slice::<T>(b)?))
}

/// Encode, compare with the expected bytes, decode, compare with the value, and check the framing.
fn borsh_rt<T: BorshSerialize + BorshDeserialize>(
    r: &mut Rng,
    st: &mut Stats,
    v: &T,
    want: &[u8],
    same: impl Fn(&T, &T) -> bool,
    what: &'static str,
) -> R<()> {
    let b = to_b(v, what)?;
    if b != want {
        let at = (0..b.len().min(want.len())).find(|&i| b[i] != want[i]).unwrap_or(b.len().min(want.len()));
        vio!("{what}: encoding differs from the documented layout at byte {at}: {} bytes, expected {} bytes; {} instead of {}",
            b.len(), want.len(), hx(&b[at..(at + 16).min(b.len())]), hx(&want[at..(at + 16).min(want.len())]));
    }
    chk!(to_b(v, what)? == b, "{what}: encoding the same value twice gives different bytes");
    let back: T = un_b(&b, what)?;
    chk!(same(&back, v), "{what}: decoding its encoding gives another value ({})", short(&b));
    // a stream: exactly these bytes are consumed
    let mut s = b.clone();
    let tail = r.vec(3);
    s.extend_from_slice(&tail);
    let mut cur = &s[..];
    let back = must(|| format!("{what}: streaming decode"), || Ok(T::deserialize(&mut cur)?))?;
    chk!(same(&back, v) && cur == &tail[..], "{what}: streaming decode left {} of {} trailing bytes", cur.len(), tail.len());
    // one byte short is not a value
    if !b.is_empty() {
        let n = if r.chance(50) { b.len() - 1 } else { r.below(b.len()) };
        let res = guard(|| format!("{what}: decoding a truncated encoding"), || borsh::from_slice::<T>(&b[..n]).is_ok())?;
        chk!(!res, "{what}: the first {n} of {} bytes decode as a complete value", b.len());
        st.inc("truncations_refused");
    }
    st.inc("borsh_round_trips");
    Ok(())
}
fn serde_rt<T: Serialize + DeserializeOwned>(st: &mut Stats, v: &T, want: Option<Value>, same: impl Fn(&T, &T) -> bool, what: &'static str) -> R<()> {
    let j = jval(v)?;
    if let Some(w) = want {
        chk!(j == w, "{what}: JSON form {} differs from the documented one {}", clip(&j), clip(&w));
    }
    let back: T = must(|| format!("{what}: reading back {}", clip(&j)), || Ok(serde_json::from_value(j.clone())?))?;
    chk!(same(&back, v), "{what}: serde round trip gives another value ({})", clip(&j));
    let s = must(|| format!("{what}: JSON text"), || Ok(serde_json::to_string(v)?))?;
    let back: T = must(|| format!("{what}: reading back JSON text"), || Ok(serde_json::from_str(&s)?))?;
    chk!(same(&back, v), "{what}: serde round trip through text gives another value ({})", clip(&j));
    chk!(serde_json::to_string(&back).ok() == Some(s), "{what}: JSON text changes when decoded and encoded again");
    // The same derive feeds binary formats: one which is positional and not self-describing, and one
    // which is self-describing.
    let b = must(|| format!("{what}: bincode"), || Ok(bincode::serialize(v)?))?;
    let back: T = must(|| format!("{what}: reading back bincode of {}", clip(&j)), || Ok(bincode::deserialize(&b)?))?;
    chk!(same(&back, v), "{what}: serde round trip through bincode gives another value ({})", clip(&j));
    let mut c = vec![];
    must(|| format!("{what}: CBOR"), || Ok(ciborium::into_writer(v, &mut c)?))?;
    let back: T = must(|| format!("{what}: reading back CBOR of {}", clip(&j)), || Ok(ciborium::from_reader(&c[..])?))?;
    chk!(same(&back, v), "{what}: serde round trip through CBOR gives another value ({})", clip(&j));
    st.inc("serde_round_trips");
    st.add("serde_binary_round_trips", 2);
    Ok(())
}
fn clip(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        format!("{}..", &s[..300])
    } else {
        s
    }
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn rand_nibbles(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => 64,
        2 => 63,
        _ => r.below(65),
    };
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => 0,
            1 => 15,
            _ => r.below(16) as u8,
        })
        .collect()
}
fn rand_u64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - 1 - r.below(4) as u64,
        3 => 1 << r.below(64),
        4 => r.below(300) as u64,
        _ => r.u64(),
    }
}
/// An inner node made from its documented bytes.
fn rand_inner(r: &mut Rng) -> B {
    let mut o = vec![1u8];
    let (mut cnt, mut leaves) = (0u64, 0u64);
    let p = r.range(10, 100);
    for _ in 0..16 {
        if r.chance(p) {
            cnt += 1;
            let h = r.bytes32();
            let (k, n) = if r.chance(50) {
                (vec![0u8], 1)
            } else {
                let n = match r.below(4) {
                    0 => 2,
                    1 => (1u64 << 32) + r.below(5) as u64,
                    _ => r.range(2, 1 << 20) as u64,
                };
                (cat(&[vec![1], u(n)]), n)
            };
            leaves += n;
            o.extend(opt(Some(cat(&[h.to_vec(), u(rand_u64(r)), k]))));
        } else {
            o.push(0);
        }
    }
    cat(&[o, u(cnt), u(leaves)])
}

fn check_path(p: &NibblePath, nib: &[u8], what: &str) -> R<()> {
    guard(|| format!("{what}: reading a decoded path of {} nibbles", nib.len()), || -> R<()> {
        chk!(path_vec(p) == nib, "{what}: nibbles changed");
        chk!(p.num_nibbles() == nib.len() && p.is_empty() == nib.is_empty(), "{what}: length changed");
        chk!(p.last().map(u8::from) == nib.last().copied(), "{what}: last nibble wrong");
        for (i, n) in nib.iter().enumerate() {
            chk!(u8::from(p.get_nibble(i)) == *n, "{what}: nibble {i} wrong");
        }
        let bits: Vec<bool> = p.bits().collect();
        let want: Vec<bool> = nib.iter().flat_map(|n| (0..4).map(move |i| n & (8 >> i) != 0)).collect();
        chk!(bits == want, "{what}: bits wrong");
        let mut rev: Vec<bool> = p.bits().rev().collect();
        rev.reverse();
        chk!(rev == want, "{what}: reversed bits wrong");
        chk!(format!("{p:?}") == nib.iter().map(|n| format!("{n:x}")).collect::<String>(), "{what}: printed form wrong");
        Ok(())
    })?
}

fn mutate(r: &mut Rng, b: &mut B) {
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        match r.below(9) {
            0 if n > 0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xff]);
            }
            2 if n > 0 => b.truncate(r.below(n)),
            3 => {
                let i = r.below(n + 1);
                let x = r.below(256) as u8;
                b.insert(i, x);
            }
            4 if n > 0 => {
                b.remove(r.below(n));
            }
            5 if n >= 8 => {
                // a length or count field
                let i = r.below(n - 7);
                let w = if r.chance(50) { 4 } else { 8 };
                let v = rand_u64(r).to_le_bytes();
                b[i..i + w].copy_from_slice(&v[..w]);
            }
            6 if n >= 4 => {
                let i = r.below(n - 3);
                let v = (r.below(5) as u32).to_le_bytes();
                b[i..i + 4].copy_from_slice(&v);
            }
            7 => {
                let k = r.below(40);
                let x = r.vec(k);
                b.extend(x);
            }
            _ => {
                let k = r.below(120);
                *b = r.vec(k);
            }
        }
    }
}
/// Decoding `b` must not panic; what decodes must be the encoding of what it decodes to.
fn hostile_b<T: BorshSerialize + BorshDeserialize>(st: &mut Stats, b: &[u8], what: &'static str) -> R<Option<T>> {
    let res = guard(|| format!("borsh decoding of hostile bytes as {what}: {}", hx(&b[..b.len().min(400)])), || borsh::from_slice::<T>(b).ok())?;
    st.inc("hostile_borsh");
    if let Some(v) = &res {
        st.inc("hostile_borsh_accepted");
        let again = to_b(v, what)?;
        chk!(again == b, "{what}: two encodings of one value: {} decodes to what encodes as {}", hx(&b[..b.len().min(300)]), hx(&again[..again.len().min(300)]));
    }
    Ok(res)
}
fn hostile_j<T: Serialize + DeserializeOwned>(r: &mut Rng, st: &mut Stats, j: &Value, what: &'static str) -> R<()> {
    let mut v = j.clone();
    for _ in 0..r.range(1, 2) {
        mutate_json(r, &mut v);
    }
    let mut s = v.to_string().into_bytes();
    if r.chance(30) {
        mutate(r, &mut s);
    }
    let res = guard(|| format!("serde decoding of hostile JSON as {what}: {}", String::from_utf8_lossy(&s[..s.len().min(400)])), || {
        serde_json::from_slice::<T>(&s).ok()
    })?;
    st.inc("hostile_json");
    if let Some(x) = res {
        st.inc("hostile_json_accepted");
        let t = must(|| format!("{what}: encoding a decoded value"), || Ok(serde_json::to_string(&x)?))?;
        let y = must(|| format!("{what}: decoding again"), || Ok(serde_json::from_str::<T>(&t)?))?;
        chk!(serde_json::to_string(&y).ok() == Some(t), "{what}: JSON form is not stable");
        let mut b = must(|| format!("{what}: bincode of a decoded value"), || Ok(bincode::serialize(&x)?))?;
        mutate(r, &mut b);
        let got = guard(|| format!("{what}: decoding hostile bincode {}", hx(&b[..b.len().min(400)])), || {
            bincode::Options::deserialize::<T>(bincode::Options::with_limit(bincode::Options::with_fixint_encoding(bincode::options()), 1 << 24), &b).ok()
        })?;
        st.inc("hostile_bincode");
        if let Some(z) = got {
            st.inc("hostile_bincode_accepted");
            let again = must(|| format!("{what}: bincode of a value from hostile bytes"), || Ok(bincode::serialize(&z)?))?;
            let y: T = must(|| format!("{what}: decoding that again"), || Ok(bincode::deserialize(&again)?))?;
            chk!(bincode::serialize(&y).ok() == Some(again), "{what}: bincode form is not stable, from {}", hx(&b[..b.len().min(300)]));
        }
    }
    Ok(())
}
fn mutate_json(r: &mut Rng, v: &mut Value) {
    let scalar = |r: &mut Rng| match r.below(8) {
        0 => Value::Null,
        1 => json!(-1),
        2 => json!(256),
        3 => json!(u64::MAX),
        4 => json!("Leaf"),
        5 => json!(1.5),
        6 => json!([]),
        _ => json!(r.below(300)),
    };
    match v {
        Value::Array(a) if !a.is_empty() && r.chance(85) => {
            let i = r.below(a.len());
            match r.below(6) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.insert(i, x);
                }
                _ => mutate_json(r, &mut a[i]),
            }
        }
        Value::Object(o) if !o.is_empty() && r.chance(85) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = r.pick(&keys).clone();
            match r.below(8) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let x = scalar(r);
                    o.insert("extra".into(), x);
                }
                _ => mutate_json(r, o.get_mut(&k).unwrap()),
            }
        }
        _ => *v = scalar(r),
    }
}

pub fn c19<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st) = (&mut cx.rng, &mut cx.stats);
    let dig = &mut cx.digest;
    let mut w = World::<H>::of(&plan, st)?;
    let mut keys: Vec<NodeKey> = vec![];
    let mut nodes: Vec<Node> = vec![];
    let mut stales: Vec<StaleNodeIndex> = vec![];
    let mut upd: Vec<B> = vec![];
    for g in groups(&plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let old = w.cur_root();
        let proof = r.chance(40);
        let out = w.commit(sets, if proof { Entry::Proof } else { Entry::Plain })?;
        let want = e_update::<H>(&out.batch)?;
        borsh_rt(r, st, &out.batch, &want, eq, "update batch")?;
        borsh_rt(r, st, &out.batch.node_batch, &e_nodebatch::<H>(&out.batch.node_batch)?, eq, "node batch")?;
        fnv(dig, &want);
        upd.push(want);
        for (k, n) in out.batch.node_batch.nodes() {
            keys.push(k.clone());
            nodes.push(n.clone());
        }
        stales.extend(out.batch.stale_node_index_batch.iter().cloned());
        // update proofs, used after having been encoded and decoded
        let mut root = old;
        for (i, p) in out.proofs.iter().enumerate() {
            let j = jval(p)?;
            let Some(ps) = j.as_array().and_then(|a| a.iter().map(j_proof).collect::<Option<Vec<_>>>()) else {
                vio!("update proof: unexpected JSON form {}", clip(&j))
            };
            let (b, jw): (Vec<B>, Vec<Value>) = ps.iter().map(e_proof).unzip();
            let want = seq(b.into_iter());
            let same = |a: &UpdateMerkleProof<H>, b: &UpdateMerkleProof<H>| borsh::to_vec(a).ok() == borsh::to_vec(b).ok();
            borsh_rt(r, st, p, &want, same, "update proof")?;
            serde_rt(st, p, Some(Value::Array(jw)), same, "update proof")?;
            let back: UpdateMerkleProof<H> = if r.chance(50) { un_b(&want, "update proof")? } else { serde_json::from_value(j).map_err(|e| Fail::Vio(format!("update proof from JSON: {e}")))? };
            must(|| format!("verifying a decoded update proof of version {}", g.0 + i), || back.verify_update(root, out.roots[i], &sets[i]))?;
            root = out.roots[i];
            st.inc("decoded_update_proofs_verified");
            fnv(dig, &want);
        }
    }
    // synthetic keys and nodes
    for _ in 0..20 {
        let nib = rand_nibbles(r);
        keys.push(node_key(rand_u64(r), &nib));
    }
    for _ in 0..4 {
        let b = rand_inner(r);
        nodes.push(un_b(&b, "node")?);
        chk!(to_b(nodes.last().unwrap(), "node")? == b, "node: an encoded inner node changes when decoded and encoded again");
        nodes.push(LeafNode::new(KeyHash(r.bytes32()), jmt::ValueHash(r.bytes32())).into());
    }
    r.shuffle(&mut keys);
    keys.truncate(60);
    r.shuffle(&mut nodes);
    nodes.truncate(60);
    for k in &keys {
        let nib = path_vec(k.nibble_path());
        let b = e_key(k);
        borsh_rt(r, st, k, &b, eq, "node key")?;
        serde_rt(st, k, Some(j_key(k)), eq, "node key")?;
        let back: NodeKey = un_b(&b, "node key")?;
        chk!(back.version() == k.version(), "node key: version changed");
        check_path(back.nibble_path(), &nib, "node key")?;
        borsh_rt(r, st, k.nibble_path(), &e_path(&nib), eq, "nibble path")?;
        serde_rt(st, k.nibble_path(), Some(j_path(&nib)), eq, "nibble path")?;
    }
    // ordering
    let mut sorted = keys.clone();
    sorted.sort();
    let mut want = keys.clone();
    want.sort_by_key(okey);
    chk!(sorted == want, "node keys are not ordered by version, path length, path: {sorted:?} instead of {want:?}");
    for a in &keys {
        let b = r.pick(&keys);
        let ba: NodeKey = un_b(&e_key(a), "node key")?;
        let bb: NodeKey = un_b(&e_key(b), "node key")?;
        chk!(a.cmp(b) == ba.cmp(&bb) && (a == b) == (ba == bb), "the order of {a:?} and {b:?} changes by encoding");
        let (sa, sb) = (rand_u64(r), rand_u64(r));
        let (x, y) = (StaleNodeIndex { stale_since_version: sa, node_key: a.clone() }, StaleNodeIndex { stale_since_version: sb, node_key: b.clone() });
        chk!(x.cmp(&y) == sa.cmp(&sb).then(okey(a).cmp(&okey(b))), "stale entries are not ordered by version first: {x:?} {y:?}");
        st.inc("orders_compared");
    }
    for n in &nodes {
        let (b, j) = e_node::<H>(n)?;
        borsh_rt(r, st, n, &b, eq, "node")?;
        serde_rt(st, n, Some(j.clone()), eq, "node")?;
        if let Node::Leaf(l) = n {
            borsh_rt(r, st, l, &b[1..], eq, "leaf node")?;
            serde_rt(st, l, Some(j["Leaf"].clone()), eq, "leaf node")?;
            let (k, v) = leaf_parts::<H>(l)?;
            let l: SparseMerkleLeafNode = forge::leaf_to_jmt(&k, &v)?;
            borsh_rt(r, st, &l, &b[1..], eq, "proof leaf")?;
            serde_rt(st, &l, Some(j["Leaf"].clone()), eq, "proof leaf")?;
        }
    }
    r.shuffle(&mut stales);
    for s in stales.iter().take(20) {
        borsh_rt(r, st, s, &e_stale(s), eq, "stale entry")?;
    }
    let set: BTreeSet<StaleNodeIndex> = keys
        .iter()
        .map(|k| StaleNodeIndex { stale_since_version: rand_u64(r), node_key: k.clone() })
        .collect();
    let mut v: Vec<_> = set.iter().collect();
    v.sort_by_key(|s| (s.stale_since_version, okey(&s.node_key)));
    let sw = seq(v.into_iter().map(e_stale));
    borsh_rt(r, st, &set, &sw, eq, "stale batch")?;
    let ns = NodeStats { new_nodes: r.below(1 << 40), new_leaves: r.below(9), stale_nodes: usize::MAX, stale_leaves: r.below(9) };
    let nw = cat(&[u(ns.new_nodes as u64), u(ns.new_leaves as u64), u(ns.stale_nodes as u64), u(ns.stale_leaves as u64)]);
    borsh_rt(r, st, &ns, &nw, eq, "node stats")?;
    // a synthetic batch: any keys, any nodes, any values
    let mut sn = BTreeMap::new();
    for k in &keys {
        if r.chance(50) {
            sn.insert(k.clone(), r.pick(&nodes).clone());
        }
    }
    let mut sv = BTreeMap::new();
    for _ in 0..r.below(10) {
        let n = r.below(200);
        let val = if r.chance(30) { None } else { Some(r.vec(n)) };
        sv.insert((rand_u64(r), KeyHash(r.bytes32())), val);
    }
    let nb = NodeBatch::new(sn, sv);
    let nbw = e_nodebatch::<H>(&nb)?;
    borsh_rt(r, st, &nb, &nbw, eq, "node batch")?;
    let ub = TreeUpdateBatch { node_batch: nb, stale_node_index_batch: set, node_stats: vec![ns.clone(); r.below(4)] };
    let ubw = e_update::<H>(&ub)?;
    borsh_rt(r, st, &ub, &ubw, eq, "update batch")?;
    for _ in 0..3 {
        let x = r.bytes32();
        borsh_rt(r, st, &RootHash(x), &x, eq, "root hash")?;
        serde_rt(st, &RootHash(x), Some(json!(x)), eq, "root hash")?;
        borsh_rt(r, st, &KeyHash(x), &x, eq, "key hash")?;
        serde_rt(st, &KeyHash(x), Some(json!(x)), eq, "key hash")?;
        chk!(<[u8; 32]>::from(RootHash::from(x)) == x && RootHash(x).as_ref() == x, "root hash conversions change the bytes");
        let y = r.bytes32();
        chk!(RootHash(x).cmp(&RootHash(y)) == x.cmp(&y) && KeyHash(x).cmp(&KeyHash(y)) == x.cmp(&y), "hashes are not ordered as their bytes");
    }
    // point and range proofs, used after having been encoded and decoded
    let s = w.snaps[r.below(w.snaps.len())].clone();
    let t = w.tree();
    let mut pw: Vec<B> = vec![];
    let mut rw: Vec<B> = vec![];
    let mut jp: Vec<Value> = vec![];
    let mut jr: Vec<Value> = vec![];
    for k in probes(r, &plan.pool, &s.map, 10) {
        let (val, p) = must(|| "get_with_proof".into(), || t.get_with_proof(k, s.version))?;
        let j = jval(&p)?;
        let Some(sp) = j_proof(&j) else { vio!("point proof: unexpected JSON form {}", clip(&j)) };
        let (b, jw) = e_proof(&sp);
        borsh_rt(r, st, &p, &b, eq, "point proof")?;
        chk!(to_b(&p.clone(), "point proof")? == b, "point proof: a clone has another encoding");
        serde_rt(st, &p, Some(jw), eq, "point proof")?;
        let back: SparseMerkleProof<H> = un_b(&b, "point proof")?;
        must(|| format!("verifying a decoded proof of {}", hx(&k.0)), || back.verify(s.root, k, val.as_ref()))?;
        st.inc("decoded_point_proofs_verified");
        fnv(dig, &b);
        pw.push(b);
        jp.push(j);
        if s.map.contains_key(&k) {
            let p = must(|| "get_range_proof".into(), || t.get_range_proof(k, s.version))?;
            let j = jval(&p)?;
            let Some(sib) = j["right_siblings"].as_array().and_then(|a| a.iter().map(j_snode).collect::<Option<Vec<_>>>()) else {
                vio!("range proof: unexpected JSON form {}", clip(&j))
            };
            let (bs, js): (Vec<B>, Vec<Value>) = sib.iter().map(e_snode).unzip();
            let b = seq(bs.into_iter());
            borsh_rt(r, st, &p, &b, eq, "range proof")?;
            chk!(to_b(&p.clone(), "range proof")? == b, "range proof: a clone has another encoding");
            serde_rt(st, &p, Some(json!({"right_siblings": js, "_phantom": null})), eq, "range proof")?;
            let back: SparseMerkleRangeProof<H> = un_b(&b, "range proof")?;
            let es = entries::<H>(&s.map);
            let vh = es.iter().find(|e| e.0 == k.0).unwrap().1;
            must(|| "verifying a decoded range proof".into(), || {
                back.verify(s.root, forge::leaf_to_jmt(&k.0, &vh).unwrap(), left_siblings::<H>(&es, &k.0))
            })?;
            st.inc("decoded_range_proofs_verified");
            fnv(dig, &b);
            rw.push(b);
            jr.push(j);
        }
    }
    // a decoded batch written elsewhere gives the same tree
    let mut dst = World::<H>::of(&plan, st)?;
    for b in &upd {
        let ub: TreeUpdateBatch = un_b(b, "update batch")?;
        dst.store.apply(&ub)?;
    }
    dst.snaps = w.snaps.clone();
    let ks = probes(r, &plan.pool, &s.map, 8);
    crate::props::reads::check_reads(&dst, &s, &ks, st, "tree written from decoded batches")?;

    // hostile decoding
    let rounds = if cx.thorough { 40 } else { 12 };
    let kb: Vec<B> = keys.iter().take(8).map(e_key).collect();
    let mut nb: Vec<B> = vec![rand_inner(r)];
    let mut jn: Vec<Value> = vec![];
    for n in nodes.iter().take(8) {
        let (b, j) = e_node::<H>(n)?;
        nb.push(b);
        jn.push(j);
    }
    let jk: Vec<Value> = keys.iter().take(8).map(j_key).collect();
    for _ in 0..rounds {
        let mut m = |r: &mut Rng, src: &[B]| -> B {
            let mut b = if src.is_empty() || r.chance(10) { vec![] } else { r.pick(src).clone() };
            if b.len() > 6000 {
                b.truncate(6000);
            }
            mutate(r, &mut b);
            b
        };
        let b = m(r, &kb);
        hostile_b::<NodeKey>(st, &b, "node key")?;
        let b = m(r, &nb);
        hostile_b::<Node>(st, &b, "node")?;
        if b.len() > 1 {
            hostile_b::<LeafNode>(st, &b[1..], "leaf node")?;
        }
        let b = m(r, &upd);
        hostile_b::<TreeUpdateBatch>(st, &b, "update batch")?;
        hostile_b::<NodeBatch>(st, &b, "node batch")?;
        let b = m(r, &[nbw.clone(), ubw.clone(), sw.clone()]);
        hostile_b::<NodeBatch>(st, &b, "node batch")?;
        hostile_b::<BTreeSet<StaleNodeIndex>>(st, &b, "stale batch")?;
        hostile_b::<StaleNodeIndex>(st, &b, "stale entry")?;
        let b = m(r, &pw);
        if let Some(p) = hostile_b::<SparseMerkleProof<H>>(st, &b, "point proof")? {
            let k = r.pick(&plan.pool);
            let ok = guard(|| "verifying a decoded hostile proof".into(), || p.verify_nonexistence(s.root, *k).is_ok())?;
            chk!(!ok || !s.map.contains_key(k), "a decoded hostile proof shows present key {} absent", hx(&k.0));
        }
        let many = cat(&[len(pw.len()), pw.concat()]);
        let b = m(r, &[many]);
        hostile_b::<UpdateMerkleProof<H>>(st, &b, "update proof")?;
        let b = m(r, &rw);
        hostile_b::<SparseMerkleRangeProof<H>>(st, &b, "range proof")?;
        let b = m(r, &[nw.clone()]);
        hostile_b::<NodeStats>(st, &b, "node stats")?;
        hostile_b::<RootHash>(st, &b, "root hash")?;
        hostile_b::<KeyHash>(st, &b, "key hash")?;
        let j = r.pick(&jk).clone();
        hostile_j::<NodeKey>(r, st, &j, "node key")?;
        let j = r.pick(&jn).clone();
        hostile_j::<Node>(r, st, &j, "node")?;
        let j = r.pick(&jp).clone();
        hostile_j::<SparseMerkleProof<H>>(r, st, &j, "point proof")?;
        hostile_j::<UpdateMerkleProof<H>>(r, st, &json!([j.clone(), j]), "update proof")?;
        if !jr.is_empty() {
            let j = r.pick(&jr).clone();
            hostile_j::<SparseMerkleRangeProof<H>>(r, st, &j, "range proof")?;
        }
        let j = json!(r.bytes32());
        hostile_j::<RootHash>(r, st, &j, "root hash")?;
        hostile_j::<KeyHash>(r, st, &j, "key hash")?;
    }
    Ok(())
}
