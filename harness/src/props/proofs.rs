//! C03 honest point proofs, C04 forged point proofs, C05/C06 update proofs, C07 range proofs, C08 exclusion proofs.
use crate::core::*;
use crate::forge::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use jmt::proof::{SparseMerkleProof, UpdateMerkleProof};
use jmt::{ExclusionProof, KeyHash, RootHash, SimpleHasher};
use std::sync::Arc;

pub fn kh(k: &KeyHash) -> String {
    hx(&k.0)
}

/// Runs the verifier on untrusted input: it may accept or reject, never panic.
pub fn accepts<H: SimpleHasher>(p: &SparseMerkleProof<H>, root: RootHash, k: KeyHash, v: Option<&[u8]>, api: usize, what: &str) -> R<bool> {
    let r = guard(
        || format!("verifying {what}"),
        || match (api % 2, v) {
            (0, _) => p.verify(root, k, v),
            (_, Some(v)) => p.verify_existence(root, k, v),
            (_, None) => p.verify_nonexistence(root, k),
        },
    )?;
    Ok(r.is_ok())
}

fn other_values(r: &mut Rng, m: &Map, v: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![], r.bytes32().to_vec()];
    let mut x = v.to_vec();
    if !x.is_empty() {
        let i = r.below(x.len());
        x[i] ^= 1 << r.below(8);
        out.push(x.clone());
        x = v[..v.len() - 1].to_vec();
        out.push(x);
    }
    let mut x = v.to_vec();
    x.push(0);
    out.push(x);
    for o in m.values().take(3) {
        out.push(o.clone());
    }
    out.retain(|o| o.as_slice() != v);
    out
}

pub fn c03<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    let t = w.tree();
    for s in w.snaps.clone() {
        let es = entries::<H>(&s.map);
        let root = RootHash(root::<H>(&s.map));
        let keys = probes(r, &plan.pool, &s.map, 14);
        for k in &keys {
            let want = s.map.get(k);
            let what = || format!("get_with_proof({}) at version {}", kh(k), s.version);
            let (got, p) = must(what, || t.get_with_proof(*k, s.version))?;
            chk!(got.as_ref() == want, "{}: value differs from the model", what());
            for api in 0..2 {
                chk!(
                    accepts(&p, root, *k, want.map(|v| v.as_slice()), api, &what())?,
                    "{}: the honest proof of {} does not verify (api {api}, {} entries)",
                    what(),
                    if want.is_some() { "inclusion" } else { "absence" },
                    es.len()
                );
            }
            st.inc(if want.is_some() { "inclusion_verified" } else { "absence_verified" });
            let sp = from_jmt(&p)?;
            st.peak("siblings_in_proof", sp.siblings.len() as u64);
            match sp.leaf {
                None => st.inc("absence_empty_position"),
                Some(l) if l.0 != k.0 => st.inc("absence_other_leaf"),
                _ => {}
            }
            if sp.leaf.is_some() {
                let rh = guard(|| format!("root_hash() of {}", what()), || p.root_hash())?;
                chk!(rh == root, "{}: proof.root_hash() is not the version's root", what());
            }
            // wrong claims about the same key
            match want {
                Some(v) => {
                    for o in other_values(r, &s.map, v) {
                        for api in 0..2 {
                            chk!(
                                !accepts(&p, root, *k, Some(&o), api, &what())?,
                                "{}: accepted for another value {}",
                                what(),
                                short(&o)
                            );
                            st.inc("wrong_claims_rejected");
                        }
                    }
                    for api in 0..2 {
                        chk!(!accepts(&p, root, *k, None, api, &what())?, "{}: inclusion proof accepted as absence", what());
                        st.inc("wrong_claims_rejected");
                    }
                }
                None => {
                    let mut vs = vec![vec![], r.bytes32().to_vec()];
                    vs.extend(s.map.values().take(3).cloned());
                    // a value the key had at another version
                    vs.extend(w.snaps.iter().filter_map(|x| x.map.get(k).cloned()).take(2));
                    for v in vs {
                        for api in 0..2 {
                            chk!(
                                !accepts(&p, root, *k, Some(&v), api, &what())?,
                                "{}: absence proof accepted as inclusion of {}",
                                what(),
                                short(&v)
                            );
                            st.inc("wrong_claims_rejected");
                        }
                    }
                }
            }
            // other roots
            let mut roots: Vec<RootHash> = w.snaps.iter().map(|x| RootHash(crate::spec::root::<H>(&x.map))).collect();
            roots.push(RootHash(flip(&root.0, r.below(256))));
            roots.push(RootHash(PLACEHOLDER));
            roots.retain(|x| *x != root);
            for o in roots.iter().take(6) {
                chk!(
                    !accepts(&p, *o, *k, want.map(|v| v.as_slice()), r.below(2), &what())?,
                    "{}: accepted under another root",
                    what()
                );
                st.inc("other_roots_rejected");
            }
            // other keys: those with a different authentication path are not spoken about
            for _ in 0..4 {
                let k2 = r.pick(&keys);
                if k2 == k {
                    continue;
                }
                let api = r.below(2);
                if let Some(v2) = s.map.get(k2) {
                    chk!(
                        // (an absence proof names the leaf in the way, and proves that one's inclusion)
                        !accepts(&p, root, *k2, Some(v2), api, &what())? || sp.leaf.map(|l| l.0) == Some(k2.0),
                        "{}: accepted as inclusion of another key {}",
                        what(),
                        kh(k2)
                    );
                    chk!(!accepts(&p, root, *k2, None, api, &what())?, "{}: accepted as absence of present {}", what(), kh(k2));
                } else {
                    let same = prove::<H>(&es, &k2.0) == sp && sp.leaf.map(|l| l.0) != Some(k.0);
                    let acc = accepts(&p, root, *k2, None, api, &what())?;
                    if !same && sp.leaf.map(|l| l.0) == Some(k.0) {
                        // an inclusion proof also proves absence of keys that would fall on its leaf
                        let sound = common_bits(&k2.0, &k.0) >= sp.siblings.len();
                        chk!(!acc || sound, "{}: accepted as absence of unrelated {}", what(), kh(k2));
                    } else {
                        chk!(!acc || same, "{}: accepted as absence of unrelated {}", what(), kh(k2));
                    }
                }
                st.inc("other_keys_checked");
            }
        }
    }
    Ok(())
}

pub fn c04<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    cfg.pool = (cfg.pool.0.min(60), cfg.pool.1.min(60));
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    let t = w.tree();
    // honest material from every version
    let mut honest: Vec<(KeyHash, SProof)> = vec![];
    let mut donors: Vec<SNode> = vec![];
    let mut leaves: Vec<KV> = vec![];
    for s in &w.snaps {
        for k in probes(r, &plan.pool, &s.map, 8) {
            let (_, p) = must(|| "get_with_proof".into(), || t.get_with_proof(k, s.version))?;
            let sp = from_jmt(&p)?;
            donors.extend(sp.siblings.iter().take(40));
            honest.push((k, sp));
        }
        leaves.extend(entries::<H>(&s.map).into_iter().take(30));
    }
    let rounds = if cx.thorough { 600 } else { 250 };
    for _ in 0..rounds {
        let s = r.pick(&w.snaps).clone();
        let es = entries::<H>(&s.map);
        let root = RootHash(root::<H>(&s.map));
        // a false claim
        let present: Vec<KeyHash> = s.map.keys().copied().collect();
        let key = match r.below(4) {
            0 if !present.is_empty() => *r.pick(&present),
            1 => *r.pick(&plan.pool),
            2 => r.pick(&honest).0,
            _ => *probes(r, &plan.pool, &s.map, 2).first().unwrap(),
        };
        let truth = s.map.get(&key).cloned();
        let claim: Option<Vec<u8>> = match (&truth, r.below(5)) {
            (Some(_), 0..=2) => None,
            _ => {
                let mut vs = vec![r.bytes32().to_vec(), vec![]];
                vs.extend(w.snaps.iter().filter_map(|x| x.map.get(&key).cloned()));
                vs.extend(s.map.values().take(4).cloned());
                Some(r.pick(&vs).clone())
            }
        };
        if claim == truth {
            continue;
        }
        let mut p = match r.below(12) {
            // the honest proof of this very key here
            0..=1 => prove::<H>(&es, &key.0),
            // an honest proof of this key at another version
            2..=3 => prove::<H>(&entries::<H>(&r.pick(&w.snaps).map), &key.0),
            // any honest proof
            4..=6 => r.pick(&honest).1.clone(),
            // an inner node presented as a leaf
            7..=8 => match inner_as_leaf::<H>(&es, &key.0, r.below(6)) {
                Some(p) => {
                    st.inc("forged_inner_as_leaf");
                    p
                }
                None => r.pick(&honest).1.clone(),
            },
            // a subtree of the path cut out
            9 => {
                let mut p = prove::<H>(&es, &key.0);
                let n = p.siblings.len();
                if n > 0 {
                    let c = r.below(n) + 1;
                    p.siblings.drain(..c);
                }
                if r.chance(60) {
                    p.leaf = None;
                }
                p
            }
            10 => SProof { leaf: None, siblings: vec![] },
            _ => {
                let mut p = SProof { leaf: None, siblings: vec![] };
                if r.chance(60) {
                    p.leaf = Some(if leaves.is_empty() { (key.0, r.bytes32()) } else { *r.pick(&leaves) });
                }
                for _ in 0..r.below(8) {
                    let x = if donors.is_empty() { rand_node(r) } else { *r.pick(&donors) };
                    p.siblings.push(x);
                }
                p
            }
        };
        if let (Some(v), true) = (&claim, r.chance(40)) {
            // make the leaf say what is claimed
            p.leaf = Some((key.0, value_hash::<H>(v)));
        }
        for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) {
            mutate_proof(r, &mut p, &leaves, &donors, &key.0);
        }
        let jp = to_jmt::<H>(&p)?;
        let api = r.below(2);
        let what = format!("a forged proof for {} at version {}: {:?}", kh(&key), s.version, p);
        let acc = accepts(&jp, root, key, claim.as_deref(), api, &what)?;
        chk!(
            !acc,
            "false claim accepted: key {} {} at version {} ({} entries), proof {:?}",
            kh(&key),
            match &claim {
                Some(v) => format!("= {}", short(v)),
                None => "absent".into(),
            },
            s.version,
            es.len(),
            p
        );
        st.inc("false_claims_rejected");
        st.peak("siblings_in_forged_proof", p.siblings.len() as u64);
        if p.siblings.len() > 256 {
            st.inc("oversized_proofs");
        }
        // the raw accessors must survive it too
        guard(|| "leaf() of a forged proof".into(), || jp.leaf().map(|_| ()))?;
        // byte-level corruption of an encoded proof: whatever still decodes must verify without panicking
        if r.chance(30) {
            let mut b = borsh::to_vec(&p).unwrap();
            for _ in 0..r.range(1, 3) {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.u64() as u8;
                }
            }
            let dec = guard(|| "decoding corrupted proof bytes".into(), || borsh::from_slice::<SparseMerkleProof<H>>(&b))?;
            if let Ok(jp) = dec {
                let acc = accepts(&jp, root, key, claim.as_deref(), api, "a corrupted proof")?;
                chk!(!acc, "false claim accepted from corrupted bytes {}", hx(&b));
                st.inc("corrupted_encodings_decoded");
            }
        }
    }
    Ok(())
}

fn upd_accepts<H: SimpleHasher>(p: UpdateMerkleProof<H>, old: RootHash, new: RootHash, u: &[Op], what: &str) -> R<bool> {
    Ok(guard(|| format!("verifying update proof: {what}"), || p.verify_update(old, new, u))?.is_ok())
}

pub fn c05<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let first = w.next();
        let plain = w.compute(sets, first, Entry::Plain)?;
        let proof = w.compute(sets, first, Entry::Proof)?;
        chk!(
            plain.roots == proof.roots,
            "versions {first}..: roots differ between plain and proof-producing update: {:?} / {:?}",
            plain.roots,
            proof.roots
        );
        chk!(
            plain.batch == proof.batch,
            "versions {first}..: storage changes differ between plain and proof-producing update: {}",
            diff_batches(&plain.batch, &proof.batch)
        );
        chk!(proof.proofs.len() == sets.len(), "{} proofs for {} versions", proof.proofs.len(), sets.len());
        let mut old_map = w.cur();
        for (i, p) in proof.proofs.into_iter().enumerate() {
            let old = RootHash(root::<H>(&old_map));
            let new_map = apply(&old_map, &sets[i]);
            let new = RootHash(root::<H>(&new_map));
            chk!(new == plain.roots[i], "version {}: root is not the map's", first + i as u64);
            let sp = upd_from_jmt(&p)?;
            let what = || format!("honest update proof of version {} ({} ops)", first + i as u64, sets[i].len());
            let ok = must(
                || format!("{} does not verify", what()),
                || p.verify_update(old, new, &sets[i]),
            );
            ok?;
            st.inc("update_proofs_verified");
            st.add("updates_proved", sets[i].len() as u64);
            for (k, v) in &sets[i] {
                st.inc(match (v.is_some(), old_map.contains_key(k)) {
                    (true, true) => "proved_overwrite",
                    (true, false) => "proved_insert",
                    (false, true) => "proved_delete",
                    (false, false) => "proved_noop_delete",
                });
            }
            // another list of updates is not what it proves
            let mut other = sets[i].clone();
            let n = other.len();
            match r.below(6) {
                0 if n > 0 => {
                    other.remove(r.below(n));
                }
                1 => other.push((*r.pick(&plan.pool), Some(vec![1, 2, 3]))),
                2 if n > 0 => {
                    let j = r.below(n);
                    other[j].1 = match other[j].1.take() {
                        Some(mut v) => {
                            v.push(9);
                            Some(v)
                        }
                        None => Some(vec![5]),
                    };
                }
                3 if n > 0 => {
                    let j = r.below(n);
                    other[j].1 = None;
                }
                4 if n > 0 => {
                    let j = r.below(n);
                    other[j].0 = KeyHash(flip(&other[j].0 .0, pick_depth(r)));
                }
                _ if n > 1 => {
                    let (a, b) = (r.below(n), r.below(n));
                    other.swap(a, b);
                }
                _ => {}
            }
            let truth = RootHash(root::<H>(&apply(&old_map, &other)));
            if truth != new {
                let p = upd_to_jmt::<H>(&sp)?;
                chk!(!upd_accepts(p, old, new, &other, &what())?, "{}: verifies for a different list of updates", what());
                st.inc("other_updates_rejected");
            } else if other.len() != n {
                let p = upd_to_jmt::<H>(&sp)?;
                chk!(!upd_accepts(p, old, new, &other, &what())?, "{}: verifies for a list of another length", what());
                st.inc("other_updates_rejected");
            }
            old_map = Arc::new(new_map);
        }
        w.commit(sets, Entry::Proof)?;
        count_ops(sets, Entry::Proof, st);
    }
    Ok(())
}

pub fn diff_batches(a: &jmt::storage::TreeUpdateBatch, b: &jmt::storage::TreeUpdateBatch) -> String {
    let mut o = vec![];
    for (k, n) in a.node_batch.nodes() {
        match b.node_batch.nodes().get(k) {
            None => o.push(format!("node {k:?} only in the first")),
            Some(m) if m != n => o.push(format!("node {k:?} differs")),
            _ => {}
        }
    }
    for k in b.node_batch.nodes().keys() {
        if !a.node_batch.nodes().contains_key(k) {
            o.push(format!("node {k:?} only in the second"));
        }
    }
    if a.node_batch.values() != b.node_batch.values() {
        o.push("values differ".into());
    }
    for i in a.stale_node_index_batch.symmetric_difference(&b.stale_node_index_batch) {
        o.push(format!(
            "stale {:?} only in the {}",
            i,
            if a.stale_node_index_batch.contains(i) { "first" } else { "second" }
        ));
    }
    if a.node_stats != b.node_stats {
        o.push(format!("stats {:?} / {:?}", a.node_stats, b.node_stats));
    }
    o.truncate(6);
    o.join("; ")
}

pub fn c06<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    cfg.pool = (cfg.pool.0.min(40), cfg.pool.1.min(40));
    cfg.versions = (1, 4);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    let mut donors: Vec<SNode> = vec![];
    let mut leaves: Vec<KV> = vec![];
    for s in &w.snaps {
        let es = entries::<H>(&s.map);
        leaves.extend(es.iter().take(30));
        let ks: Vec<KeyHash> = s.map.keys().take(10).copied().collect();
        donors.extend(all_nodes::<H>(&es, &ks, 120));
    }
    let rounds = if cx.thorough { 200 } else { 60 };
    for _ in 0..rounds {
        let s = r.pick(&w.snaps).clone();
        let old = RootHash(root::<H>(&s.map));
        let present: Vec<KeyHash> = s.map.keys().copied().collect();
        // a short update list aimed at present keys, absent keys next to them, repeats
        let n = *r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3, 4]);
        let mut u: Vec<Op> = vec![];
        for _ in 0..n {
            let k = match r.below(5) {
                0..=1 if !present.is_empty() => *r.pick(&present),
                2 if !u.is_empty() => r.pick(&u).0,
                3 => *r.pick(&plan.pool),
                _ => {
                    let style = 1 + r.below(4);
                    new_key(r, if present.is_empty() { &plan.pool } else { &present }, style)
                }
            };
            let v = if r.chance(45) { None } else { Some(r.bytes32()[..r.below(4) + 1].to_vec()) };
            u.push((k, v));
        }
        // element proofs: honest for the running state, then corrupted
        let mut m = (*s.map).clone();
        let mut ps: Vec<SProof> = vec![];
        for op in &u {
            ps.push(prove::<H>(&entries::<H>(&m), &op.0 .0));
            m = apply(&m, std::slice::from_ref(op));
        }
        let truth = RootHash(root::<H>(&m));
        let at = if n > 0 { r.below(n) } else { 0 };
        let honest_before = ps.clone();
        if n > 0 {
            let before = {
                let mut b = (*s.map).clone();
                for op in &u[..at] {
                    b = apply(&b, std::slice::from_ref(op));
                }
                b
            };
            let es = entries::<H>(&before);
            let key = u[at].0;
            match r.below(9) {
                // proof of some other key of the same tree
                0..=2 if !es.is_empty() => {
                    let k2 = if r.chance(70) { r.pick(&es).0 } else { new_key(r, &present_or(&present, &plan.pool), 1).0 };
                    ps[at] = prove::<H>(&es, &k2);
                }
                3 => ps[at] = prove::<H>(&entries::<H>(&r.pick(&w.snaps).map), &key.0),
                4 => {
                    if let Some(p) = inner_as_leaf::<H>(&es, &key.0, r.below(6)) {
                        ps[at] = p;
                    }
                }
                5 => {
                    // claim the key (or a fake leaf) sits here already
                    let l = ps[at].leaf;
                    ps[at].leaf = Some((key.0, l.map(|l| l.1).unwrap_or(r.bytes32())));
                }
                6 => ps[at].leaf = None,
                7 => {
                    // the key's neighbour leaf with a shortened path
                    if !es.is_empty() {
                        let nb = *r.pick(&es);
                        let mut p = prove::<H>(&es, &nb.0);
                        let c = common_bits(&nb.0, &key.0).min(p.siblings.len());
                        let n = p.siblings.len();
                        if r.chance(50) {
                            p.siblings.drain(..n - c);
                        }
                        ps[at] = p;
                    }
                }
                _ => {}
            }
            for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2]) {
                mutate_proof(r, &mut ps[at], &leaves, &donors, &key.0);
            }
        }
        match r.below(14) {
            0 => {
                ps.push(SProof { leaf: None, siblings: vec![] });
            }
            1 if !ps.is_empty() => {
                ps.pop();
            }
            2 if ps.len() > 1 => {
                let (a, b) = (r.below(ps.len()), r.below(ps.len()));
                ps.swap(a, b);
            }
            _ => {}
        }
        // false targets: what a verifier that trusts the proof would compute, and roots of other updates
        let mut targets: Vec<RootHash> = vec![old, RootHash(PLACEHOLDER)];
        let mut cur = Some(old.0);
        for (p, op) in ps.iter().zip(&u) {
            cur = cur.and_then(|c| believed_new_root::<H>(p, c, &op.0 .0, op.1.as_deref()));
        }
        if let Some(c) = cur {
            targets.push(RootHash(c));
            st.inc("targets_from_believing_verifier");
        }
        if n > 0 {
            let mut o = u.clone();
            o.remove(at);
            targets.push(RootHash(root::<H>(&apply(&s.map, &o))));
            let mut o = u.clone();
            o[at].1 = None;
            targets.push(RootHash(root::<H>(&apply(&s.map, &o))));
            let mut o = u.clone();
            o.reverse();
            targets.push(RootHash(root::<H>(&apply(&s.map, &o))));
        }
        for x in w.snaps.iter().take(3) {
            targets.push(x.root);
        }
        targets.retain(|t| *t != truth);
        for t in targets {
            // both the corrupted and the honest elements, each for every false target
            for q in [&ps, &honest_before] {
                let jp = upd_to_jmt::<H>(q)?;
                let acc = upd_accepts(jp, old, t, &u, &format!("{u:?} with {q:?}"))?;
                chk!(
                    !acc,
                    "false transition accepted: from version {} ({} entries), updates {:?}, claimed root {:?}, true root {:?}, proof {:?}",
                    s.version,
                    s.map.len(),
                    u.iter().map(|(k, v)| (kh(k), v.as_ref().map(|v| hx(v)))).collect::<Vec<_>>(),
                    t,
                    truth,
                    q
                );
                st.inc("false_transitions_rejected");
            }
        }
        // whatever the verdict on the true transition, no panic; a wrong number of proofs is never accepted
        let jp = upd_to_jmt::<H>(&ps)?;
        let acc = upd_accepts(jp, old, truth, &u, &format!("{u:?} with {ps:?}"))?;
        chk!(!acc || ps.len() == u.len(), "accepted with {} proofs for {} updates", ps.len(), u.len());
        if r.chance(20) {
            let mut b = borsh::to_vec(&ps).unwrap();
            for _ in 0..r.range(1, 3) {
                let i = r.below(b.len());
                b[i] = r.u64() as u8;
            }
            let dec = guard(|| "decoding corrupted proof bytes".into(), || borsh::from_slice::<UpdateMerkleProof<H>>(&b))?;
            if let Ok(jp) = dec {
                upd_accepts(jp, old, truth, &u, "a corrupted encoding")?;
                st.inc("corrupted_encodings_decoded");
            }
        }
        // a false starting point
        if n > 0 && r.chance(50) {
            let other = r.pick(&w.snaps).root;
            if other != old {
                let jp = upd_to_jmt::<H>(&honest_before)?;
                chk!(
                    !upd_accepts(jp, other, truth, &u, "wrong old root")?
                        || RootHash(root::<H>(&apply(&w.snaps.iter().find(|x| x.root == other).unwrap().map, &u))) == truth,
                    "accepted from a wrong old root"
                );
                st.inc("false_transitions_rejected");
            }
        }
    }
    Ok(())
}

fn present_or(a: &[KeyHash], b: &[KeyHash]) -> Vec<KeyHash> {
    if a.is_empty() {
        b.to_vec()
    } else {
        a.to_vec()
    }
}

pub fn c07<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    let t = w.tree();
    for s in w.snaps.clone() {
        let es = entries::<H>(&s.map);
        // a bound that is absent gets no proof
        let near: Vec<KeyHash> = es.iter().map(|e| KeyHash(e.0)).collect();
        for _ in 0..6 {
            let style = r.below(5);
            let key = new_key(r, &near, style);
            if s.map.contains_key(&key) {
                continue;
            }
            let what = || format!("range proof up to the absent key {} at version {} ({} entries)", kh(&key), s.version, es.len());
            let got = guard(what, || t.get_range_proof(key, s.version))?;
            chk!(got.is_err(), "{}: a proof was returned", what());
            st.inc("absent_bounds_refused");
        }
        if es.is_empty() {
            continue;
        }
        let root = RootHash(root::<H>(&s.map));
        let mut idx: Vec<usize> = (0..es.len()).collect();
        if idx.len() > 12 {
            r.shuffle(&mut idx);
            idx.truncate(10);
            idx.extend([0, es.len() - 1]);
        }
        for i in idx {
            let key = KeyHash(es[i].0);
            let what = || format!("range proof up to {} at version {} (entry {i} of {})", kh(&key), s.version, es.len());
            let p = must(what, || t.get_range_proof(key, s.version))?;
            let right = range_from_jmt(&p)?;
            let upto = &es[..=i];
            let lefts = left_for_range::<H>(upto, &key.0, right.len());
            st.peak("right_siblings", right.len() as u64);
            must(
                || format!("{} does not verify with {} left hashes", what(), lefts.len()),
                || p.verify(root, leaf_to_jmt(&es[i].0, &es[i].1).map_err(|e| anyhow::anyhow!("{e:?}"))?, lefts.clone()),
            )?;
            st.inc("range_proofs_verified");
            let rej = |rt: RootHash, k: &H32, vh: &H32, ls: Vec<H32>, rs: &Vec<SNode>, label: &str| -> R<()> {
                let jp = range_to_jmt::<H>(rs)?;
                let leaf = leaf_to_jmt(k, vh)?;
                let ok = guard(|| format!("verifying a tampered {}: {label}", what()), || jp.verify(rt, leaf, ls.clone()))?;
                chk!(ok.is_err(), "{}: accepted although tampered: {label}; right {:?}", what(), rs);
                Ok(())
            };
            let lf = |e: &[KV], n: usize| left_for_range::<H>(e, &key.0, n);
            // missing / altered / added entries
            for _ in 0..4 {
                let mut e = upto.to_vec();
                match r.below(4) {
                    0 if i > 0 => {
                        e.remove(r.below(i));
                    }
                    1 if i > 0 => {
                        let j = r.below(i);
                        e[j].1 = r.bytes32();
                    }
                    2 if i > 0 => {
                        let b = KeyHash(e[r.below(i)].0);
                        let k = new_key(r, &[b], 3).0;
                        if k < key.0 && e.iter().all(|x| x.0 != k) {
                            e.push((k, r.bytes32()));
                        }
                    }
                    _ => {
                        let style = 1 + r.below(4);
                        let k = new_key(r, &[key], style).0;
                        if k < key.0 && e.iter().all(|x| x.0 != k) {
                            e.push((k, r.bytes32()));
                        }
                    }
                }
                e.sort();
                if e != upto {
                    rej(root, &es[i].0, &es[i].1, lf(&e, right.len()), &right, "other set of entries")?;
                    st.inc("tampered_sets_rejected");
                }
            }
            // other bound, value or root
            rej(root, &es[i].0, &r.bytes32(), lefts.clone(), &right, "other value at the bound")?;
            let j = r.below(es.len());
            if j != i {
                rej(root, &es[j].0, &es[j].1, lefts.clone(), &right, "other bound, same left hashes")?;
                let l2 = left_for_range::<H>(&es[..=j], &es[j].0, right.len());
                let own = range_from_jmt(&must(what, || t.get_range_proof(KeyHash(es[j].0), s.version))?)?;
                if own != right {
                    rej(root, &es[j].0, &es[j].1, l2, &right, "proof of another bound")?;
                }
            }
            let k2 = flip(&key.0, pick_depth(r));
            rej(root, &k2, &es[i].1, lefts.clone(), &right, "bound changed by one bit")?;
            rej(RootHash(flip(&root.0, r.below(256))), &es[i].0, &es[i].1, lefts.clone(), &right, "other root")?;
            for x in w.snaps.iter().take(4) {
                if x.root != root {
                    rej(x.root, &es[i].0, &es[i].1, lefts.clone(), &right, "root of another version")?;
                }
            }
            st.add("tampered_claims_rejected", 3);
            // tampered siblings, recomputed or original left hashes
            let donors = all_nodes::<H>(&es, &[key], 60);
            for _ in 0..6 {
                let mut rs = right.clone();
                for _ in 0..r.range(1, 2) {
                    mutate_nodes(r, &mut rs, &donors);
                }
                let ls = if r.chance(50) { lefts.clone() } else { lf(upto, rs.len()) };
                if rs != right {
                    rej(root, &es[i].0, &es[i].1, ls, &rs, "siblings tampered with")?;
                    st.inc("tampered_siblings_rejected");
                }
                let mut ls = lefts.clone();
                match r.below(4) {
                    0 => ls.push(r.bytes32()),
                    1 if !ls.is_empty() => {
                        ls.pop();
                    }
                    2 if !ls.is_empty() => {
                        let q = r.below(ls.len());
                        ls[q] = flip(&ls[q], r.below(256));
                    }
                    _ => {
                        for _ in 0..r.range(200, 300) {
                            ls.push(PLACEHOLDER);
                        }
                    }
                }
                if ls != lefts {
                    rej(root, &es[i].0, &es[i].1, ls, &right, "left hashes tampered with")?;
                }
                // as many hashes in total, but shared out differently
                let (mut rs, mut ls) = (right.clone(), lefts.clone());
                let d = r.range(1, 3);
                if r.chance(50) {
                    let d = d.min(rs.len());
                    match r.below(3) {
                        0 => drop(rs.drain(..d)),
                        _ => rs.truncate(rs.len() - d),
                    }
                    for _ in 0..d {
                        let x = if r.chance(50) { PLACEHOLDER } else { r.bytes32() };
                        ls.insert(r.below(ls.len() + 1), x);
                    }
                } else {
                    let d = d.min(ls.len());
                    match r.below(3) {
                        0 => drop(ls.drain(..d)),
                        _ => ls.truncate(ls.len() - d),
                    }
                    for _ in 0..d {
                        let x = if r.chance(60) || donors.is_empty() { SNode::Null } else { *r.pick(&donors) };
                        rs.insert(r.below(rs.len() + 1), x);
                    }
                }
                if rs != right {
                    rej(root, &es[i].0, &es[i].1, ls, &rs, "hashes moved between the sides")?;
                    st.inc("moved_siblings_rejected");
                }
            }
        }
    }
    Ok(())
}

/// Reads the exclusion query's answer against the model.
pub fn check_exclusion<H: SimpleHasher>(w: &World<H>, s: &Snap, root: RootHash, k: &KeyHash, st: &mut Stats) -> R<()> {
    let t = w.tree();
    let what = || format!("get_with_exclusion_proof({}) at version {} ({} entries)", kh(k), s.version, s.map.len());
    let ans = must(what, || t.get_with_exclusion_proof(*k, s.version))?;
    let left = s.map.range(..*k).next_back();
    let right = s.map.range(*k..).next();
    let nb = |p: &SparseMerkleProof<H>, want: Option<(&KeyHash, &Vec<u8>)>, side: &str| -> R<()> {
        let sp = from_jmt(p)?;
        let Some((wk, wv)) = want else { vio!("{}: names a {side} neighbour although there is none", what()) };
        chk!(
            sp.leaf.map(|l| l.0) == Some(wk.0),
            "{}: {side} neighbour is {:?}, should be {}",
            what(),
            sp.leaf.map(|l| hx(&l.0)),
            kh(wk)
        );
        chk!(accepts(p, root, *wk, Some(wv), 1, &what())?, "{}: {side} neighbour proof does not verify", what());
        Ok(())
    };
    match (ans, s.map.get(k)) {
        (Ok((v, p)), Some(want)) => {
            chk!(v == *want, "{}: wrong value", what());
            chk!(accepts(&p, root, *k, Some(want), 0, &what())?, "{}: inclusion proof does not verify", what());
            st.inc("exclusion_present");
        }
        (Ok(_), None) => vio!("{}: found a value for an absent key", what()),
        (Err(_), Some(_)) => vio!("{}: claims a present key is absent", what()),
        (Err(e), None) => match e {
            ExclusionProof::Leftmost { leftmost_right_proof } => {
                chk!(left.is_none(), "{}: no left neighbour given", what());
                nb(&leftmost_right_proof, right, "right")?;
                st.inc("exclusion_leftmost");
            }
            ExclusionProof::Middle { leftmost_right_proof, rightmost_left_proof } => {
                nb(&leftmost_right_proof, right, "right")?;
                nb(&rightmost_left_proof, left, "left")?;
                st.inc("exclusion_middle");
            }
            ExclusionProof::Rightmost { rightmost_left_proof } => {
                chk!(right.is_none(), "{}: no right neighbour given", what());
                nb(&rightmost_left_proof, left, "left")?;
                st.inc("exclusion_rightmost");
            }
        },
    }
    Ok(())
}

pub fn c08<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    w.run_plan(plan, r, st)?;
    for s in w.snaps.clone() {
        if s.map.is_empty() {
            continue;
        }
        let root = RootHash(root::<H>(&s.map));
        for k in probes(r, &plan.pool, &s.map, 40) {
            check_exclusion(&w, &s, root, &k, st)?;
        }
    }
    Ok(())
}
