//! C09: ICS23 proofs, judged by the independent `ics23` verifier and by a literal reading of the exported spec.
use crate::core::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use ics23::commitment_proof::Proof;
use ics23::{CommitmentProof, ExistenceProof, InnerOp, NonExistenceProof, ProofSpec};
use jmt::KeyHash;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Only SHA-256 occurs in proofs under the spec; asking for anything else is a rejected proof.
pub struct Host;
impl ics23::HostFunctionsProvider for Host {
    fn sha2_256(m: &[u8]) -> [u8; 32] {
        Sha256::digest(m).into()
    }
    fn sha2_512(_: &[u8]) -> [u8; 64] {
        [0; 64]
    }
    fn sha2_512_truncated(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
    fn keccak_256(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
    fn ripemd160(_: &[u8]) -> [u8; 20] {
        [0; 20]
    }
    fn blake2b_512(_: &[u8]) -> [u8; 64] {
        [0; 64]
    }
    fn blake2s_256(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
    fn blake3(_: &[u8]) -> [u8; 32] {
        [0; 32]
    }
}

fn kh(p: &[u8]) -> KeyHash {
    KeyHash(Sha256::digest(p).into())
}

/// Preimages whose SHA-256 hashes share long prefixes, found by collision search beforehand: (shared bits, a, b).
const MINED: &[(usize, &str, &str)] = &[
    (32, "f7bad9490000000000", "85df31060000000000"),
    (40, "81818335c300000000", "57f6bd605200000000"),
    (48, "e3f5811b6309000000", "4aaed471768a000000"),
    (55, "5006437fcecd800000", "60aceb265027a00000"),
    (56, "43a8eaf5d61d020000", "a136916663b8b90000"),
    (60, "0ba051910035e72000", "9304e9838092dac000"),
    (63, "9e745c15cc6458a000", "32348e26393304e200"),
    (65, "36d213e191f51fce00", "c2db347cfce9bed600"),
];
/// index in MINED of the pair of the known finding
const DEEP: usize = 7;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Many preimages sorted by hash: neighbours share up to ~34 bits.
fn sorted_preimages() -> &'static Vec<(KeyHash, Vec<u8>)> {
    static S: OnceLock<Vec<(KeyHash, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<(KeyHash, Vec<u8>)> = (0u32..1 << 17)
            .map(|i| {
                let p = i.to_be_bytes()[1..].to_vec();
                (kh(&p), p)
            })
            .collect();
        v.sort();
        v
    })
}

fn gen_preimages(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let s = sorted_preimages();
    let mut out: Vec<Vec<u8>> = vec![];
    let style = r.below(4);
    while out.len() < n {
        match if r.chance(60) { style } else { r.below(4) } {
            0 => {
                // a run of neighbours in key order
                let i = r.below(s.len() - 8);
                for e in &s[i..i + r.range(2, 6)] {
                    out.push(e.1.clone());
                }
            }
            1 => {
                let m = r.pick(MINED);
                out.push(unhex(m.1));
                out.push(unhex(m.2));
            }
            2 => out.push(s[r.below(s.len())].1.clone()),
            _ => {
                let l = r.range(1, 40);
                out.push(r.vec(l));
            }
        }
    }
    out.truncate(n.max(2));
    out.sort();
    out.dedup();
    r.shuffle(&mut out);
    out
}

/// The exported spec read literally (ICS-23 text), including the depth limit.
pub fn conforms(e: &ExistenceProof, spec: &ProofSpec) -> Result<(), String> {
    let (Some(leaf), Some(ls), Some(is)) = (&e.leaf, &spec.leaf_spec, &spec.inner_spec) else { return Err("missing leaf op or spec".into()) };
    if leaf.hash != ls.hash || leaf.prehash_key != ls.prehash_key || leaf.prehash_value != ls.prehash_value || leaf.length != ls.length || leaf.prefix != ls.prefix {
        return Err("leaf op differs from the spec's".into());
    }
    for (i, op) in e.path.iter().enumerate() {
        if op.hash != is.hash {
            return Err(format!("inner op {i}: hash op"));
        }
        if op.prefix.starts_with(&ls.prefix) {
            return Err(format!("inner op {i}: leaf prefix"));
        }
        let (p, cs) = (op.prefix.len() as i32, is.child_size);
        let max = is.max_prefix_length + (is.child_order.len() as i32 - 1) * cs;
        if p < is.min_prefix_length || p > max || op.suffix.len() as i32 % cs != 0 {
            return Err(format!("inner op {i}: prefix or suffix length"));
        }
        // both children must be accounted for
        let total = p + op.suffix.len() as i32 + cs;
        if total < is.min_prefix_length + 2 * cs || total > is.max_prefix_length + 2 * cs {
            return Err(format!("inner op {i}: not exactly two children"));
        }
    }
    if spec.max_depth > 0 && e.path.len() > spec.max_depth as usize {
        return Err(format!("{} inner ops, the spec allows {}", e.path.len(), spec.max_depth));
    }
    if spec.min_depth > 0 && e.path.len() < spec.min_depth as usize {
        return Err("too few inner ops".into());
    }
    Ok(())
}

/// A panic inside the third-party verifier on a tampered proof is not an acceptance (and not jmt's).
fn member(p: &CommitmentProof, spec: &ProofSpec, root: &H32, k: &[u8], v: &[u8]) -> bool {
    catch(|| ics23::verify_membership::<Host>(p, spec, &root.to_vec(), k, v)).unwrap_or(false)
}
fn nonmember(p: &CommitmentProof, spec: &ProofSpec, root: &H32, k: &[u8]) -> bool {
    catch(|| ics23::verify_non_membership::<Host>(p, spec, &root.to_vec(), k)).unwrap_or(false)
}
fn exist(e: ExistenceProof) -> CommitmentProof {
    CommitmentProof { proof: Some(Proof::Exist(e)) }
}
fn nonexist(key: &[u8], left: Option<ExistenceProof>, right: Option<ExistenceProof>) -> CommitmentProof {
    CommitmentProof { proof: Some(Proof::Nonexist(NonExistenceProof { key: key.to_vec(), left, right })) }
}

fn mutate_exist(r: &mut Rng, e: &mut ExistenceProof, donors: &[ExistenceProof]) {
    let n = e.path.len();
    match r.below(12) {
        0 if n > 0 => {
            e.path.remove(r.below(n));
        }
        1 if n > 0 => {
            let i = r.below(n);
            let o: InnerOp = e.path[i].clone();
            e.path.insert(r.below(n + 1), o);
        }
        2 if n > 1 => {
            let (i, j) = (r.below(n), r.below(n));
            e.path.swap(i, j);
        }
        3 if n > 0 => {
            // put the sibling on the other side
            let o = &mut e.path[r.below(n)];
            if o.suffix.is_empty() && o.prefix.len() >= 32 {
                o.suffix = o.prefix.split_off(o.prefix.len() - 32);
            } else if o.suffix.len() == 32 {
                let s = std::mem::take(&mut o.suffix);
                o.prefix.extend(s);
            }
        }
        4 if n > 0 => {
            let o = &mut e.path[r.below(n)];
            let buf = if r.chance(50) { &mut o.prefix } else { &mut o.suffix };
            if !buf.is_empty() {
                let i = r.below(buf.len());
                buf[i] ^= 1 << r.below(8);
            }
        }
        5 if n > 0 => {
            let o = &mut e.path[r.below(n)];
            let l = o.prefix.len();
            if o.suffix.is_empty() && l >= 32 {
                o.prefix.truncate(l - 32);
                o.prefix.extend(PLACEHOLDER);
            } else {
                o.suffix = PLACEHOLDER.to_vec();
            }
        }
        6 if !donors.is_empty() => {
            let d = r.pick(donors);
            e.path = d.path.clone();
        }
        7 if !donors.is_empty() => {
            let d = r.pick(donors);
            let c = r.below(d.path.len() + 1);
            let k = r.below(n + 1);
            e.path.truncate(k);
            e.path.extend(d.path[c..].iter().cloned());
        }
        8 if !donors.is_empty() => {
            let d = r.pick(donors);
            e.key = d.key.clone();
            if r.chance(50) {
                e.value = d.value.clone();
            }
        }
        9 => {
            if let Some(l) = &mut e.leaf {
                match r.below(4) {
                    0 => l.prefix.extend(r.bytes32()),
                    1 => l.prehash_key = 0,
                    2 => l.prehash_value = 0,
                    _ => l.length = 1 + r.below(8) as i32,
                }
            }
        }
        10 if n > 0 => {
            e.path.truncate(r.below(n));
        }
        _ => {
            // the first inner op dressed up as part of the leaf, or a root-level shortcut
            if n > 0 {
                let o = e.path.remove(0);
                if let Some(l) = &mut e.leaf {
                    l.prefix = o.prefix;
                }
            }
        }
    }
}

pub fn c09(cx: &mut Cx) -> R<()> {
    let mut cfg = Cfg::std();
    cfg.nonempty_values = true;
    let r = &mut cx.rng;
    if r.chance(15) {
        cfg.pool = (30, 90);
        cfg.ops = (10, 60);
    }
    cfg.versions = (1, 5);
    let np = r.range(cfg.pool.0, cfg.pool.1);
    let mut pre = gen_preimages(r, np);
    let with_deep = cx.idx < 2;
    if with_deep {
        // the deepest mined pairs are in every run
        for m in &MINED[MINED.len() - 2..] {
            pre.push(unhex(m.1));
            pre.push(unhex(m.2));
        }
        pre.sort();
        pre.dedup();
    }
    let pool: Vec<KeyHash> = pre.iter().map(|p| kh(p)).collect();
    let names: BTreeMap<KeyHash, Vec<u8>> = pre.iter().map(|p| (kh(p), p.clone())).collect();
    let start = gen_start(r);
    let nv = r.range(cfg.versions.0, cfg.versions.1);
    let (mut sets, mut cur, mut ctr) = (vec![], Map::new(), 0);
    for i in 0..nv {
        let mut s = gen_set(r, &cfg, &pool, &cur, &mut ctr);
        if i == 0 && (with_deep || r.chance(75)) {
            for k in &pool {
                if with_deep || r.chance(60) {
                    s.push((*k, Some(vec![r.u64() as u8, 1])));
                }
            }
        }
        cur = apply(&cur, &s);
        sets.push(s);
    }
    let plan = Plan { start, pool, sets, pre: None, mock: None };
    cx.plan(&plan);
    cx.note(&format!("preimages: {}", names.iter().map(|(k, p)| format!("{}={}", hx(&k.0[..4]), hx(p))).collect::<Vec<_>>().join(" ")));
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<Sha256>::new(plan.start);
    w.store.s.borrow_mut().preimages.extend(names.iter().map(|(k, p)| (*k, p.clone())));
    w.run_plan(plan, r, st)?;
    let spec = jmt::ics23_spec();
    let roots: Vec<H32> = w.snaps.iter().map(|s| root::<Sha256>(&s.map)).collect();
    let mut known = None;
    for (vi, s) in w.snaps.clone().iter().enumerate() {
        if s.map.is_empty() {
            st.inc("empty_versions_skipped");
            continue;
        }
        let rt = roots[vi];
        let present: Vec<&KeyHash> = s.map.keys().collect();
        let mut asks: Vec<Vec<u8>> = vec![];
        let n_ask = if with_deep { pre.len() } else { 10 };
        for _ in 0..n_ask {
            asks.push(r.pick(&pre).clone());
        }
        if with_deep {
            asks.extend(pre.iter().cloned());
        }
        // preimages next to a present key in hash order
        let sp = sorted_preimages();
        for _ in 0..4 {
            let i = sp.partition_point(|e| e.0 < **r.pick(&present));
            asks.push(sp[(i + r.below(3)).saturating_sub(1).min(sp.len() - 1)].1.clone());
        }
        asks.push(r.vec(5));
        asks.push(sp[0].1.clone());
        asks.push(sp[sp.len() - 1].1.clone());
        asks.sort();
        asks.dedup();
        let mut honest: Vec<(KeyHash, ExistenceProof)> = vec![];
        let mut claims: Vec<(Vec<u8>, CommitmentProof)> = vec![];
        for key in asks {
            let h = kh(&key);
            let want = s.map.get(&h);
            let what = || format!("get_with_ics23_proof({}) at version {} ({} entries)", hx(&key), s.version, s.map.len());
            let (val, proof) = must(what, || w.tree().get_with_ics23_proof(key.clone(), s.version))?;
            chk!(val.as_ref() == want, "{}: value {:?}, expected {:?}", what(), val, want);
            // conformance of every part, and the neighbours named
            let mut too_deep = false;
            let mut parts = |e: &ExistenceProof, role: &str, k: &KeyHash, v: &Vec<u8>, too_deep: &mut bool| -> R<()> {
                chk!(Some(&e.key) == names.get(k), "{}: {role} part names key {}, expected the preimage of {}", what(), hx(&e.key), hx(&k.0));
                chk!(&e.value == v, "{}: {role} part carries a wrong value", what());
                if let Err(m) = conforms(e, &spec) {
                    let d = &MINED[DEEP];
                    let is_deep = e.path.len() == 66 && [kh(&unhex(d.1)), kh(&unhex(d.2))].iter().all(|x| s.map.contains_key(x));
                    if is_deep && spec.max_depth == 64 && (*k == kh(&unhex(d.1)) || *k == kh(&unhex(d.2))) {
                        known = Some(("ics23-depth-66", format!("honest ICS23 proof of key {} has {m}", hx(&e.key))));
                        *too_deep = true;
                    } else {
                        vio!("{}: {role} part does not conform to the exported spec: {m}", what());
                    }
                }
                st.peak("ics23_path_length", e.path.len() as u64);
                honest.push((*k, e.clone()));
                Ok(())
            };
            match (&proof.proof, want) {
                (Some(Proof::Exist(e)), Some(v)) => {
                    parts(e, "membership", &h, v, &mut too_deep)?;
                    chk!(e.key == key, "{}: proof is for another key", what());
                }
                (Some(Proof::Nonexist(ne)), None) => {
                    chk!(ne.key == key, "{}: proof is for another key", what());
                    let l = s.map.range(..h).next_back();
                    let rr = s.map.range(h..).next();
                    chk!(ne.left.is_some() == l.is_some() && ne.right.is_some() == rr.is_some(), "{}: wrong sides", what());
                    if let (Some(e), Some((k, v))) = (&ne.left, l) {
                        parts(e, "left", k, v, &mut too_deep)?;
                    }
                    if let (Some(e), Some((k, v))) = (&ne.right, rr) {
                        parts(e, "right", k, v, &mut too_deep)?;
                    }
                    st.inc(match (l.is_some(), rr.is_some()) {
                        (true, true) => "nonmembership_middle",
                        (true, false) => "nonmembership_rightmost",
                        _ => "nonmembership_leftmost",
                    });
                }
                (p, _) => vio!("{}: proof {:?} does not fit the answer", what(), p.is_some()),
            }
            // the known finding excuses the depth limit only
            let sp = if too_deep { ProofSpec { max_depth: 256, ..spec.clone() } } else { spec.clone() };
            match want {
                Some(v) => {
                    chk!(member(&proof, &sp, &rt, &key, v), "{}: membership proof does not verify", what());
                    st.inc("membership_verified");
                }
                None => {
                    chk!(nonmember(&proof, &sp, &rt, &key), "{}: non-membership proof does not verify", what());
                    st.inc("nonmembership_verified");
                }
            }
            claims.push((key, proof));
        }
        // the negative direction: every claim that is false, with every proof at hand
        let truth = |root_i: usize, k: &[u8], v: Option<&[u8]>| -> bool {
            w.snaps.iter().zip(&roots).any(|(s, rt)| *rt == roots[root_i] && s.map.get(&kh(k)).map(|x| x.as_slice()) == v)
        };
        let judge = |p: &CommitmentProof, ri: usize, k: &[u8], v: Option<&[u8]>, what: &str| -> R<bool> {
            let ok = match v {
                Some(v) => member(p, &spec, &roots[ri], k, v),
                None => nonmember(p, &spec, &roots[ri], k),
            };
            chk!(
                !ok || truth(ri, k, v),
                "{what}: a proof was accepted for the false claim {} = {:?} at version {}: {p:?}",
                hx(k),
                v.map(short),
                w.snaps[ri].version
            );
            Ok(ok)
        };
        let donors: Vec<ExistenceProof> = honest.iter().map(|x| x.1.clone()).collect();
        for (key, proof) in &claims {
            let other = claims[r.below(claims.len())].0.clone();
            let ri = r.below(roots.len());
            let vals: Vec<Vec<u8>> = vec![vec![], vec![1], s.map.get(&kh(key)).cloned().unwrap_or(vec![9]), r.vec(3)];
            for k in [key, &other] {
                for root_i in [vi, ri] {
                    judge(proof, root_i, k, None, "honest proof reused")?;
                    for v in &vals {
                        judge(proof, root_i, k, Some(v), "honest proof reused")?;
                    }
                    st.add("claims_judged", 5);
                }
            }
            // the opposite claim outright
            let mut bad_root = rt;
            bad_root[r.below(32)] ^= 1 << r.below(8);
            chk!(!nonmember(proof, &spec, &bad_root, key) && !vals.iter().any(|v| member(proof, &spec, &bad_root, key, v)), "accepted under a wrong root");
        }
        for _ in 0..if cx.thorough { 60 } else { 25 } {
            // recombined and mutated proofs for a present or absent key
            let (key, proof) = r.pick(&claims).clone();
            let pick = |r: &mut Rng| -> Option<ExistenceProof> {
                if r.chance(20) {
                    None
                } else {
                    Some(r.pick(&donors).clone())
                }
            };
            let mut p = match (&proof.proof, r.below(4)) {
                (Some(Proof::Exist(e)), 0) => exist(e.clone()),
                (Some(Proof::Nonexist(n)), 0) => nonexist(&n.key, n.left.clone(), n.right.clone()),
                (_, 1) => exist(r.pick(&donors).clone()),
                (Some(Proof::Nonexist(n)), 2) => {
                    if r.chance(50) {
                        nonexist(&key, pick(r), n.right.clone())
                    } else {
                        nonexist(&key, n.left.clone(), pick(r))
                    }
                }
                _ => nonexist(&key, pick(r), pick(r)),
            };
            if r.chance(70) {
                match p.proof.as_mut().unwrap() {
                    Proof::Exist(e) => mutate_exist(r, e, &donors),
                    Proof::Nonexist(n) => {
                        if let Some(e) = if r.chance(50) { n.left.as_mut() } else { n.right.as_mut() } {
                            mutate_exist(r, e, &donors)
                        }
                        if r.chance(10) {
                            std::mem::swap(&mut n.left, &mut n.right);
                        }
                    }
                    _ => {}
                }
            }
            let mut tv: Vec<Vec<u8>> = vec![vec![1]];
            let mut ks = vec![key.clone()];
            if let Some(Proof::Exist(e)) = &p.proof {
                tv.push(e.value.clone());
                ks.push(e.key.clone());
            }
            let mut acc = judge(&p, vi, &key, None, "tampered proof")?;
            for k in &ks {
                for v in &tv {
                    acc |= judge(&p, vi, k, Some(v), "tampered proof")?;
                }
            }
            st.inc(if acc { "tampered_still_true" } else { "tampered_rejected" });
        }
        // for present keys: absence argued from their real neighbours
        for k in present.iter().take(6) {
            let Some(name) = names.get(k) else { continue };
            let get = |k: &KeyHash| -> R<Option<ExistenceProof>> {
                let n = names[k].clone();
                match must(|| "get_with_ics23_proof".into(), || w.tree().get_with_ics23_proof(n, s.version))?.1.proof {
                    Some(Proof::Exist(e)) => Ok(Some(e)),
                    _ => vio!("no membership proof for a present key"),
                }
            };
            let l = match s.map.range(..**k).next_back() {
                Some((k, _)) => get(k)?,
                None => None,
            };
            let rr = match s.map.range(**k..).nth(1) {
                Some((k, _)) => get(k)?,
                None => None,
            };
            let me = get(k)?;
            for (a, b) in [(l.clone(), rr.clone()), (l.clone(), None), (None, rr.clone()), (l, me.clone()), (me, rr), (None, None)] {
                let p = nonexist(name, a, b);
                chk!(!nonmember(&p, &spec, &rt, name), "absence of the present key {} was accepted at version {}: {p:?}", hx(name), s.version);
                st.inc("absence_of_present_rejected");
            }
        }
    }
    if let Some((id, text)) = known {
        cx.known.insert(id, text);
    }
    Ok(())
}
