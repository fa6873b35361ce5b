//! C01 snapshot reads, C02 canonical roots.
use crate::core::*;
use crate::gen::*;
use crate::spec::*;
use crate::world::*;
use jmt::{RootHash, SimpleHasher};

/// Every probe at one version agrees with the model, through both read paths.
pub fn check_reads<H: SimpleHasher>(w: &World<H>, s: &Snap, keys: &[jmt::KeyHash], st: &mut Stats, ctx: &str) -> R<()> {
    let t = w.tree();
    for k in keys {
        let want = s.map.get(k);
        let what = || format!("{ctx}: get({}) at version {}", hx(&k.0), s.version);
        let got = must(what, || t.get(*k, s.version))?;
        chk!(
            got.as_ref() == want,
            "{}: got {:?}, model {:?}",
            what(),
            got.map(|v| short(&v)),
            want.map(|v| short(v))
        );
        let what = || format!("{ctx}: get_with_proof({}) at version {}", hx(&k.0), s.version);
        let (got, _) = must(what, || t.get_with_proof(*k, s.version))?;
        chk!(
            got.as_ref() == want,
            "{}: got {:?}, model {:?}",
            what(),
            got.map(|v| short(&v)),
            want.map(|v| short(v))
        );
        st.inc(if want.is_some() { "reads_present" } else { "reads_absent" });
    }
    Ok(())
}

pub fn c01<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::to_the_end(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        w.commit(sets, e)?;
        count_ops(sets, e, st);
        // the versions just written, and one earlier version again
        let n = w.snaps.len();
        let mut idx: Vec<usize> = (n - sets.len()..n).collect();
        idx.push(r.below(n));
        for i in idx {
            let s = w.snaps[i].clone();
            let keys = probes(r, &plan.pool, &s.map, 16);
            check_reads(&w, &s, &keys, st, "after commit")?;
        }
    }
    // at the end: every version, including keys of later versions
    for s in w.snaps.clone() {
        let keys = probes(r, &plan.pool, &s.map, 40);
        check_reads(&w, &s, &keys, st, "at end")?;
        let rh = must(
            || format!("get_root_hash({})", s.version),
            || w.tree().get_root_hash(s.version),
        )?;
        chk!(
            rh == s.root,
            "root of version {} changed after it was written: {:?} then {:?}",
            s.version,
            s.root,
            rh
        );
        st.inc("versions_read_back");
    }
    Ok(())
}

pub fn c02<H: SimpleHasher>(cx: &mut Cx) -> R<()> {
    let cfg = Cfg::varied_pre(&mut cx.rng, cx.thorough);
    let plan = gen_plan(&mut cx.rng, &cfg);
    cx.plan(&plan);
    let (r, st, plan) = (&mut cx.rng, &mut cx.stats, &plan);
    let mut w = World::<H>::of(plan, st)?;
    for g in groups(plan, r) {
        let sets = &plan.sets[g.0..g.1];
        let e = w.choose(sets, r);
        w.commit(sets, e)?;
        count_ops(sets, e, st);
        for s in &w.snaps[g.0..g.1] {
            let want = RootHash(root::<H>(&s.map));
            chk!(
                s.root == want,
                "reported root of version {} is {:?}, the map's root is {:?} ({} entries, via {:?})",
                s.version,
                s.root,
                want,
                s.map.len(),
                e
            );
            st.inc("roots_compared");
        }
    }
    for s in &w.snaps {
        let want = RootHash(root::<H>(&s.map));
        let got = must(
            || format!("get_root_hash({})", s.version),
            || w.tree().get_root_hash(s.version),
        )?;
        chk!(
            got == want,
            "root read back for version {} is {:?}, the map's root is {:?}",
            s.version,
            got,
            want
        );
        let got = must(
            || format!("get_root_hash_option({})", s.version),
            || w.tree().get_root_hash_option(s.version),
        )?;
        chk!(
            got == Some(want),
            "optional root read back for version {} is {:?}, the map's root is {:?}",
            s.version,
            got,
            want
        );
        st.inc("roots_compared");
    }
    // rebuild the final map in other ways
    let m = w.cur();
    let want = RootHash(root::<H>(&m));
    let mut ops: Vec<Op> = m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    for round in 0..3 {
        r.shuffle(&mut ops);
        let mut w2 = World::<H>::new(0);
        if round == 0 {
            let e = if !ops.is_empty() && r.chance(50) {
                Entry::Batch
            } else {
                Entry::Plain
            };
            w2.commit(&[ops.clone()], e)?;
        } else {
            // split over versions, with extra keys inserted and removed again
            let mut i = 0;
            let mut extra: Vec<jmt::KeyHash> = vec![];
            while i < ops.len() {
                let n = r.range(1, ops.len() - i);
                let mut set: Vec<Op> = ops[i..i + n].to_vec();
                i += n;
                if round == 2 {
                    for _ in 0..r.below(3) {
                        let style = r.below(6);
                        let k = new_key(r, &plan.pool, style);
                        if !m.contains_key(&k) {
                            set.push((k, Some(vec![1])));
                            extra.push(k);
                        }
                    }
                    r.shuffle(&mut set);
                }
                w2.commit(&[set], if r.chance(20) { Entry::Proof } else { Entry::Plain })?;
            }
            if !extra.is_empty() || ops.is_empty() {
                w2.commit(&[extra.iter().map(|k| (*k, None)).collect()], Entry::Plain)?;
            }
        }
        chk!(
            w2.cur_root() == want,
            "the same {} entries built in another way (round {round}) give root {:?}, expected {:?}",
            m.len(),
            w2.cur_root(),
            want
        );
        st.inc("rebuilds_compared");
    }
    // in place: part of it, then the rest appended to the same version
    if ops.len() > 1 && r.chance(50) {
        r.shuffle(&mut ops);
        let n = r.range(1, ops.len() - 1);
        let mut w2 = World::<H>::new(gen_start(r).max(1));
        w2.commit(&[ops[..n].to_vec()], Entry::Plain)?;
        let v = w2.start;
        let (got, b) = must(|| format!("appending {} entries to {n}", ops.len() - n), || w2.tree().append_value_set(ops[n..].to_vec(), v))?;
        w2.store.apply(&b)?;
        let back = must(|| format!("get_root_hash({v})"), || w2.tree().get_root_hash(v))?;
        chk!(got == want && back == want, "{n} entries and {} appended in place give root {got:?}, stored {back:?}, expected {want:?}", ops.len() - n);
        st.inc("appended_roots_compared");
    }
    // restored from chunks, perhaps updated afterwards
    if r.chance(50) {
        let mut w2 = World::<H>::new(gen_start(r).max(1));
        let v = w2.start - 1;
        restore_into::<H>(&w2.store.clone(), v, &m, r)?;
        let got = must(|| format!("get_root_hash({v})"), || w2.tree().get_root_hash(v))?;
        chk!(got == want, "{} restored entries give root {got:?}, expected {want:?}", m.len());
        w2.base = m.clone();
        let mut ctr = 1u64 << 44;
        let set = gen_set(r, &cfg, &plan.pool, &m, &mut ctr);
        let next = RootHash(root::<H>(&apply(&m, &set)));
        w2.commit(&[set], Entry::Plain)?;
        chk!(w2.cur_root() == next, "an update of a restored tree gives root {:?}, expected {next:?}", w2.cur_root());
        st.inc("restored_roots_compared");
    }
    Ok(())
}
