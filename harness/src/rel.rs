//! Runtime check of the subscription index against a set of pairs (C03).
use super::relational_map::RelationalMap;
use cdn_proto::verif_common::{Case, Check};
use cdn_proto::vx_check;
use std::collections::BTreeSet;

pub fn c03(c: &mut Case) -> Check {
    let mut m: RelationalMap<u8, u8> = RelationalMap::new();
    let mut p: BTreeSet<(u8, u8)> = BTreeSet::new();
    let (nk, nv) = (c.rng.range(1, 4), c.rng.range(1, 4));
    for _ in 0..c.rng.range(3, 30) {
        let k = c.rng.below(nk) as u8;
        let len = c.rng.below(5);
        let vs: Vec<u8> = (0..len).map(|_| c.rng.below(nv) as u8).collect();
        match c.rng.below(5) {
            0 | 1 => { c.note(format!("associate({k}, {vs:?})")); m.associate_key_with_values(&k, vs.clone()); for v in vs { p.insert((k, v)); } }
            2 | 3 => { c.note(format!("dissociate({k}, {vs:?})")); m.dissociate_keys_from_value(&k, &vs); for v in vs { p.remove(&(k, v)); } }
            _ => { c.note(format!("remove({k})")); m.remove_key(&k); p.retain(|x| x.0 != k); }
        }
        for v in 0..nv as u8 + 1 {
            let mut got = m.get_keys_by_value(&v);
            got.sort();
            let want: Vec<u8> = p.iter().filter(|x| x.1 == v).map(|x| x.0).collect();
            vx_check!(got == want, "subscribers of {v} are listed as {got:?}, the contract requires {want:?}");
        }
        let mut got = m.get_values();
        got.sort();
        let want: Vec<u8> = p.iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
        vx_check!(got == want, "the topics are listed as {got:?}, the contract requires {want:?}");
    }
    // both directions agree: removing every subscriber leaves nothing listed
    for k in 0..nk as u8 { m.remove_key(&k); p.retain(|x| x.0 != k);
        let mut got = m.get_values(); got.sort();
        let want: Vec<u8> = p.iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
        vx_check!(got == want, "after removing subscriber {k} the topics are {got:?}, the contract requires {want:?}");
    }
    Ok(())
}
/// many pairs at once
fn large(c: &mut Case) -> Check {
    let mut m: RelationalMap<u16, u16> = RelationalMap::new();
    let mut p: BTreeSet<(u16, u16)> = BTreeSet::new();
    let (nk, nv) = (*c.rng.pick(&[3u16, 300, 700]), *c.rng.pick(&[3u16, 300]));
    c.note(format!("{nk} keys, {nv} values"));
    for _ in 0..6 {
        let all = c.rng.flip();
        for k in 0..nk {
            if !all && c.rng.one_in(2) { continue; }
            let mut vs: Vec<u16> = (0..nv).collect();
            c.rng.shuffle(&mut vs);
            let n = if c.rng.one_in(8) || nk < 10 { nv as usize } else { c.rng.below(4) };
            vs.truncate(n);
            match c.rng.below(5) {
                0..=2 => { m.associate_key_with_values(&k, vs.clone()); for v in vs { p.insert((k, v)); } }
                3 => { m.dissociate_keys_from_value(&k, &vs); for v in vs { p.remove(&(k, v)); } }
                _ => if nk < 10 || c.rng.one_in(9) { m.remove_key(&k); p.retain(|x| x.0 != k); }
            }
        }
        let mut got = m.get_values();
        got.sort();
        let want: Vec<u16> = p.iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
        vx_check!(got == want, "{} topics are listed, the contract requires {}", got.len(), want.len());
        let mut inv: std::collections::BTreeMap<u16, Vec<u16>> = Default::default();
        for x in &p { inv.entry(x.1).or_default().push(x.0); }
        for v in 0..nv + 1 {
            let mut got = m.get_keys_by_value(&v);
            got.sort();
            let want = inv.remove(&v).unwrap_or_default();
            vx_check!(got == want, "of {v}, {} subscribers are listed, the contract requires {}", got.len(), want.len());
        }
    }
    Ok(())
}
pub fn props() -> Vec<cdn_proto::verif_common::Prop> { vec![cdn_proto::verif_common::Prop { id: "C03", name: "large index", quick: 8, run: large }, cdn_proto::verif_common::Prop { id: "C03", name: "index", quick: 30_000, run: c03 }] }
