//! Runtime check of the contracts of VersionedMap against an independent reference (C01, C02).
use super::{VersionedMap, VersionedValue};
use cdn_proto::verif_common::{Case, Check};
use cdn_proto::vx_check;
use std::collections::{BTreeMap, BTreeSet};

type M = VersionedMap<u8, u16, u32>;

pub fn entries(m: &M) -> BTreeMap<u8, (u64, Option<u16>)> { m.underlying_map.iter().map(|(k, v)| (*k, (v.version, v.value))).collect() }
pub type Entries<K, V> = BTreeMap<K, (u64, Option<V>)>;
pub fn raw<K: std::hash::Hash + Eq + Ord + Clone + std::fmt::Debug, V: PartialEq + Clone + std::fmt::Debug, I: PartialOrd>(m: &VersionedMap<K, V, I>) -> Entries<K, V> where { m.underlying_map.iter().map(|(k, v)| (k.clone(), (v.version, v.value.clone()))).collect() }
pub fn put<K: std::hash::Hash + Eq + Clone + std::fmt::Debug, V: PartialEq + Clone + std::fmt::Debug, I: PartialOrd>(m: &mut VersionedMap<K, V, I>, k: K, version: u64, value: Option<V>) { m.underlying_map.insert(k, VersionedValue { value, version }); }
pub fn identity<K: std::hash::Hash + Eq + Clone + std::fmt::Debug, V: PartialEq + Clone + std::fmt::Debug, I: PartialOrd>(m: &VersionedMap<K, V, I>) -> &I { &m.conflict_identity }
pub fn dirty(m: &M) -> BTreeSet<u8> { m.locally_modified_keys.iter().copied().collect() }

/// the reference: what the contracts say
#[derive(Clone, Debug, PartialEq)]
pub struct Ref<K: Ord + Clone = u8, V: Clone + PartialEq = u16, I: Ord + Clone = u32> { pub id: I, pub e: BTreeMap<K, (u64, Option<V>)>, pub d: BTreeSet<K> }
impl<K: Ord + Clone, V: Clone + PartialEq, I: Ord + Clone> Ref<K, V, I> {
    pub fn new(id: I) -> Self { Ref { id, e: BTreeMap::new(), d: BTreeSet::new() } }
    pub fn value(&self, k: &K) -> Option<V> { self.e.get(k).and_then(|x| x.1.clone()) }
    pub fn local(&mut self, k: K, v: Option<V>) {
        match self.e.get_mut(&k) {
            Some(x) => { if !self.d.contains(&k) { x.0 += 1; } x.1 = v; }
            None => { self.e.insert(k.clone(), (1, v)); }
        }
        self.d.insert(k);
    }
    pub fn remove_if(&mut self, k: K, v: V) { if self.value(&k) == Some(v) { self.local(k, None); } }
    pub fn diff(&mut self) -> Self {
        let mut out = Self::new(self.id.clone());
        for k in std::mem::take(&mut self.d) {
            if let Some(x) = self.e.get(&k).cloned() { if x.1.is_none() { self.e.remove(&k); } out.e.insert(k, x); }
        }
        out
    }
    pub fn merge(&mut self, r: &Self) -> Vec<(K, Option<V>)> {
        let mut ch = vec![];
        for (k, (rv, val)) in &r.e {
            let win = match self.e.get(k) { Some((lv, _)) => rv > lv || (rv == lv && r.id > self.id), None => val.is_some() };
            if !win { continue; }
            if self.e.contains_key(k) { self.d.remove(k); }
            if val.is_some() { self.e.insert(k.clone(), (*rv, val.clone())); } else { self.e.remove(k); }
            ch.push((k.clone(), val.clone()));
        }
        ch
    }
}
fn same(m: &M, r: &Ref, what: &str) -> Check {
    vx_check!(entries(m) == r.e, "after {what}: the map holds {:?}, the contract requires {:?}", entries(m), r.e);
    vx_check!(dirty(m) == r.d, "after {what}: pending-change marks are {:?}, the contract requires {:?}", dirty(m), r.d);
    vx_check!(m.conflict_identity == r.id, "after {what}: the identity changed to {}", m.conflict_identity);
    Ok(())
}

fn history(c: &mut Case, merges: bool) -> Check {
    let n = c.rng.range(2, 3);
    let ids: Vec<u32> = (0..n).map(|i| if c.rng.one_in(5) { 7 } else { i as u32 * 3 }).collect();
    let mut ms: Vec<M> = ids.iter().map(|i| M::new(*i)).collect();
    let mut rs: Vec<Ref> = ids.iter().map(|i| Ref::new(*i)).collect();
    let mut sent: Vec<(usize, M, Ref)> = vec![];
    c.note(format!("{n} maps with identities {ids:?}"));
    let keys = if c.rng.flip() { 3 } else { 6 };
    let steps = c.rng.range(4, 40);
    for _ in 0..steps {
        let i = c.rng.below(n);
        let k = c.rng.below(keys) as u8;
        let v = c.rng.below(3) as u16;
        match c.rng.below(if merges { 10 } else { 7 }) {
            0 | 1 => { c.note(format!("map{i}.insert({k}, {v})")); ms[i].insert(k, v); rs[i].local(k, Some(v)); }
            2 => { c.note(format!("map{i}.remove({k})")); ms[i].remove(k); rs[i].local(k, None); }
            3 => { c.note(format!("map{i}.remove_if_equals({k}, {v})")); ms[i].remove_if_equals(k, v); if rs[i].e.get(&k).map_or(false, |x| x.1 == Some(v)) { rs[i].local(k, None); } }
            4 => {
                c.note(format!("map{i}.diff()"));
                let d = ms[i].diff();
                let r = rs[i].diff();
                same(&d, &r, "diff (the delta)")?;
                same(&ms[i], &rs[i], "diff (the map)")?;
                if c.rng.one_in(3) {
                    let d2 = ms[i].diff();
                    vx_check!(d2.is_empty() && entries(&d2).is_empty(), "a second delta without a change holds {:?}", entries(&d2));
                }
                sent.push((i, d, r));
            }
            5 => {
                let g = ms[i].get_full();
                let r = Ref { d: BTreeSet::new(), ..rs[i].clone() };
                same(&g, &r, "get_full")?;
                if c.rng.flip() { sent.push((i, g, r)); }
            }
            6 => {
                if c.rng.one_in(3) {
                    c.note(format!("map{i}.remove_by_value_no_modify({v})"));
                    ms[i].remove_by_value_no_modify(&v);
                    rs[i].e.retain(|_, x| x.1 != Some(v));
                } else {
                    vx_check!(ms[i].get(&k).copied() == rs[i].e.get(&k).and_then(|x| x.1), "get({k}) gives {:?}", ms[i].get(&k));
                    vx_check!(ms[i].is_empty() == rs[i].e.is_empty(), "is_empty() gives {}", ms[i].is_empty());
                }
            }
            _ => {
                let (src, m, r) = if !sent.is_empty() && c.rng.flip() { let j = c.rng.below(sent.len()); let (s, m, r) = &sent[j]; (*s, m.clone(), r.clone()) }
                    else { let j = c.rng.below(n); (j, ms[j].clone(), rs[j].clone()) };
                c.note(format!("map{i}.merge({:?} of identity {} (map{src}))", r.e, r.id));
                let mut got = ms[i].merge(m);
                let mut want = rs[i].merge(&r);
                got.sort();
                want.sort();
                vx_check!(got == want, "merge reported the changes {got:?}, the contract requires {want:?}");
            }
        }
        same(&ms[i], &rs[i], "the operation")?;
    }
    Ok(())
}
pub fn c01(c: &mut Case) -> Check { history(c, true) }
pub fn c02(c: &mut Case) -> Check { let m = c.rng.flip(); history(c, m) }
/// many keys, and versions far apart
fn large(c: &mut Case) -> Check {
    type L = VersionedMap<u32, u16, u32>;
    let n = *c.rng.pick(&[100u32, 600, 3000]);
    let (mut m, mut r): (L, Ref<u32, u16, u32>) = (L::new(1), Ref::new(1));
    c.note(format!("{n} keys"));
    let ok = |m: &L, r: &Ref<u32, u16, u32>, what: &str| -> Check {
        let (e, d): (Entries<u32, u16>, BTreeSet<u32>) = (raw(m), m.locally_modified_keys.iter().copied().collect());
        for k in 0..n + 10 { vx_check!(e.get(&k) == r.e.get(&k), "after {what}: key {k} of {n} holds {:?}, the contract requires {:?}", e.get(&k), r.e.get(&k)); }
        vx_check!(e.len() == r.e.len(), "after {what}: {} records", e.len());
        vx_check!(d == r.d, "after {what}: {} pending-change marks, the contract requires {}", d.len(), r.d.len());
        Ok(())
    };
    for k in 0..n { let v = c.rng.below(5) as u16; m.insert(k, v); r.local(k, Some(v)); }
    ok(&m, &r, "the insertions")?;
    if c.rng.flip() { let d = m.diff(); let e = r.diff(); ok(&d, &e, "diff (the delta)")?; ok(&m, &r, "diff (the map)")?; }
    for k in 0..n { match c.rng.below(4) { 0 => { m.remove(k); r.local(k, None); } 1 => { m.remove_if_equals(k, 3); r.remove_if(k, 3); } 2 => { m.insert(k, 4); r.local(k, Some(4)); } _ => {} } }
    ok(&m, &r, "the changes")?;
    let (mut om, mut or): (L, Ref<u32, u16, u32>) = (L::new(c.rng.below(3) as u32), Ref::new(0));
    or.id = *identity(&om);
    for k in 0..n + 10 {
        if c.rng.one_in(4) { continue; }
        let base = r.e.get(&k).map_or(0, |x| x.0);
        let ver = *c.rng.pick(&[base, base + 1, base.saturating_sub(1), base + (1 << 8), base + (1 << 16), 1 << 32, (1 << 32) + base, 1 << 63, u64::MAX - 1]);
        let val = if c.rng.one_in(4) { None } else { Some(c.rng.below(5) as u16) };
        put(&mut om, k, ver, val);
        or.e.insert(k, (ver, val));
    }
    let mut got = m.merge(om);
    let mut want = r.merge(&or);
    got.sort();
    want.sort();
    for (g, w) in got.iter().zip(&want) { vx_check!(g == w, "merge reported the change {g:?}, the contract requires {w:?} (ours was a map of {n} keys, theirs says {:?})", or.e.get(&w.0)); }
    vx_check!(got.len() == want.len(), "merge reported {} changes, the contract requires {}", got.len(), want.len());
    ok(&m, &r, "the merge")?;
    let d = m.diff();
    let e = r.diff();
    ok(&d, &e, "the last diff (the delta)")?;
    ok(&m, &r, "the last diff (the map)")
}
pub fn props() -> Vec<cdn_proto::verif_common::Prop> {
    use cdn_proto::verif_common::Prop;
    vec![
        Prop { id: "C01", name: "merge", quick: 30_000, run: c01 },
        Prop { id: "C01", name: "merge, large maps", quick: 20, run: large },
        Prop { id: "C02", name: "local changes, large maps", quick: 20, run: large },
        Prop { id: "C02", name: "local changes", quick: 30_000, run: c02 },
    ]
}
