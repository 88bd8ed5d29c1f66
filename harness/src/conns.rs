//! Runtime check of the contracts of the broker's tables against an independent reference (C06, C07, C08).
use super::{versioned_map::verif_vm::{self as vm, Ref}, Connections, DirectMap, SubscriptionStatus, TopicSyncMap};
use cdn_proto::verif_common::{block, settle, Case, Check};
use cdn_proto::verif_conn::{self as conn, Far};
use cdn_proto::{connection::{protocols::Connection, UserPublicKey}, discovery::BrokerIdentifier, message::Topic, vx_check};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use tokio::task::AbortHandle;

pub type Key = Vec<u8>;
pub fn upk(k: &Key) -> UserPublicKey { Arc::new(k.clone()) }
pub fn bid(n: usize) -> BrokerIdentifier { BrokerIdentifier::try_from(format!("b{n}/p{n}")).unwrap() }
pub fn task() -> AbortHandle { tokio::spawn(std::future::pending::<()>()).abort_handle() }

/// What can be observed of the tables.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Dump {
    pub users: BTreeMap<Key, usize>,
    pub brokers: BTreeMap<BrokerIdentifier, usize>,
    pub bmaps: BTreeMap<BrokerIdentifier, BTreeMap<Topic, (u64, Option<bool>)>>,
    pub utop: BTreeSet<(Key, Topic)>,
    pub btop: BTreeSet<(BrokerIdentifier, Topic)>,
    pub dm: BTreeMap<Key, (u64, Option<BrokerIdentifier>)>,
    pub tsm: BTreeMap<Topic, (u64, Option<bool>)>,
}
pub fn dm_entries(m: &DirectMap) -> BTreeMap<Key, (u64, Option<BrokerIdentifier>)> { vm::raw(m).into_iter().map(|(k, v)| (k.to_vec(), v)).collect() }
pub fn tsm_entries(m: &TopicSyncMap) -> BTreeMap<Topic, (u64, Option<bool>)> { vm::raw(m).into_iter().map(|(k, v)| (k, (v.0, v.1.map(|s| s == SubscriptionStatus::Subscribed)))).collect() }
pub fn dump(c: &Connections) -> Dump {
    let mut d = Dump::default();
    for u in c.all_users() { if let Some(x) = c.get_user_connection(&u) { d.users.insert(u.to_vec(), conn::id(&x)); } }
    for b in c.all_brokers() { if let Some(x) = c.get_broker_connection(&b) { d.brokers.insert(b.clone(), conn::id(&x)); } d.bmaps.insert(b.clone(), tsm_entries(&c.brokers[&b].topic_sync_map)); }
    let named: BTreeSet<u8> = (0..8u8).chain([200]).chain(c.broadcast_map.users.get_values()).chain(c.broadcast_map.brokers.get_values()).collect();
    for t in named {
        for k in c.broadcast_map.users.get_keys_by_value(&t) { d.utop.insert((k.to_vec(), t)); }
        for k in c.broadcast_map.brokers.get_keys_by_value(&t) { d.btop.insert((k, t)); }
    }
    if let Some(m) = c.get_full_user_sync() { d.dm = dm_entries(&m); }
    if let Some(m) = c.get_full_topic_sync() { d.tsm = tsm_entries(&m); }
    d
}
pub fn make_dm(r: &Ref<Key, BrokerIdentifier, BrokerIdentifier>) -> DirectMap {
    let mut m = DirectMap::new(r.id.clone());
    for (k, (ver, val)) in &r.e { vm::put(&mut m, upk(k), *ver, val.clone()); }
    m
}
pub fn make_tsm(r: &Ref<Topic, bool, u32>) -> TopicSyncMap {
    let mut m = TopicSyncMap::new(r.id);
    for (k, (ver, val)) in &r.e { vm::put(&mut m, *k, *ver, val.map(|x| if x { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed })); }
    m
}

/// The reference tables.
#[derive(Clone)]
pub struct Model {
    pub id: BrokerIdentifier,
    pub users: BTreeMap<Key, (usize, usize)>,
    pub brokers: BTreeMap<BrokerIdentifier, (usize, usize, Ref<Topic, bool, u32>)>,
    pub utop: BTreeSet<(Key, Topic)>,
    pub btop: BTreeSet<(BrokerIdentifier, Topic)>,
    pub dm: Ref<Key, BrokerIdentifier, BrokerIdentifier>,
    pub tsm: Ref<Topic, bool, u32>,
    pub prev: BTreeSet<Topic>,
    /// numbers of the stopped tasks
    pub stopped: BTreeSet<usize>,
}
impl Model {
    pub fn new(id: BrokerIdentifier) -> Self {
        Model { dm: Ref::new(id.clone()), id, users: BTreeMap::new(), brokers: BTreeMap::new(), utop: BTreeSet::new(), btop: BTreeSet::new(), tsm: Ref::new(0), prev: BTreeSet::new(), stopped: BTreeSet::new() }
    }
    pub fn remove_user(&mut self, k: &Key) {
        if let Some((_, t)) = self.users.remove(k) { self.stopped.insert(t); }
        self.utop.retain(|x| x.0 != *k);
        let id = self.id.clone();
        self.dm.remove_if(k.clone(), id);
    }
    pub fn add_user(&mut self, k: &Key, c: usize, t: usize, topics: &[Topic]) {
        self.remove_user(k);
        self.users.insert(k.clone(), (c, t));
        self.dm.local(k.clone(), Some(self.id.clone()));
        for x in topics { self.utop.insert((k.clone(), *x)); }
    }
    pub fn remove_broker(&mut self, b: &BrokerIdentifier) {
        if let Some((_, t, _)) = self.brokers.remove(b) { self.stopped.insert(t); }
        self.btop.retain(|x| x.0 != *b);
    }
    pub fn add_broker(&mut self, b: &BrokerIdentifier, c: usize, t: usize) { self.remove_broker(b); self.brokers.insert(b.clone(), (c, t, Ref::new(0))); }
    /// returns the users that must be disconnected
    pub fn user_sync(&mut self, r: &Ref<Key, BrokerIdentifier, BrokerIdentifier>) -> BTreeSet<Key> {
        let mut out = BTreeSet::new();
        for (k, v) in self.dm.merge(r) {
            if self.users.contains_key(&k) {
                if v.as_ref() != Some(&self.id) { out.insert(k.clone()); self.remove_user(&k); }
            } else {
                // a record that locates a user here who is not connected here is taken back
                self.remove_user(&k);
            }
        }
        out
    }
    pub fn topic_sync(&mut self, b: &BrokerIdentifier, r: &Ref<Topic, bool, u32>) {
        let Some(x) = self.brokers.get_mut(b) else { self.remove_broker(b); return; };
        for (t, v) in x.2.merge(r) { if v == Some(true) { self.btop.insert((b.clone(), t)); } else { self.btop.remove(&(b.clone(), t)); } }
    }
    pub fn interest(&self) -> BTreeSet<Topic> { self.utop.iter().map(|x| x.1).collect() }
    pub fn partial_topics(&mut self) -> Option<BTreeMap<Topic, (u64, Option<bool>)>> {
        let now = self.interest();
        let ch: Vec<Topic> = now.symmetric_difference(&self.prev).copied().collect();
        if ch.is_empty() { return None; }
        for t in &ch { self.tsm.local(*t, Some(now.contains(t))); }
        self.prev = now;
        Some(self.tsm.diff().e)
    }
    pub fn dump(&self) -> Dump {
        Dump {
            users: self.users.iter().map(|(k, v)| (k.clone(), v.0)).collect(),
            brokers: self.brokers.iter().map(|(k, v)| (k.clone(), v.0)).collect(),
            bmaps: self.brokers.iter().map(|(k, v)| (k.clone(), v.2.e.clone())).collect(),
            utop: self.utop.clone(), btop: self.btop.clone(), dm: self.dm.e.clone(), tsm: self.tsm.e.clone(),
        }
    }
}
pub fn same(c: &Connections, m: &Model, what: &str) -> Check {
    let (got, want) = (dump(c), m.dump());
    vx_check!(got.users == want.users, "after {what}: the connected users (and their connections) are {:?}, the contract requires {:?}", got.users, want.users);
    vx_check!(got.brokers == want.brokers, "after {what}: the connected brokers (and their connections) are {:?}, the contract requires {:?}", got.brokers, want.brokers);
    vx_check!(got.utop == want.utop, "after {what}: the users' subscriptions are {:?}, the contract requires {:?}", got.utop, want.utop);
    vx_check!(got.btop == want.btop, "after {what}: the brokers' subscriptions are {:?}, the contract requires {:?}", got.btop, want.btop);
    vx_check!(got.dm == want.dm, "after {what}: the directory is {:?}, the contract requires {:?}", got.dm, want.dm);
    vx_check!(got.bmaps == want.bmaps, "after {what}: the remembered topic states are {:?}, the contract requires {:?}", got.bmaps, want.bmaps);
    vx_check!(got.tsm == want.tsm, "after {what}: the announced topic state is {:?}, the contract requires {:?}", got.tsm, want.tsm);
    vx_check!(c.num_users() == want.users.len(), "after {what}: num_users() is {}", c.num_users());
    let loc: BTreeSet<Key> = got.dm.iter().filter(|x| x.1.1.as_ref() == Some(&m.id)).map(|x| x.0.clone()).collect();
    vx_check!(loc == got.users.keys().cloned().collect::<BTreeSet<Key>>(), "after {what}: the directory locates {loc:?} here but connected are {:?}", got.users.keys());
    Ok(())
}
/// the tables of the real code with the connections and tasks given to it
pub struct Real { pub c: Connections, pub keep: Vec<Connection>, pub far: Vec<Far>, pub tasks: Vec<AbortHandle> }
impl Real {
    pub fn new(id: BrokerIdentifier) -> Self { Real { c: Connections::new(id), keep: vec![], far: vec![], tasks: vec![] } }
    /// a new connection and task: (connection, its id, abort handle, task number)
    pub fn fresh(&mut self) -> (Connection, usize, AbortHandle, usize) {
        let (c, f) = conn::pair();
        self.keep.push(c.clone());
        let i = f.id();
        self.far.push(f);
        let t = task();
        self.tasks.push(t.clone());
        (c, i, t, self.tasks.len() - 1)
    }
    pub async fn stopped(&self) -> BTreeSet<usize> {
        for _ in 0..3 { tokio::task::yield_now().await; }
        self.tasks.iter().enumerate().filter(|x| x.1.is_finished()).map(|x| x.0).collect()
    }
}

fn rand_topics(c: &mut Case, nt: usize) -> Vec<Topic> { let n = c.rng.below(4); (0..n).map(|_| c.rng.below(nt) as u8).collect() }
/// a random directory around the local one
fn rand_dm(c: &mut Case, m: &Model, nu: usize, nb: usize) -> Ref<Key, BrokerIdentifier, BrokerIdentifier> {
    let mut r = Ref::new(bid(c.rng.below(nb)));
    for u in 0..nu {
        if c.rng.flip() { continue; }
        let k = vec![u as u8];
        let base = m.dm.e.get(&k).map(|x| x.0).unwrap_or(0) as i64;
        let ver = (base + c.rng.below(4) as i64 - 1).max(0) as u64;
        let val = if c.rng.one_in(4) { None } else if c.rng.one_in(3) { Some(m.id.clone()) } else { Some(bid(c.rng.below(nb))) };
        r.e.insert(k, (ver, val));
    }
    r
}
/// the operations a history is made of: which checks to weight
#[derive(Clone, Copy, PartialEq)]
enum Focus { Table, Users, Topics }
fn history(c: &mut Case, focus: Focus) -> Check {
    let id = bid(c.rng.below(3));
    let (nu, nb, nt) = (c.rng.range(1, 4), 3usize, c.rng.range(1, 4));
    c.note(format!("broker {id}"));
    let mut log = std::mem::take(&mut c.log);
    let mut m = Model::new(id.clone());
    let seed = c.rng.next();
    let mut cc = Case { rng: cdn_proto::verif_common::Rng(seed), index: c.index, log: String::new() };
    let r = block(async {
        let c = &mut cc;
        let mut r = Real::new(id.clone());
        // one peer announcing: its own announcer state and what it has sent
        let mut peers: Vec<Ref<Topic, bool, u32>> = (0..nb).map(|_| Ref::new(0)).collect();
        let mut sent: Vec<(usize, Ref<Topic, bool, u32>)> = vec![];
        for _ in 0..c.rng.range(3, 25) {
            let u = vec![c.rng.below(nu) as u8];
            let bn = c.rng.below(nb);
            let b = bid(bn);
            let ts = rand_topics(c, nt);
            let what;
            let pick = c.rng.below(14);
            let pick = match focus { Focus::Users if pick >= 11 => 6, Focus::Topics if pick >= 10 => [7, 8, 9, 8][pick - 10], _ => pick };
            match pick {
                0 | 1 => { what = format!("add_user({u:?}, {ts:?})"); c.note(&what); let (x, i, t, n) = r.fresh(); r.c.add_user(&upk(&u), x, &ts, t); m.add_user(&u, i, n, &ts); }
                2 => { what = format!("remove_user({u:?})"); c.note(&what); r.c.remove_user(upk(&u), "test"); m.remove_user(&u); }
                3 => { what = format!("add_broker({b})"); c.note(&what); let (x, i, t, n) = r.fresh(); r.c.add_broker(b.clone(), x, t); m.add_broker(&b, i, n); }
                4 => { what = format!("remove_broker({b})"); c.note(&what); r.c.remove_broker(&b, "test"); m.remove_broker(&b); }
                5 => {
                    if c.rng.flip() { what = format!("subscribe_user_to({u:?}, {ts:?})"); c.note(&what);
                        if m.users.contains_key(&u) { r.c.subscribe_user_to(&upk(&u), ts.clone()); for t in &ts { m.utop.insert((u.clone(), *t)); } }
                    } else { what = format!("unsubscribe_user_from({u:?}, {ts:?})"); c.note(&what); r.c.unsubscribe_user_from(&upk(&u), &ts); for t in &ts { m.utop.remove(&(u.clone(), *t)); } }
                }
                6 => {
                    let d = rand_dm(c, &m, nu + 1, nb);
                    what = format!("apply_user_sync({:?} of {})", d.e, d.id); c.note(&what);
                    r.c.apply_user_sync(make_dm(&d));
                    m.user_sync(&d);
                }
                7 => {
                    // a peer's interest changes and it announces
                    let p = &mut peers[bn];
                    for t in &ts { let v = c.rng.flip(); if p.value(t).unwrap_or(false) != v { p.local(*t, Some(v)); } }
                    let full = c.rng.one_in(3);
                    let d = if full { Ref { d: BTreeSet::new(), ..p.clone() } } else { p.diff() };
                    what = format!("peer {b} announces {:?}", d.e); c.note(&what);
                    sent.push((bn, d));
                }
                8 => {
                    // an announcement arrives: possibly late, repeated, or arbitrary
                    let d = if !sent.is_empty() && !c.rng.one_in(4) { let i = c.rng.below(sent.len()); if c.rng.flip() { sent[i].clone() } else { sent.swap_remove(i) } }
                        else { let mut d = Ref::new(if c.rng.one_in(4) { 1 } else { 0 }); for t in &ts { let v = match c.rng.below(3) { 0 => None, 1 => Some(true), _ => Some(false) }; d.e.insert(*t, (c.rng.below(4) as u64, v)); } (bn, d) };
                    let b = bid(d.0);
                    what = format!("apply_topic_sync({b}, {:?} of {})", d.1.e, d.1.id); c.note(&what);
                    r.c.apply_topic_sync(&b, make_tsm(&d.1));
                    m.topic_sync(&b, &d.1);
                }
                9 => {
                    what = "get_partial_topic_sync()".to_string(); c.note(&what);
                    let got = r.c.get_partial_topic_sync().map(|d| tsm_entries(&d));
                    let want = m.partial_topics();
                    vx_check!(got == want, "the topic announcement is {got:?}, the contract requires {want:?}");
                }
                10 => {
                    what = "get_partial_user_sync()".to_string(); c.note(&what);
                    let got = r.c.get_partial_user_sync();
                    let w = m.dm.diff();
                    let want = if w.e.is_empty() { None } else { Some(w.e) };
                    if let Some(g) = &got { vx_check!(*vm::identity(g) == m.id, "the directory delta carries the identity {}", vm::identity(g)); }
                    let got = got.map(|d| dm_entries(&d));
                    vx_check!(got == want, "the directory delta is {got:?}, the contract requires {want:?}");
                }
                11 => {
                    let tb = c.rng.flip();
                    what = format!("get_interested_by_topic({ts:?}, {tb})"); c.note(&what);
                    let (mut gb, mut gu) = r.c.get_interested_by_topic(&ts, tb);
                    gb.sort(); gu.sort();
                    let wb: BTreeSet<BrokerIdentifier> = if tb { BTreeSet::new() } else { m.btop.iter().filter(|x| ts.contains(&x.1)).map(|x| x.0.clone()).collect() };
                    let wu: BTreeSet<Key> = m.utop.iter().filter(|x| ts.contains(&x.1)).map(|x| x.0.clone()).collect();
                    vx_check!(gb == wb.iter().cloned().collect::<Vec<_>>(), "interested brokers are {gb:?}, the contract requires {wb:?}");
                    vx_check!(gu.iter().map(|k| k.to_vec()).collect::<Vec<_>>() == wu.iter().cloned().collect::<Vec<_>>(), "interested users are {gu:?}, the contract requires {wu:?}");
                }
                12 => {
                    what = format!("subscribe/unsubscribe broker {b} {ts:?}"); c.note(&what);
                    if c.rng.flip() { r.c.subscribe_broker_to(&b, ts.clone()); for t in &ts { m.btop.insert((b.clone(), *t)); } if !m.brokers.contains_key(&b) { r.c.remove_broker(&b, "t"); m.remove_broker(&b); } }
                    else { r.c.unsubscribe_broker_from(&b, &ts); for t in &ts { m.btop.remove(&(b.clone(), *t)); } }
                }
                _ => {
                    what = "lookups".to_string();
                    for x in 0..nu + 1 { let k = vec![x as u8];
                        vx_check!(r.c.get_broker_identifier_of_user(&upk(&k)) == m.dm.value(&k), "user {k:?} is located at {:?}, the contract requires {:?}", r.c.get_broker_identifier_of_user(&upk(&k)), m.dm.value(&k)); }
                }
            }
            same(&r.c, &m, &what)?;
            let st = r.stopped().await;
            vx_check!(st == m.stopped, "after {what}: the stopped session tasks are {st:?}, the contract requires {:?} (tasks are numbered in the order of the add operations)", m.stopped);
        }
        Ok(())
    });
    log.push_str(&cc.log);
    c.log = log;
    r
}
pub fn c06(c: &mut Case) -> Check { history(c, Focus::Table) }
pub fn c07(c: &mut Case) -> Check { history(c, Focus::Users) }
pub fn c08(c: &mut Case) -> Check { history(c, Focus::Topics) }
/// many users, topics and records at once
fn crowded(c: &mut Case, focus: Focus) -> Check {
    let id = bid(0);
    let seed = c.rng.next();
    let mut log = std::mem::take(&mut c.log);
    let mut cc = Case { rng: cdn_proto::verif_common::Rng(seed), index: c.index, log: String::new() };
    let r = block(async {
        let c = &mut cc;
        let mut m = Model::new(id.clone());
        let mut r = Real::new(id.clone());
        let n = *c.rng.pick(&[70usize, 300, 1100]);
        let key = |i: usize| -> Key { vec![0xBB, (i >> 8) as u8, i as u8] };
        for i in 0..n {
            let mut ts: Vec<Topic> = vec![i as u8, (i >> 3) as u8];
            if i % 97 == 0 { ts = (0..=255).collect(); c.rng.shuffle(&mut ts); }
            let (x, j, t, k) = r.fresh();
            r.c.add_user(&upk(&key(i)), x, &ts, t);
            m.add_user(&key(i), j, k, &ts);
        }
        let what = format!("{n} users connected");
        c.note(&what);
        same(&r.c, &m, &what)?;
        match focus {
            Focus::Table => {
                let (x, i, t, k) = r.fresh();
                r.c.add_broker(bid(1), x, t);
                m.add_broker(&bid(1), i, k);
                let mut all: Vec<Topic> = (0..=255).collect();
                c.rng.shuffle(&mut all);
                let u = key(c.rng.below(n));
                r.c.subscribe_user_to(&upk(&u), all.clone());
                for t in &all { m.utop.insert((u.clone(), *t)); }
                r.c.subscribe_broker_to(&bid(1), all.clone());
                for t in &all { m.btop.insert((bid(1), *t)); }
                same(&r.c, &m, "subscribing to every topic")?;
                let some: Vec<Topic> = all.iter().copied().take(200).collect();
                r.c.unsubscribe_user_from(&upk(&u), &some);
                for t in &some { m.utop.remove(&(u.clone(), *t)); }
                r.c.unsubscribe_broker_from(&bid(1), &some);
                for t in &some { m.btop.remove(&(bid(1), *t)); }
                same(&r.c, &m, "unsubscribing from 200 topics")?;
                for i in 0..n { if i % 2 == 0 { r.c.remove_user(upk(&key(i)), "test"); m.remove_user(&key(i)); } }
                same(&r.c, &m, "half the users leaving")?;
            }
            Focus::Users => {
                let part = r.c.get_partial_user_sync().map(|d| dm_entries(&d)).unwrap_or_default();
                let want = m.dm.diff().e;
                vx_check!(part == want, "the changes announced are {} records, the contract requires {}", part.len(), want.len());
                let mut d = Ref::new(bid(1));
                for i in 0..n + 50 { if c.rng.below(3) > 0 { d.e.insert(key(i), (c.rng.below(4) as u64 + if c.rng.one_in(20) { 1 << 40 } else { 0 }, if c.rng.one_in(4) { None } else { Some(bid(c.rng.below(3))) })); } }
                let what = format!("a directory of {} records arriving", d.e.len());
                c.note(&what);
                r.c.apply_user_sync(make_dm(&d));
                m.user_sync(&d);
                same(&r.c, &m, &what)?;
            }
            Focus::Topics => {
                let p = r.c.get_partial_topic_sync().map(|d| tsm_entries(&d));
                let q = m.partial_topics();
                vx_check!(p == q, "the topic changes announced are {p:?}, the contract requires {q:?}");
                let (x, i, t, k) = r.fresh();
                r.c.add_broker(bid(1), x, t);
                m.add_broker(&bid(1), i, k);
                for round in 0..3 {
                    let mut d = Ref::new(0);
                    for t in 0..=255u8 { if round == 0 || c.rng.flip() { d.e.insert(t, (round + if c.rng.one_in(20) { 1 << 40 } else { 1 }, Some(c.rng.below(4) > 0))); } }
                    let what = format!("announcement {round} of {} topics arriving", d.e.len());
                    c.note(&what);
                    r.c.apply_topic_sync(&bid(1), make_tsm(&d));
                    m.topic_sync(&bid(1), &d);
                    same(&r.c, &m, &what)?;
                }
                for i in 0..n { if i % 3 != 0 { r.c.remove_user(upk(&key(i)), "test"); m.remove_user(&key(i)); } }
                let p = r.c.get_partial_topic_sync().map(|d| tsm_entries(&d));
                let q = m.partial_topics();
                vx_check!(p == q, "the topic changes announced are {p:?}, the contract requires {q:?}");
            }
        }
        settle().await;
        let st = r.stopped().await;
        vx_check!(st == m.stopped, "the stopped session tasks are {st:?}, the contract requires {:?}", m.stopped);
        Ok(())
    });
    log.push_str(&cc.log);
    c.log = log;
    r
}
pub fn big6(c: &mut Case) -> Check { crowded(c, Focus::Table) }
pub fn big7(c: &mut Case) -> Check { crowded(c, Focus::Users) }
pub fn big8(c: &mut Case) -> Check { crowded(c, Focus::Topics) }
pub fn props() -> Vec<cdn_proto::verif_common::Prop> {
    use cdn_proto::verif_common::Prop;
    vec![
        Prop { id: "C06", name: "crowded tables", quick: 10, run: big6 },
        Prop { id: "C07", name: "crowded user syncs", quick: 10, run: big7 },
        Prop { id: "C08", name: "crowded topic syncs", quick: 10, run: big8 },
        Prop { id: "C06", name: "tables", quick: 12_000, run: c06 },
        Prop { id: "C07", name: "user syncs", quick: 12_000, run: c07 },
        Prop { id: "C08", name: "topic syncs", quick: 12_000, run: c08 },
    ]
}
