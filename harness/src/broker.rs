//! Runtime check of the contracts of the broker's routing, sessions and periodic tasks
//! (C04, C05, C10, C11, C16, C18 - C22), child of the root of `cdn_broker`.
use crate::connections::{DirectMap, TopicSyncMap};
use crate::verif_conns::{bid, dm_entries, make_dm, make_tsm, same, task, tsm_entries, upk, Key, Model};
use crate::verif_vm::{self as vm, Ref};
use crate::{Connections, Inner};
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::{protocols::Connection, Bytes};
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::*;
use cdn_proto::verif_auth::{now, other, stamp};
use cdn_proto::verif_common::{block, settle, Case, Check, Prop, Rng};
use cdn_proto::verif_conn::{self as conn, Far, Out};
use cdn_proto::verif_fake::*;
use cdn_proto::vx_check;
use parking_lot::RwLock;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;
use std::time::Duration;
use tokio::task::AbortHandle;

fn crowd_key(i: usize) -> Key { vec![0xBB, (i >> 8) as u8, i as u8] }
type Sent = BTreeMap<usize, Vec<Out>>;
/// numbers of tasks that the code under test spawned itself
const SPAWNED: usize = 1_000_000;
/// the broker under test with recorded surroundings, and the reference tables
struct W {
    inner: Arc<Inner<FakeRun>>,
    m: Model,
    keep: Vec<Connection>,
    far: Vec<Far>,
    name: BTreeMap<usize, String>,
    tasks: Vec<AbortHandle>,
    disc: FakeDisc,
    uhook: FakeHook,
    bhook: FakeHook,
    /// what must have been sent on each connection since the last look
    want: Sent,
    broken: BTreeSet<usize>,
    n: usize,
}
const KEY: u8 = 9;
fn sleep(s: u64) -> tokio::time::Sleep { tokio::time::sleep(Duration::from_secs(s)) }
impl W {
    fn new(id: BrokerIdentifier) -> W {
        let (disc, uhook, bhook) = (FakeDisc::default(), FakeHook::default(), FakeHook::default());
        let inner = Arc::new(Inner::<FakeRun> {
            identity: id.clone(),
            discovery_client: disc.clone(),
            keypair: keys(KEY),
            connections: Arc::new(RwLock::new(Connections::new(id.clone()))),
            limiter: Limiter::new(None, None),
            user_message_hook: uhook.clone(),
            broker_message_hook: bhook.clone(),
        });
        W { inner, m: Model::new(id), keep: vec![], far: vec![], name: BTreeMap::new(), tasks: vec![], disc, uhook, bhook, want: Sent::new(), broken: BTreeSet::new(), n: 0 }
    }
    fn pair(&mut self, name: String) -> (Connection, Far) {
        let (c, f) = conn::pair();
        self.far.push(f.clone());
        self.name.insert(f.id(), name);
        (c, f)
    }
    fn user(&mut self, k: &Key, topics: &[u8]) {
        let (c, f) = self.pair(format!("user {k:?}"));
        self.keep.push(c.clone());
        let t = task();
        self.tasks.push(t.clone());
        self.inner.connections.write().add_user(&upk(k), c, topics, t);
        self.m.add_user(k, f.id(), self.tasks.len() - 1, topics);
    }
    fn broker(&mut self, b: &BrokerIdentifier, topics: &[u8]) {
        let (c, f) = self.pair(format!("broker {b}"));
        self.keep.push(c.clone());
        let t = task();
        self.tasks.push(t.clone());
        self.inner.connections.write().add_broker(b.clone(), c, t);
        self.m.add_broker(b, f.id(), self.tasks.len() - 1);
        let mut r = Ref::new(0);
        for t in topics { r.e.insert(*t, (1, Some(true))); }
        self.inner.connections.write().apply_topic_sync(b, make_tsm(&r));
        self.m.topic_sync(b, &r);
    }
    fn located(&mut self, k: &Key, at: &BrokerIdentifier) {
        let mut r = Ref::new(at.clone());
        let v = self.m.dm.e.get(k).map_or(0, |x| x.0);
        r.e.insert(k.clone(), (v + 1, Some(at.clone())));
        self.inner.connections.write().apply_user_sync(make_dm(&r));
        self.m.user_sync(&r);
    }
    /// connected users and brokers, users elsewhere, deleted users
    fn populate(&mut self, r: &mut Rng) -> String {
        let mut s = format!("broker {}", self.m.id);
        for u in 0..r.range(0, 5) { let t = topics(r, 4); let k = ser(u as u8); s += &format!("; user {k:?} on {t:?}"); self.user(&k, &t); }
        for b in 3..3 + r.range(0, 3) { let t = topics(r, 4); let i = if r.one_in(3) { some_broker(r, &self.m.id) } else { bid(b) }; if i == self.m.id { continue; } s += &format!("; broker {i} wants {t:?}"); self.broker(&i, &t); }
        for u in 0..r.range(0, 3) { let k = ser(100 + u as u8); let at = some_broker(r, &self.m.id); s += &format!("; user {k:?} at {at}"); self.located(&k, &at); }
        if r.one_in(3) { let k = ser(120); self.user(&k, &[]); self.inner.connections.write().remove_user(upk(&k), "test"); self.m.remove_user(&k); s += &format!("; user {k:?} left"); }
        if r.flip() { self.inner.connections.write().get_partial_user_sync(); self.m.dm.diff(); }
        if r.flip() { self.inner.connections.write().get_partial_topic_sync(); self.m.partial_topics(); }
        s
    }
    /// very many users and brokers
    fn crowd(&mut self, r: &mut Rng) -> String {
        let n = *r.pick(&[70usize, 300, 1100]);
        for i in 0..n { let t: Vec<u8> = if i % 50 == 0 { (0..=255).collect() } else { vec![i as u8] }; self.user(&crowd_key(i), &t); }
        let b = *r.pick(&[9usize, 70]);
        for i in 0..b { let t: Vec<u8> = if r.one_in(5) { (0..=255).collect() } else { vec![i as u8, 255 - i as u8] }; self.broker(&bid(10 + i), &t); }
        for i in 0..n { if i % 40 == 7 { let at = bid(10 + r.below(b)); self.located(&vec![0xCC, (i >> 8) as u8, i as u8], &at); } }
        format!("broker {} with {n} users and {b} brokers connected", self.m.id)
    }
    /// sends on some connections fail from now on
    fn break_some(&mut self, r: &mut Rng, not: &[usize]) -> String {
        let mut s = String::new();
        for f in &self.far { if r.one_in(4) && !not.contains(&f.id()) && self.broken.insert(f.id()) { f.break_sends(); s += &format!("; {} cannot be reached", self.name[&f.id()]); } }
        s
    }
    fn expect(&mut self, id: usize, b: &[u8]) -> bool {
        if self.broken.contains(&id) { return false; }
        self.want.entry(id).or_default().push(Out::Bytes(b.to_vec()));
        true
    }
    fn to_user(&mut self, k: &Key, b: &[u8]) { if let Some((id, _)) = self.m.users.get(k).copied() { if !self.expect(id, b) { self.m.remove_user(k); } } }
    fn to_broker(&mut self, k: &BrokerIdentifier, b: &[u8]) { if let Some((id, ..)) = self.m.brokers.get(k).cloned() { if !self.expect(id, b) { self.m.remove_broker(k); } } }
    fn broadcast(&mut self, topics: &[u8], b: &[u8], users_only: bool) {
        let us: BTreeSet<Key> = self.m.utop.iter().filter(|x| topics.contains(&x.1)).map(|x| x.0.clone()).collect();
        let bs: BTreeSet<BrokerIdentifier> = self.m.btop.iter().filter(|x| topics.contains(&x.1)).map(|x| x.0.clone()).collect();
        if !users_only { for x in bs { self.to_broker(&x, b); } }
        for x in us { self.to_user(&x, b); }
    }
    fn direct(&mut self, to: &Key, b: &[u8], users_only: bool) {
        match self.m.dm.value(to) { Some(at) if at == self.m.id => self.to_user(to, b), Some(at) if !users_only => self.to_broker(&at, b), _ => {} }
    }
    fn took(&self) -> Sent { let mut s = Sent::new(); for f in &self.far { let v = f.drain(); if !v.is_empty() { s.insert(f.id(), v); } } s }
    fn show(&self, s: &Sent) -> String { if s.is_empty() { return "nothing".into(); } s.iter().map(|(i, v)| format!("{} x {v:?} to {}", v.len(), self.name.get(i).cloned().unwrap_or_default())).collect::<Vec<_>>().join(", ") }
    async fn check(&mut self, what: &str) -> Check {
        settle().await;
        let (got, want) = (self.took(), std::mem::take(&mut self.want));
        vx_check!(got == want, "{what}: sent was {}, the contract requires {}", self.show(&got), self.show(&want));
        self.tables(what)
    }
    fn tables(&self, what: &str) -> Check {
        same(&self.inner.connections.read(), &self.m, what)?;
        let got: BTreeSet<usize> = self.tasks.iter().enumerate().filter(|x| x.1.is_finished()).map(|x| x.0).collect();
        let want: BTreeSet<usize> = self.m.stopped.iter().copied().filter(|x| *x < SPAWNED).collect();
        vx_check!(got == want, "{what}: the stopped sessions are {got:?}, the contract requires {want:?} (sessions are numbered in the order in which they were added)");
        Ok(())
    }
    /// what a strongly consistent broker sends to the brokers after admitting a user
    fn announce(&mut self) -> (Option<BTreeMap<u8, (u64, Option<bool>)>>, Option<BTreeMap<Key, (u64, Option<BrokerIdentifier>)>>) {
        #[cfg(feature = "strong-consistency")]
        { let t = self.m.partial_topics(); let d = self.m.dm.diff().e; (t, if d.is_empty() { None } else { Some(d) }) }
        #[cfg(not(feature = "strong-consistency"))]
        (None, None)
    }
    /// logs a user in, the way it is done over a connection; the pruned topics
    async fn login(&mut self, k: &Key, t: &[u8]) -> Far {
        let permit = 100 + self.n as u64;
        self.n += 1;
        self.disc.with(|d| { d.validate.insert(permit, Answer::Is(Some(k.clone()))); });
        let (c, f) = self.pair(format!("user {k:?}"));
        f.deliver(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit }).serialize().unwrap());
        f.deliver(Message::Subscribe(t.to_vec()).serialize().unwrap());
        self.inner.clone().handle_user_connection(c).await;
        self.m.add_user(k, f.id(), SPAWNED + self.n, &pruned(t));
        self.announce();
        f
    }
    /// connects a broker; `out`: we dialled it
    async fn join(&mut self, b: &BrokerIdentifier, out: bool) -> Far {
        self.n += 1;
        let (c, f) = self.pair(format!("broker {b}"));
        let (k, r) = (broker_key(), Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: b.to_string() }));
        let (x, y) = if out { (r, k) } else { (k, r) };
        f.deliver(x.serialize().unwrap());
        f.deliver(y.serialize().unwrap());
        self.inner.clone().handle_broker_connection(c, out).await;
        self.m.add_broker(b, f.id(), SPAWNED + self.n);
        f
    }
}
fn broker_key() -> Message { let t = now(); Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(KEY), timestamp: t, signature: sig(KEY, BROKER, &t.to_le_bytes()) }) }
fn topics(r: &mut Rng, max: usize) -> Vec<u8> { let n = r.below(max + 1); (0..n).map(|_| r.below(6) as u8).collect() }
/// topics as a user may send them: with repetitions and invalid ones
fn sent_topics(r: &mut Rng) -> Vec<u8> {
    // at times very many
    if r.one_in(24) { let n = *r.pick(&[20usize, 70, 300, 1000]); return (0..n).map(|_| r.next() as u8).collect(); }
    let n = r.below(6); (0..n).map(|_| *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 9, 200, 255])).collect()
}
fn pruned(t: &[u8]) -> Vec<u8> { let mut v: Vec<u8> = vec![]; for x in t { if valid(*x) { v.push(*x); } } v.dedup(); v }
fn bytes(b: &[u8]) -> Bytes { Bytes::from_unchecked(b.to_vec()) }

/// C04
fn c04(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        c.note(s);
        for _ in 0..c.rng.range(1, 4) {
            let (t, b, only) = (topics(&mut c.rng, 5), c.rng.bytes(40), c.rng.flip());
            let what = format!("a broadcast of {b:?} on {t:?} from a {}", if only { "broker" } else { "user" });
            c.note(&what);
            w.inner.handle_broadcast_message(&t, &bytes(&b), only).await;
            w.broadcast(&t, &b, only);
            w.check(&what).await?;
        }
        Ok(())
    })
}
/// C04, very many recipients and topics
fn c04_crowd(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(0));
        let s = w.crowd(&mut c.rng);
        c.note(s);
        w.took();
        for _ in 0..3 {
            let mut t: Vec<u8> = (0..=255).collect();
            c.rng.shuffle(&mut t);
            t.truncate(*c.rng.pick(&[1usize, 40, 130, 256]));
            let (b, only) = (c.rng.bytes(9), c.rng.one_in(3));
            let what = format!("a broadcast on {} topics from a {}", t.len(), if only { "broker" } else { "user" });
            c.note(&what);
            w.inner.handle_broadcast_message(&t, &bytes(&b), only).await;
            w.broadcast(&t, &b, only);
            let (got, want) = (w.took(), std::mem::take(&mut w.want));
            for (i, n) in &w.name { vx_check!(got.get(i) == want.get(i), "{what}: {n} was sent {:?}, the contract requires {:?}", got.get(i), want.get(i)); }
            w.tables(&what)?;
        }
        Ok(())
    })
}
/// C21, very many users and brokers
fn c21_crowd(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(0));
        let s = w.crowd(&mut c.rng);
        c.note(s);
        w.took();
        for round in 0..3 {
            let mut want = BTreeMap::new();
            let what = match round { 0 => "the periodic topic sync", 1 => "the periodic user sync", _ => "the full syncs" };
            match round {
                0 => { let _ = w.inner.partial_topic_sync().await; let s = w.partial_topics(); w.sync_all(&mut want, s); }
                1 => { let _ = w.inner.partial_user_sync().await; let s = w.partial_users(); w.sync_all(&mut want, s); }
                _ => { let b = bid(10); let _ = w.inner.full_topic_sync(&b).await; let _ = w.inner.full_user_sync(&b).await; if let Some(s) = w.full_topics() { w.sync_to(&mut want, &b, s); } if let Some(s) = w.full_users() { w.sync_to(&mut want, &b, s); } }
            }
            settle().await;
            let got = w.syncs_sent()?;
            for (i, n) in &w.name { vx_check!(got.get(i) == want.get(i), "{what}: {n} was not sent what the contract requires ({} records instead of {})", got.get(i).map_or(0, |v| size(v)), want.get(i).map_or(0, |v| size(v))); }
            w.tables(what)?;
        }
        Ok(())
    })
}
fn size(v: &[Sync]) -> usize { v.iter().map(|s| match s { Sync::Topics(x) => x.len(), Sync::Users(_, x) => x.len(), _ => 0 }).sum() }
/// C22, very many brokers
fn c22_crowd(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(0));
        let s = w.crowd(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        c.note(&s[..s.len().min(300)]);
        w.took();
        let b = c.rng.bytes(9);
        w.inner.try_send_to_brokers(&bytes(&b)).await;
        for k in w.m.brokers.keys().cloned().collect::<Vec<_>>() { w.to_broker(&k, &b); }
        w.check("sending to all brokers").await?;
        for _ in 0..40 { let k = crowd_key(c.rng.below(300)); w.inner.try_send_to_user(&upk(&k), bytes(&b)).await; w.to_user(&k, &b); }
        w.check("sending to many users").await
    })
}
/// C19, very many users
fn c19_crowd(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(0));
        let s = w.crowd(&mut c.rng);
        c.note(s);
        w.took();
        let h = tokio::spawn(w.inner.clone().run_whitelist_task());
        settle().await;
        let users: Vec<Key> = w.m.users.keys().cloned().collect();
        let out: BTreeSet<Key> = users.iter().filter(|_| c.rng.one_in(5)).cloned().collect();
        w.disc.with(|d| { d.log.clear(); d.white = out.iter().map(|k| (k.clone(), Answer::Is(false))).collect(); });
        sleep(60).await;
        settle().await;
        let asked: BTreeSet<Key> = w.disc.log().into_iter().filter_map(|x| if let Call::White(k) = x { Some(k) } else { None }).collect();
        let missed = users.iter().filter(|k| !asked.contains(*k)).count();
        vx_check!(missed == 0, "of {} connected users, {missed} were not looked up", users.len());
        for k in &out { w.m.remove_user(k); }
        h.abort();
        w.check("the whitelist sweep").await
    })
}
/// C18, very many users, and many brokers to dial
fn c18_crowd(c: &mut Case) -> Check {
    net_clear();
    block(async {
        let mut w = W::new(bid(0));
        let n = *c.rng.pick(&[256usize, 300, 1100]);
        for i in 0..n { w.user(&crowd_key(i), &[]); }
        let set: HashSet<BrokerIdentifier> = (1..*c.rng.pick(&[20usize, 90])).map(bid).collect();
        c.note(format!("{n} users; {} other brokers", set.len()));
        let mut want: Vec<String> = set.iter().filter(|b| **b >= w.m.id).map(|b| b.private_advertise_endpoint.clone()).collect();
        want.sort();
        w.disc.with(|d| d.others.push_back(Answer::Is(set)));
        let h = tokio::spawn(w.inner.clone().run_heartbeat_task());
        sleep(4).await;
        let beats: Vec<_> = w.disc.log().iter().filter_map(|x| if let Call::Heartbeat(n, _) = x { Some(*n) } else { None }).collect();
        vx_check!(!beats.is_empty() && beats.iter().all(|x| *x == n as u64), "published was {beats:?}, connected are {n}");
        let mut got = net_dials();
        got.sort();
        vx_check!(got == want, "dialled was {got:?}, the contract requires {want:?}");
        h.abort();
        net_clear();
        Ok(())
    })
}
/// some key: connected, elsewhere, gone or unknown
fn some_key(r: &mut Rng) -> Key { ser(*r.pick(&[0u8, 1, 2, 3, 4, 100, 100, 101, 102, 120, 150])) }
/// some broker, at times one that shares an endpoint with us or with another
fn some_broker(r: &mut Rng, us: &BrokerIdentifier) -> BrokerIdentifier {
    match r.below(9) {
        0 => BrokerIdentifier { public_advertise_endpoint: us.public_advertise_endpoint.clone(), private_advertise_endpoint: "p9".into() },
        1 => BrokerIdentifier { public_advertise_endpoint: "b9".into(), private_advertise_endpoint: us.private_advertise_endpoint.clone() },
        2 => BrokerIdentifier { public_advertise_endpoint: "b3".into(), private_advertise_endpoint: "p4".into() },
        _ => bid(r.range(2, 6)),
    }
}
/// C05
fn c05(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        c.note(s);
        for _ in 0..c.rng.range(1, 5) {
            let (k, b, only) = (some_key(&mut c.rng), c.rng.bytes(40), c.rng.flip());
            let what = format!("a direct message {b:?} to {k:?} (recorded at {:?}) from a {}", w.m.dm.value(&k).map(|x| x.to_string()), if only { "broker" } else { "user" });
            c.note(&what);
            w.inner.handle_direct_message(&upk(&k), bytes(&b), only).await;
            w.direct(&k, &b, only);
            w.check(&what).await?;
        }
        Ok(())
    })
}
/// C22
fn c22(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        c.note(s);
        for _ in 0..c.rng.range(1, 6) {
            let b = c.rng.bytes(40);
            let what;
            match c.rng.below(5) {
                0 | 1 => { let k = some_key(&mut c.rng); what = format!("sending {b:?} to user {k:?}"); c.note(&what); w.inner.try_send_to_user(&upk(&k), bytes(&b)).await; w.to_user(&k, &b); }
                2 | 3 => { let k = some_broker(&mut c.rng, &w.m.id); what = format!("sending {b:?} to broker {k}"); c.note(&what); w.inner.try_send_to_broker(&k, bytes(&b)).await; w.to_broker(&k, &b); }
                _ => { what = format!("sending {b:?} to all brokers"); c.note(&what); w.inner.try_send_to_brokers(&bytes(&b)).await; for k in w.m.brokers.keys().cloned().collect::<Vec<_>>() { w.to_broker(&k, &b); } }
            }
            w.check(&what).await?;
        }
        Ok(())
    })
}

// ---------- syncs
#[derive(Debug, PartialEq, Clone)]
enum Sync { Topics(BTreeMap<u8, (u64, Option<bool>)>), Users(BrokerIdentifier, BTreeMap<Key, (u64, Option<BrokerIdentifier>)>), Other(Message) }
fn sync(o: &Out) -> Result<Sync, String> {
    let Out::Bytes(b) = o else { return Err("a connection was soft closed".into()); };
    Ok(match msg(b)? {
        Message::TopicSync(x) => { let m: TopicSyncMap = rkyv::from_bytes(&x).map_err(|_| "an undecodable topic state was sent".to_string())?; Sync::Topics(tsm_entries(&m)) }
        Message::UserSync(x) => { let m: DirectMap = rkyv::from_bytes(&x).map_err(|_| "an undecodable directory was sent".to_string())?; Sync::Users(vm::identity(&m).clone(), dm_entries(&m)) }
        m => Sync::Other(m),
    })
}
impl W {
    fn syncs_sent(&self) -> Result<BTreeMap<usize, Vec<Sync>>, String> {
        let mut s = BTreeMap::new();
        for (i, v) in self.took() { s.insert(i, v.iter().map(sync).collect::<Result<Vec<_>, _>>()?); }
        Ok(s)
    }
    fn sync_to(&mut self, want: &mut BTreeMap<usize, Vec<Sync>>, b: &BrokerIdentifier, s: Sync) {
        if let Some((id, ..)) = self.m.brokers.get(b).cloned() {
            if self.broken.contains(&id) { self.m.remove_broker(b); } else { want.entry(id).or_default().push(s); }
        }
    }
    fn sync_all(&mut self, want: &mut BTreeMap<usize, Vec<Sync>>, s: Option<Sync>) {
        if let Some(s) = s { for b in self.m.brokers.keys().cloned().collect::<Vec<_>>() { self.sync_to(want, &b, s.clone()); } }
    }
    fn full_topics(&self) -> Option<Sync> { if self.m.tsm.e.is_empty() { None } else { Some(Sync::Topics(self.m.tsm.e.clone())) } }
    fn full_users(&self) -> Option<Sync> { if self.m.dm.e.is_empty() { None } else { Some(Sync::Users(self.m.id.clone(), self.m.dm.e.clone())) } }
    fn partial_topics(&mut self) -> Option<Sync> { self.m.partial_topics().map(Sync::Topics) }
    fn partial_users(&mut self) -> Option<Sync> { let d = self.m.dm.diff().e; if d.is_empty() { None } else { Some(Sync::Users(self.m.id.clone(), d)) } }
    async fn check_syncs(&mut self, want: BTreeMap<usize, Vec<Sync>>, what: &str) -> Check {
        settle().await;
        let got = self.syncs_sent()?;
        let name = |s: &BTreeMap<usize, Vec<Sync>>| s.iter().map(|(i, v)| format!("{v:?} to {}", self.name[i])).collect::<Vec<_>>().join(", ");
        vx_check!(got == want, "{what}: sent was [{}], the contract requires [{}]", name(&got), name(&want));
        self.tables(what)
    }
    /// some change of the local state
    fn change(&mut self, r: &mut Rng) -> String {
        let k = ser(r.below(5) as u8);
        let t = topics(r, 4);
        match r.below(5) {
            0 => { self.user(&k, &t); format!("user {k:?} connects on {t:?}") }
            1 => { self.inner.connections.write().remove_user(upk(&k), "test"); self.m.remove_user(&k); format!("user {k:?} leaves") }
            2 if self.m.users.contains_key(&k) => { self.inner.connections.write().subscribe_user_to(&upk(&k), t.clone()); for x in &t { self.m.utop.insert((k.clone(), *x)); } format!("user {k:?} subscribes to {t:?}") }
            3 => { self.inner.connections.write().unsubscribe_user_from(&upk(&k), &t); for x in &t { self.m.utop.remove(&(k.clone(), *x)); } format!("user {k:?} unsubscribes from {t:?}") }
            _ => "nothing".into(),
        }
    }
}
/// C21, the operations
fn c21(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        c.note(s);
        for _ in 0..c.rng.range(1, 8) {
            for _ in 0..c.rng.below(4) { let s = w.change(&mut c.rng); c.note(s); }
            if c.rng.one_in(4) { let s = w.break_some(&mut c.rng, &[]); c.note(s); }
            let mut want = BTreeMap::new();
            let what;
            let r;
            match c.rng.below(6) {
                0 => { let b = some_broker(&mut c.rng, &w.m.id); what = format!("a full topic sync to {b}"); c.note(&what); r = w.inner.full_topic_sync(&b).await; if let Some(s) = w.full_topics() { w.sync_to(&mut want, &b, s); } }
                1 => { let b = some_broker(&mut c.rng, &w.m.id); what = format!("a full user sync to {b}"); c.note(&what); r = w.inner.full_user_sync(&b).await; if let Some(s) = w.full_users() { w.sync_to(&mut want, &b, s); } }
                2 | 3 => { what = "a periodic topic sync".to_string(); c.note(&what); r = w.inner.partial_topic_sync().await; let s = w.partial_topics(); w.sync_all(&mut want, s); }
                _ => { what = "a periodic user sync".to_string(); c.note(&what); r = w.inner.partial_user_sync().await; let s = w.partial_users(); w.sync_all(&mut want, s); }
            }
            vx_check!(r.is_ok(), "{what} failed");
            w.check_syncs(want, &what).await?;
        }
        Ok(())
    })
}
/// the syncs of one round, in either order
fn either_order(got: &BTreeMap<usize, Vec<Sync>>) -> BTreeMap<usize, Vec<Sync>> {
    got.iter().map(|(k, v)| { let mut v = v.clone(); v.sort_by_key(|s| matches!(s, Sync::Topics(_))); (*k, v) }).collect()
}
/// C21, the periodic task
fn c21_task(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        c.note(s);
        let h = tokio::spawn(w.inner.clone().run_sync_task());
        for round in 0..c.rng.range(1, 4) {
            let mut want = BTreeMap::new();
            let (u, t) = (w.partial_users(), w.partial_topics());
            w.sync_all(&mut want, u);
            w.sync_all(&mut want, t);
            let what = format!("round {round} of the periodic sync");
            c.note(&what);
            settle().await;
            let got = w.syncs_sent()?;
            vx_check!(either_order(&got) == want, "{what}: sent was {got:?}, the contract requires {want:?}");
            w.tables(&what)?;
            // nothing more within the interval
            sleep(4).await;
            let more = w.took();
            vx_check!(more.is_empty(), "{what}: nothing changed but sent was {}", w.show(&more));
            for _ in 0..c.rng.below(4) { let s = w.change(&mut c.rng); c.note(s); }
            sleep(7).await;
        }
        h.abort();
        Ok(())
    })
}
/// C21, a broker joins
fn c21_join(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng);
        let (b, out) = (some_broker(&mut c.rng, &w.m.id), c.rng.flip());
        c.note(format!("{s}; {b} joins, dialled by us: {out}"));
        let t0 = now();
        let want: Vec<Sync> = w.full_topics().into_iter().chain(w.full_users()).collect();
        let f = w.join(&b, out).await;
        settle().await;
        let mut got = w.syncs_sent()?;
        let own = got.remove(&f.id()).unwrap_or_default();
        vx_check!(got.is_empty(), "when {b} joined, {got:?} was sent to others");
        if now() - t0 > 3 { return Ok(()); }
        vx_check!(own.len() >= 2, "{b} was sent only {own:?}");
        let mut rest = own[2..].to_vec();
        rest.sort_by_key(|s| !matches!(s, Sync::Topics(_)));
        vx_check!(rest == want, "{b} joined and was sent {rest:?}, the contract requires {want:?}");
        w.tables("the joining")
    })
}
#[cfg(feature = "strong-consistency")]
/// C21, a user is admitted by a strongly consistent broker
fn c21_admit(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng) + &w.break_some(&mut c.rng, &[]);
        let (k, t) = (ser(c.rng.below(7) as u8), topics(&mut c.rng, 4));
        c.note(format!("{s}; user {k:?} logs in on {t:?}"));
        let mut m2 = w.m.clone();
        let f = w.login(&k, &t).await;
        m2.add_user(&k, f.id(), SPAWNED + w.n, &pruned(&t));
        w.m = m2;
        let mut want = BTreeMap::new();
        let (s1, s2) = (w.partial_topics(), w.partial_users());
        w.sync_all(&mut want, s2);
        w.sync_all(&mut want, s1);
        settle().await;
        let mut got = w.syncs_sent()?;
        got.remove(&f.id());
        vx_check!(either_order(&got) == want, "a user was admitted: sent was {got:?}, the contract requires {want:?}");
        w.tables("the login")
    })
}

// ---------- sessions
enum Ending { Goes, Ends }
/// a message as it may arrive: (bytes, description)
fn arriving(r: &mut Rng, w: &W, broker: bool) -> Vec<u8> {
    let m = match r.below(if broker { 14 } else { 11 }) {
        0 | 1 => Message::Direct(Direct { recipient: if r.one_in(8) { r.bytes(4) } else { some_key(r) }, message: r.bytes(9) }),
        2 | 3 => Message::Broadcast(Broadcast { topics: sent_topics(r), message: r.bytes(9) }),
        4 | 5 => Message::Subscribe(sent_topics(r)),
        6 | 7 => Message::Unsubscribe(sent_topics(r)),
        8 => if r.one_in(2) { return r.bytes(30) } else { Message::Subscribe(vec![1]) },
        9 => if broker || r.one_in(3) { other(r, &["direct", "broadcast", "subscribe", "unsubscribe", "usersync", "topicsync"]) } else { Message::Unsubscribe(vec![2]) },
        10 if !broker => if r.one_in(4) { other(r, &["direct", "broadcast", "subscribe", "unsubscribe"]) } else { Message::Broadcast(Broadcast { topics: vec![1, 1, 2], message: r.bytes(9) }) },
        10 | 11 => {
            let mut d = Ref::new(bid(r.below(8)));
            for u in 0..5 { if r.flip() { continue; } let k = some_key(r); let v = w.m.dm.e.get(&k).map_or(0, |x| x.0) as i64; d.e.insert(k, ((v + r.below(4) as i64 - 1).max(0) as u64, if r.one_in(4) { None } else { Some(if r.one_in(4) { w.m.id.clone() } else { some_broker(r, &w.m.id) }) })); }
            if r.one_in(10) { Message::UserSync(r.bytes(20)) } else { Message::UserSync(rkyv::to_bytes::<_, 2048>(&make_dm(&d)).unwrap().to_vec()) }
        }
        _ => {
            let mut d = Ref::new(if r.one_in(4) { 1 } else { 0 });
            for t in 0..6u8 { if r.flip() { d.e.insert(t, (r.below(5) as u64, match r.below(3) { 0 => None, 1 => Some(true), _ => Some(false) })); } }
            if r.one_in(10) { Message::TopicSync(r.bytes(20)) } else { Message::TopicSync(rkyv::to_bytes::<_, 2048>(&make_tsm(&d)).unwrap().to_vec()) }
        }
    };
    let mut b = m.serialize().unwrap();
    if r.one_in(8) { b.extend_from_slice(&[0; 8]); }
    b
}
fn verdict(r: &mut Rng) -> Verdict {
    match r.below(14) { 0 => Verdict::Fail, 1 | 2 => Verdict::Skip, 3 => Verdict::Replace(match r.below(3) { 0 => Message::Subscribe(vec![3]), 1 => Message::Broadcast(Broadcast { topics: vec![1, 2], message: vec![] }), _ => Message::Direct(Direct { recipient: ser(0), message: vec![] }) }), _ => Verdict::Process }
}
impl W {
    /// what the contract says about one message of a user
    fn from_user(&mut self, k: &Key, raw: &[u8], v: &Verdict, seen: &mut Vec<Message>) -> Ending {
        let Ok(mut m) = msg(raw) else { self.m.remove_user(k); return Ending::Ends; };
        seen.push(m.clone());
        match v { Verdict::Skip => return Ending::Goes, Verdict::Fail => { self.m.remove_user(k); return Ending::Ends; } Verdict::Replace(x) => m = x.clone(), Verdict::Process => {} }
        let ok = match m {
            Message::Direct(d) => { self.direct(&d.recipient, raw, false); true }
            Message::Broadcast(b) => { let t = pruned(&b.topics); if !t.is_empty() { self.broadcast(&t, raw, false); } !t.is_empty() }
            Message::Subscribe(t) => { let t = pruned(&t); for x in &t { self.m.utop.insert((k.clone(), *x)); } !t.is_empty() }
            Message::Unsubscribe(t) => { let t = pruned(&t); for x in &t { self.m.utop.remove(&(k.clone(), *x)); } !t.is_empty() }
            _ => false,
        };
        if !ok { self.m.remove_user(k); return Ending::Ends; }
        Ending::Goes
    }
    fn from_broker(&mut self, b: &BrokerIdentifier, raw: &[u8], v: &Verdict, seen: &mut Vec<Message>) -> Ending {
        let Ok(mut m) = msg(raw) else { self.m.remove_broker(b); return Ending::Ends; };
        seen.push(m.clone());
        match v { Verdict::Skip => return Ending::Goes, Verdict::Fail => { self.m.remove_broker(b); return Ending::Ends; } Verdict::Replace(x) => m = x.clone(), Verdict::Process => {} }
        let ok = match m {
            Message::Direct(d) => { self.direct(&d.recipient, raw, true); true }
            Message::Broadcast(x) => { self.broadcast(&x.topics, raw, true); true }
            Message::UserSync(x) => match rkyv::from_bytes::<DirectMap>(&x) { Ok(d) => { self.m.user_sync(&Ref { id: vm::identity(&d).clone(), e: dm_entries(&d), d: BTreeSet::new() }); true } Err(_) => false },
            Message::TopicSync(x) => match rkyv::from_bytes::<TopicSyncMap>(&x) { Ok(d) => { self.m.topic_sync(b, &Ref { id: *vm::identity(&d), e: tsm_entries(&d), d: BTreeSet::new() }); true } Err(_) => false },
            _ => true,
        };
        if !ok { self.m.remove_broker(b); return Ending::Ends; }
        Ending::Goes
    }
}
fn session(c: &mut Case, broker: bool) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng);
        let k = ser(c.rng.below(7) as u8);
        let b = some_broker(&mut c.rng, &w.m.id);
        let me = if broker { format!("broker {b}") } else { format!("user {k:?}") };
        c.note(format!("{s}; then a session of {me}"));
        if b == w.m.id { return Ok(()); }
        let f = if broker { let out = c.rng.flip(); w.join(&b, out).await } else { let t = sent_topics(&mut c.rng); c.note(format!("it logs in on {t:?}")); w.login(&k, &t).await };
        settle().await;
        w.took();
        w.tables(&format!("the login of {me}"))?;
        let s = w.break_some(&mut c.rng, &[f.id()]);
        c.note(s);
        let hook = if broker { w.bhook.clone() } else { w.uhook.clone() };
        let mut seen = vec![];
        // one hook for the whole session, told once which peer it is for
        let id = if broker { cdn_proto::util::hash(&b) } else { cdn_proto::util::hash(&upk(&k)) };
        'all: for _ in 0..c.rng.range(1, 6) {
            let n = c.rng.range(1, 4);
            let mut burst = vec![];
            for _ in 0..n { let raw = arriving(&mut c.rng, &w, broker); let v = verdict(&mut c.rng); burst.push((raw, v)); }
            // the hook is asked about what decodes only
            for (raw, v) in &burst { if msg(raw).is_ok() { hook.0.lock().unwrap().verdicts.push_back(v.clone()); } }
            let what = format!("{me} sent {:?}", burst.iter().map(|(raw, v)| format!("{} [hook: {v:?}]", msg(raw).map_or_else(|_| format!("undecodable {raw:?}"), |m| format!("{m:?}")))).collect::<Vec<_>>());
            c.note(&what);
            for (raw, _) in &burst { f.deliver(raw.clone()); }
            let mut ended = false;
            for (raw, v) in &burst {
                let e = if broker { w.from_broker(&b, raw, v, &mut seen) } else { w.from_user(&k, raw, v, &mut seen) };
                if matches!(e, Ending::Ends) { ended = true; break; }
                // evicted by its own message: the session stops at an unspecified later message
                if !broker && !w.m.users.contains_key(&k) || broker && !w.m.brokers.contains_key(&b) { ended = true; break; }
            }
            w.check(&what).await?;
            let got = hook.0.lock().unwrap().seen.clone();
            vx_check!(got == seen, "{what}: the hook was consulted about {got:?}, the contract requires {seen:?}");
            let who = hook.0.lock().unwrap().who.clone();
            let want: Vec<_> = (0..seen.len()).map(|i| (Some(id), i)).collect();
            vx_check!(who == want, "{what}: the hooks asked were (the peer's identifier, messages seen before) {who:?}, the contract requires {want:?}");
            if ended { vx_check!(!f.alive(), "{what}: the session should have ended but its connection is still held"); break 'all; }
            vx_check!(f.alive(), "{what}: the session should go on but its connection was dropped");
        }
        Ok(())
    })
}
fn c20_user(c: &mut Case) -> Check { session(c, false) }
fn c20_broker(c: &mut Case) -> Check { session(c, true) }

/// C10: who is admitted
fn c10(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng);
        c.note(s);
        let permit = *c.rng.pick(&[0u64, 1, 2, 9, u64::MAX]);
        let key = if c.rng.one_in(6) { vec![7; c.rng.below(4)] } else { ser(c.rng.below(7) as u8) };
        let decodes = is_key(&key);
        let answer = match c.rng.below(8) { 0 => Answer::Fails, 1 => Answer::Is(None), 2 => Answer::Never, _ => Answer::Is(Some(key.clone())) };
        let valid_permit = matches!(answer, Answer::Is(Some(_)));
        w.disc.with(|d| { d.validate.insert(permit, answer.clone()); });
        let t = sent_topics(&mut c.rng);
        let first = match c.rng.below(8) { 0 => other(&mut c.rng, &["permit"]).serialize().unwrap(), 1 => vec![9], _ => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit }).serialize().unwrap() };
        let kind1 = matches!(msg(&first), Ok(Message::AuthenticateWithPermit(_)));
        let second = match c.rng.below(8) { 0 => other(&mut c.rng, &["subscribe"]).serialize().unwrap(), 1 => vec![3, 4], _ => Message::Subscribe(t.clone()).serialize().unwrap() };
        let kind2 = matches!(msg(&second), Ok(Message::Subscribe(_)));
        // when the messages come, in seconds
        let (w1, w2) = (*c.rng.pick(&[0u64, 0, 0, 1, 60]), *c.rng.pick(&[0u64, 0, 0, 1, 60]));
        let in_time = w1 + w2 < 5;
        c.note(format!("a connection sends after {w1} s {:?}; redeeming {permit} answers {answer:?}; after {w2} s more it sends {:?}", msg(&first), msg(&second)));
        let before = w.m.clone();
        let (cn, f) = w.pair("the new connection".into());
        let h = tokio::spawn(w.inner.clone().handle_user_connection(cn));
        settle().await;
        w.tables("before anything was sent")?;
        sleep(w1).await;
        f.deliver(first);
        settle().await;
        w.tables("before the subscription was sent")?;
        sleep(w2).await;
        f.deliver(second);
        sleep(30).await;
        settle().await;
        let log = w.disc.log();
        let val: Vec<_> = log.iter().filter(|x| matches!(x, Call::Validate(..))).collect();
        vx_check!(val.len() == usize::from(kind1 && w1 < 5), "the permit was presented {} times", val.len());
        let admit = kind1 && valid_permit && decodes && kind2 && in_time;
        if admit { w.m.add_user(&key, f.id(), SPAWNED, &pruned(&t)); w.announce(); }
        w.took();
        w.tables(&format!("the login (admit: {admit})"))?;
        vx_check!(f.alive() == admit, "admitted: {admit}, but the connection is held: {}", f.alive());
        vx_check!(h.is_finished(), "the login never ended");
        Ok(())
    })
}
/// C11: who is registered, and in which order it is done
fn c11(c: &mut Case) -> Check {
    let n0 = now();
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng);
        c.note(s);
        let b = some_broker(&mut c.rng, &w.m.id);
        let out = c.rng.flip();
        let (t, fresh) = { let g = c.rng.below(3) > 0; stamp(&mut c.rng, g) };
        let key = if c.rng.one_in(6) { KEY ^ 1 } else { KEY };
        let proof = match c.rng.below(8) {
            0 => (other(&mut c.rng, &["key"]).serialize().unwrap(), false),
            1 => (Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(key), timestamp: t, signature: sig(key, USER, &t.to_le_bytes()) }).serialize().unwrap(), false),
            _ => (Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(key), timestamp: t, signature: sig(key, BROKER, &t.to_le_bytes()) }).serialize().unwrap(), fresh && key == KEY),
        };
        let reply = match c.rng.below(8) {
            0 => (other(&mut c.rng, &["response"]).serialize().unwrap(), false),
            1 => { let p = *c.rng.pick(&[0u64, 2, u64::MAX]); (Message::AuthenticateResponse(AuthenticateResponse { permit: p, context: b.to_string() }).serialize().unwrap(), false) }
            2 => (Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: "noslash".into() }).serialize().unwrap(), false),
            _ => (Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: b.to_string() }).serialize().unwrap(), true),
        };
        let (w1, w2) = (*c.rng.pick(&[0u64, 0, 0, 1, 60]), *c.rng.pick(&[0u64, 0, 0, 1, 60]));
        let in_time = w1 + w2 < 5;
        c.note(format!("{b} {}, it sends its proof {:?} (good: {}) and the reply {:?} (good: {}), the first after {w1} s, the second {w2} s later", if out { "is dialled" } else { "dials" }, msg(&proof.0), proof.1, msg(&reply.0), reply.1));
        let (topics, users) = (w.full_topics(), w.full_users());
        let (cn, f) = w.pair(format!("broker {b}"));
        let h = tokio::spawn(w.inner.clone().handle_broker_connection(cn, out));
        settle().await;
        let ours = |v: &[Out]| v.iter().map(|o| match o { Out::Bytes(b) => msg(b), _ => Err("soft close".into()) }).collect::<Result<Vec<_>, String>>();
        let is_proof = |m: &Message| matches!(m, Message::AuthenticateWithKey(a) if a.public_key == ser(KEY) && a.signature == sig(KEY, BROKER, &a.timestamp.to_le_bytes()));
        let welcome = Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: w.m.id.to_string() });
        let refused = |v: &[Message]| v.len() <= 1 && v.iter().all(|m| matches!(m, Message::AuthenticateResponse(a) if a.permit == 0));
        // one side first
        let o = ours(&f.drain())?;
        if out { vx_check!(o.len() == 1 && is_proof(&o[0]), "we dialled and start with {o:?}"); } else { vx_check!(o.is_empty(), "we were dialled and start with {o:?}"); }
        w.tables("before the first message")?;
        sleep(w1).await;
        let (m1, m2) = if out { (reply, proof) } else { (proof, reply) };
        f.deliver(m1.0);
        settle().await;
        if now() != n0 { return Ok(()); }
        let o = ours(&f.drain())?;
        let go1 = m1.1 && w1 < 5;
        if go1 { if out { vx_check!(o.is_empty(), "we dialled, the peer replied and we sent {o:?}"); } else { vx_check!(o.len() == 2 && o[0] == welcome && is_proof(&o[1]), "we were dialled, the peer proved itself and we sent {o:?}"); } }
        else { vx_check!(refused(&o) , "the first message was no good or late, yet we sent {o:?}"); }
        w.tables("between the two directions")?;
        sleep(w2).await;
        if now() != n0 { return Ok(()); }
        f.deliver(m2.0);
        settle().await;
        let go2 = go1 && m2.1 && in_time;
        let v = f.drain();
        if go2 { w.m.add_broker(&b, f.id(), SPAWNED); }
        if now() != n0 { return Ok(()); }
        if go2 {
            if out { vx_check!(v.first().map(sync) == Some(Ok(Sync::Other(welcome.clone()))), "we dialled, the peer proved itself and we sent {:?}", ours(&v)); }
        } else { let o = ours(&v)?; vx_check!(refused(&o), "the login is not acceptable, yet we sent {o:?}"); }
        sleep(30).await;
        settle().await;
        vx_check!(h.is_finished(), "the login never ended");
        w.took();
        w.tables(&format!("the login (register: {go2})"))?;
        vx_check!(f.alive() == go2, "registered: {go2}, but the connection is held: {}", f.alive());
        Ok(())
    })
}

// ---------- the periodic tasks
/// C19
fn c19(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(c.rng.below(8)));
        let s = w.populate(&mut c.rng);
        c.note(s);
        let h = tokio::spawn(w.inner.clone().run_whitelist_task());
        settle().await;
        for _ in 0..c.rng.range(1, 3) {
            for _ in 0..c.rng.below(3) { let s = w.change(&mut c.rng); c.note(s); }
            let users: Vec<Key> = w.m.users.keys().cloned().collect();
            let mut say = BTreeMap::new();
            for k in &users { say.insert(k.clone(), c.rng.below(3)); }
            c.note(format!("the whitelist answers (0: not, 1: is, 2: fails) {say:?}"));
            w.disc.with(|d| { d.log.clear(); d.white = say.iter().map(|(k, a)| (k.clone(), match a { 0 => Answer::Is(false), 1 => Answer::Is(true), _ => Answer::Fails })).collect(); });
            sleep(60).await;
            settle().await;
            let mut asked: Vec<Key> = w.disc.log().into_iter().filter_map(|x| if let Call::White(k) = x { Some(k) } else { None }).collect();
            asked.sort();
            asked.dedup();
            vx_check!(asked == users, "asked was about {asked:?}, connected are {users:?}");
            for k in &users { if say[k] == 0 { w.m.remove_user(k); } }
            w.check("the whitelist sweep").await?;
        }
        h.abort();
        Ok(())
    })
}
/// C18
fn c18(c: &mut Case) -> Check {
    net_clear();
    block(async {
        let any = |r: &mut Rng| BrokerIdentifier { public_advertise_endpoint: format!("b{}", r.below(4)), private_advertise_endpoint: format!("p{}", r.below(4)) };
        let me = any(&mut c.rng);
        let mut w = W::new(me.clone());
        let mut s = format!("we are {me}");
        for u in 0..c.rng.below(5) { w.user(&ser(u as u8), &[]); s += &format!("; user {u}"); }
        for _ in 0..c.rng.below(3) { let b = any(&mut c.rng); if b != me { w.broker(&b, &[]); s += &format!("; connected to {b}"); } }
        c.note(s);
        let mut at = 0;
        let mut dialled = 0;
        w.disc.with(|d| d.others.push_back(Answer::Is(HashSet::new())));
        let h = tokio::spawn(w.inner.clone().run_heartbeat_task());
        for round in 0..c.rng.range(1, 5) {
            let mut set: HashSet<BrokerIdentifier> = HashSet::new();
            for _ in 0..c.rng.below(7) { let b = any(&mut c.rng); if b != me { set.insert(b); } }
            let kind = if round == 0 { 3 } else { c.rng.below(6) };
            let (others, beat) = match kind { 0 => (Answer::Fails, c.rng.below(3)), 1 => (Answer::Never, c.rng.below(3)), _ => (Answer::Is(set.clone()), 0) };
            let want: Vec<BrokerIdentifier> = if kind > 1 { let mut v: Vec<_> = set.iter().filter(|b| **b >= me && !w.m.brokers.contains_key(*b)).cloned().collect(); v.sort(); v } else { vec![] };
            c.note(format!("round {round}: {} users, the service answers {others:?} (publishing: {beat})", w.m.users.len()));
            // what the dials lead to
            let mut joins = vec![];
            for b in &want {
                let e = &b.private_advertise_endpoint;
                if want.iter().filter(|x| x.private_advertise_endpoint == *e).count() > 1 { continue; }
                match c.rng.below(4) {
                    0 => net_put(e, Dial::Hang),
                    1 => {
                        let f = net_pair(e);
                        w.name.insert(f.id(), format!("broker {b}"));
                        f.deliver(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: b.to_string() }).serialize().unwrap());
                        f.deliver(broker_key().serialize().unwrap());
                        c.note(format!("{b} accepts"));
                        joins.push((b.clone(), f));
                    }
                    _ => net_put(e, Dial::Refuse),
                }
            }
            w.disc.with(|d| { d.others.clear(); d.beats.clear(); d.log.clear(); d.others.push_back(others); match beat { 1 => d.beats.push_back(Answer::Fails), 2 => d.beats.push_back(Answer::Never), _ => {} } });
            dialled = net_dials().len();
            // until the answer was taken
            let mut waited = 0;
            while !w.disc.with(|d| d.others.is_empty()) { sleep(1).await; waited += 1; vx_check!(waited < 40, "the service was not asked within 40 s"); }
            settle().await;
            let log = w.disc.log();
            let beats: Vec<_> = log.iter().filter_map(|x| if let Call::Heartbeat(n, _) = x { Some(*n) } else { None }).collect();
            let first = log.iter().position(|x| *x == Call::Others).unwrap_or(0);
            vx_check!(log[..first].iter().any(|x| matches!(x, Call::Heartbeat(..))) || round == 0 && false, "the service was asked for the others before publishing: {log:?}");
            vx_check!(beats.iter().all(|n| *n == w.m.users.len() as u64), "published was {beats:?}, connected are {}", w.m.users.len());
            sleep(4).await;
            let mut got = net_dials()[dialled..].to_vec();
            got.sort();
            let mut exp: Vec<String> = want.iter().map(|b| b.private_advertise_endpoint.clone()).collect();
            exp.sort();
            vx_check!(got == exp, "round {round}: dialled was {got:?}, the contract requires {exp:?}");
            for (b, f) in joins { w.m.add_broker(&b, f.id(), SPAWNED); w.far.push(f); }
            w.took();
            if now() > 0 { w.tables(&format!("round {round}"))?; }
            for _ in 0..c.rng.below(3) { let k = ser(c.rng.below(5) as u8); if c.rng.flip() { w.user(&k, &[]); } else { w.inner.connections.write().remove_user(upk(&k), "test"); w.m.remove_user(&k); } }
            if c.rng.one_in(3) { if let Some(b) = w.m.brokers.keys().next().cloned() { w.inner.connections.write().remove_broker(&b, "test"); w.m.remove_broker(&b); c.note(format!("{b} leaves")); } }
        }
        h.abort();
        net_clear();
        Ok(())
    })
}
// ---------- C29
/// what arrives at a listener: the connection's set-up, whether it is to be admitted and as what
struct Arrived { what: String, admit: bool, far: Option<Far>, key: Key, id: BrokerIdentifier, after: u64 }
fn arrive(w: &mut W, r: &mut Rng, door: &Door, broker: bool, i: usize, calm: bool) -> Arrived {
    let (key, id) = (vec![0xAA, 10 + i as u8], bid(20 + i));
    let (c, f) = w.pair(format!("arrival {i}"));
    let kind = if calm { 0 } else { r.below(9) };
    let mut good = || {
        if broker {
            for m in [broker_key(), Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: id.to_string() })] { f.deliver(m.serialize().unwrap()); }
        } else {
            let permit = 500 + i as u64;
            w.disc.with(|d| { d.validate.insert(permit, Answer::Is(Some(key.clone()))); });
            for m in [Message::AuthenticateWithPermit(AuthenticateWithPermit { permit }), Message::Subscribe(vec![1])] { f.deliver(m.serialize().unwrap()); }
        }
    };
    let (what, setup, admit, after) = match kind {
        0..=2 => { good(); ("is fine", Setup::Give(c), true, 0) }
        3 => { good(); ("takes 3 s to set up", Setup::Slow(3, c), true, 3) }
        4 => ("hangs while it is set up", Setup::Hang, false, 0),
        5 => ("fails to be set up", Setup::Fail, false, 0),
        6 => ("panics while it is set up", Setup::Panic, false, 0),
        7 => ("is set up and never sends a byte", Setup::Give(c), false, 0),
        _ => { f.deliver(vec![1, 2, 3]); ("is set up and sends garbage", Setup::Give(c), false, 0) }
    };
    door.arrive(setup);
    Arrived { what: format!("arrival {i} {what}"), admit, far: Some(f), key, id, after }
}
fn admitted(w: &W, broker: bool, a: &Arrived) -> bool {
    let c = w.inner.connections.read();
    if broker { c.all_brokers().contains(&a.id) } else { c.all_users().iter().any(|u| **u == a.key) }
}
/// the limiter a connection was set up with is the server's own
async fn own_limiter(inner: &Limiter, got: &[Limiter]) -> Check {
    for l in got {
        vx_check!(l.connection_message_pool_size() == Some(7), "a connection was set up with a queue of size {:?}, the server's limiter says 7", l.connection_message_pool_size());
        let Some(all) = tokio::time::timeout(Duration::from_secs(1), l.allocate_message_bytes(1000)).await.ok().flatten() else { return Err("a connection was set up with a limiter that is not the server's".into()) };
        vx_check!(tokio::time::timeout(Duration::from_secs(1), inner.allocate_message_bytes(1)).await.is_err(), "a connection was set up with a memory pool of its own: the server's pool is not drawn on");
        drop(all);
    }
    Ok(())
}
fn c29(c: &mut Case, broker: bool) -> Check {
    block(async {
        let mut w = W::new(bid(0));
        Arc::get_mut(&mut w.inner).unwrap().limiter = Limiter::new(Some(1000), Some(7));
        let (door, l) = door();
        let task = if broker { tokio::spawn(w.inner.clone().run_broker_listener_task(l)) } else { tokio::spawn(w.inner.clone().run_user_listener_task(l)) };
        let many = c.rng.one_in(12);
        let n = if many { 150 } else { c.rng.range(1, 8) };
        let hung = if many && c.rng.one_in(4) { 1500 } else { 0 };
        if hung > 0 { c.note(format!("{hung} connections arrive that hang while they are set up, then:")); }
        for _ in 0..hung { door.arrive(Setup::Hang); }
        let mut v = vec![];
        for i in 0..n {
            let a = arrive(&mut w, &mut c.rng, &door, broker, i, false);
            if !many { c.note(&a.what); }
            v.push(a);
            if c.rng.one_in(4) { settle().await; }
        }
        if many { c.note(format!("{n} connections arrive")); }
        settle().await;
        settle().await;
        for a in &v { if a.after == 0 { vx_check!(admitted(&w, broker, a) == a.admit, "{} arrivals, {}: admitted at once: {}", n, a.what, !a.admit); } }
        let errs = c.rng.one_in(3);
        sleep(4).await;
        for a in &v { vx_check!(admitted(&w, broker, a) == a.admit, "{} arrivals, {}: admitted after 4 s: {}", n, a.what, !a.admit); }
        vx_check!(!task.is_finished(), "the listener ended though accept never failed");
        sleep(if c.rng.one_in(4) { 2_000 } else { 20 }).await;
        let a = arrive(&mut w, &mut c.rng, &door, broker, 170, true);
        settle().await;
        vx_check!(admitted(&w, broker, &a), "a connection that arrived later was not served");
        let got = door.limiters.lock().unwrap().clone();
        vx_check!(got.len() == hung + n + 1, "{} connections arrived, {} were set up", hung + n + 1, got.len());
        own_limiter(&w.inner.limiter, &got[got.len().saturating_sub(20)..]).await?;
        if errs {
            c.note("then accept fails once and another connection arrives");
            door.fail();
            settle().await;
            let a = arrive(&mut w, &mut c.rng, &door, broker, 171, true);
            sleep(30).await;
            vx_check!(task.is_finished() || admitted(&w, broker, &a), "after accept failed the listener neither ended nor serves");
        }
        Ok(())
    })
}
fn c29_users(c: &mut Case) -> Check { c29(c, false) }
fn c29_brokers(c: &mut Case) -> Check { c29(c, true) }
/// the whole broker
fn c29_start(c: &mut Case) -> Check {
    block(async {
        let mut w = W::new(bid(0));
        let ((udoor, ul), (bdoor, bl)) = (door(), door());
        let broker = crate::Broker::<FakeRun> { inner: w.inner.clone(), user_listener: ul, broker_listener: bl, metrics_bind_endpoint: None };
        w.disc.with(|d| for _ in 0..40 { d.others.push_back(Answer::Is(HashSet::new())); });
        let mut task = tokio::spawn(broker.start());
        settle().await;
        let b = arrive(&mut w, &mut c.rng, &bdoor, true, 0, true);
        let u = arrive(&mut w, &mut c.rng, &udoor, false, 1, true);
        let v = arrive(&mut w, &mut c.rng, &udoor, false, 2, true);
        settle().await;
        vx_check!(admitted(&w, true, &b), "a broker that connected to the started broker was not admitted");
        vx_check!(admitted(&w, false, &u) && admitted(&w, false, &v), "a user that connected to the started broker was not admitted");
        b.far.as_ref().unwrap().drain();
        let u2 = arrive(&mut w, &mut c.rng, &udoor, false, 3, true);
        w.disc.with(|d| { d.white.insert(u.key.clone(), Answer::Is(false)); });
        sleep(130).await;
        settle().await;
        vx_check!(!task.is_finished(), "the broker ended by itself");
        vx_check!(admitted(&w, false, &u2) && admitted(&w, false, &v), "a whitelisted user of the started broker is gone");
        let log = w.disc.log();
        vx_check!(log.iter().any(|x| matches!(x, Call::Heartbeat(..))), "the started broker sent no heartbeat in 130 s");
        vx_check!(!admitted(&w, false, &u), "the started broker did not remove a user that left the whitelist in 130 s");
        let got: Vec<Sync> = b.far.as_ref().unwrap().drain().iter().map(sync).collect::<Result<_, _>>()?;
        vx_check!(got.iter().any(|s| matches!(s, Sync::Users(..))), "the started broker told its peer about no user in 130 s: {got:?}");
        let end = c.rng.below(5);
        match end {
            0 => { c.note("the user listener fails"); udoor.fail(); }
            1 => { c.note("the broker listener fails"); bdoor.fail(); }
            3 => { c.note("the heartbeat dies"); w.disc.with(|d| { d.others.clear(); d.beats.clear(); d.beats.push_back(Answer::Dies); }); sleep(130).await; }
            4 => { c.note("the whitelist sweep dies"); w.disc.with(|d| { d.white.insert(v.key.clone(), Answer::Dies); }); sleep(130).await; }
            _ => { c.note("the broker is stopped"); task.abort(); }
        }
        sleep(1).await;
        if end < 2 && !task.is_finished() {
            let (d, br) = if end == 0 { (&udoor, false) } else { (&bdoor, true) };
            let a = arrive(&mut w, &mut c.rng, d, br, 7, true);
            sleep(20).await;
            vx_check!(admitted(&w, br, &a), "a listener ended and the broker went on without it");
            return Ok(());
        }
        if end > 2 { vx_check!(task.is_finished(), "one of the broker's tasks died and the broker goes on without it"); }
        let r = (&mut task).await;
        if end != 2 { vx_check!(matches!(r, Ok(Err(_))), "one of the broker's tasks ended and start returned {:?}", r.map(|x| x.map_err(|e| e.to_string())).map_err(|e| e.to_string())); }
        settle().await;
        let n = w.disc.log().len();
        b.far.as_ref().unwrap().drain();
        let (lc, _lf) = w.pair("a later user".into());
        w.inner.connections.write().add_user(&Arc::new(vec![0xAA, 199]), lc, &[2], tokio::spawn(std::future::pending::<()>()).abort_handle());
        let x = arrive(&mut w, &mut c.rng, if end == 0 { &bdoor } else { &udoor }, end == 0, 8, true);
        sleep(200).await;
        let log = w.disc.log()[n..].iter().filter(|c| matches!(c, Call::Heartbeat(..) | Call::White(..))).count();
        let told = b.far.as_ref().unwrap().drain();
        vx_check!(told.is_empty(), "the broker ended, but it went on telling its peer about its users: {told:?}");
        vx_check!(log == 0 && !admitted(&w, end == 0, &x), "the broker ended, but some of its tasks went on ({log} calls to discovery in 200 s, a new connection was served: {})", admitted(&w, end == 0, &x));
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    let mut v = vec![
        Prop { id: "C04", name: "broadcasts", quick: 4000, run: c04 },
        Prop { id: "C04", name: "crowded broadcasts", quick: 10, run: c04_crowd },
        Prop { id: "C21", name: "crowded syncs", quick: 8, run: c21_crowd },
        Prop { id: "C22", name: "crowded sends", quick: 8, run: c22_crowd },
        Prop { id: "C19", name: "a crowded sweep", quick: 6, run: c19_crowd },
        Prop { id: "C18", name: "a crowded heartbeat", quick: 8, run: c18_crowd },
        Prop { id: "C05", name: "direct messages", quick: 4000, run: c05 },
        Prop { id: "C22", name: "sends", quick: 4000, run: c22 },
        Prop { id: "C21", name: "syncs", quick: 3000, run: c21 },
        Prop { id: "C21", name: "the sync task", quick: 1500, run: c21_task },
        Prop { id: "C21", name: "a broker joins", quick: 1500, run: c21_join },
        Prop { id: "C20", name: "user sessions", quick: 4000, run: c20_user },
        Prop { id: "C20", name: "broker sessions", quick: 4000, run: c20_broker },
        Prop { id: "C16", name: "pruning in user sessions", quick: 4000, run: c20_user },
        Prop { id: "C10", name: "admission", quick: 3000, run: c10 },
        Prop { id: "C11", name: "registration", quick: 3000, run: c11 },
        Prop { id: "C18", name: "heartbeats", quick: 2000, run: c18 },
        Prop { id: "C19", name: "whitelist sweeps", quick: 2000, run: c19 },
        Prop { id: "C29", name: "the user listener", quick: 800, run: c29_users },
        Prop { id: "C29", name: "the broker listener", quick: 800, run: c29_brokers },
        Prop { id: "C29", name: "a started broker", quick: 200, run: c29_start },
    ];
    #[cfg(feature = "strong-consistency")]
    v.push(Prop { id: "C21", name: "a user is admitted", quick: 1500, run: c21_admit });
    v
}
