//! Runtime check of the contracts of the discovery store kept in SQLite (C24, C27, C28): the real `Embedded` on a scratch file.
use crate::connection::UserPublicKey;
use crate::discovery::{embedded::Embedded, BrokerIdentifier, DiscoveryClient};
use crate::verif_common::{Case, Check, Prop, Rng};
use crate::vx_check;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// A scratch folder, removed at the end of the case
struct Scratch(std::path::PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    fn new() -> Result<Self, String> {
        let base = ["/dev/shm", "/tmp"].iter().map(std::path::PathBuf::from).find(|p| { let t = p.join(format!("verif-probe-{}", std::process::id())); let ok = std::fs::create_dir(&t).is_ok(); let _ = std::fs::remove_dir(&t); ok }).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("verif-store-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&p).map_err(|e| format!("scratch folder: {e}"))?;
        Ok(Scratch(p))
    }
    fn db(&self) -> String { self.0.join("db.sqlite").to_string_lossy().into_owned() }
}
impl Drop for Scratch { fn drop(&mut self) { for n in ["db.sqlite", "db.sqlite-journal", "db.sqlite-wal", "db.sqlite-shm"] { let _ = std::fs::remove_file(self.0.join(n)); } let _ = std::fs::remove_dir(&self.0); } }

/// Real clock, one thread or several
fn run<F: std::future::Future<Output = Check>>(threads: usize, f: F) -> Check {
    let rt = if threads > 1 { tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build() } else { tokio::runtime::Builder::new_current_thread().enable_all().build() }.map_err(|e| format!("runtime: {e}"))?;
    let r = rt.block_on(async { match tokio::time::timeout(Duration::from_secs(100), f).await { Ok(r) => r, Err(_) => Err("the operation never finished".into()) } });
    rt.shutdown_background();
    r
}
fn broker(i: usize) -> BrokerIdentifier { BrokerIdentifier { public_advertise_endpoint: format!("pub{i}.example:17{i}8"), private_advertise_endpoint: format!("priv{}.example:17{i}9", i / 2) } }
async fn open(path: &str, who: Option<BrokerIdentifier>) -> Result<Embedded, String> { Embedded::new(path.to_string(), who).await.map_err(|e| format!("opening the store failed: {e}")) }
/// How long something lasts, and so until when it surely holds and from when it surely does not
fn life(r: &mut Rng) -> Duration { match r.below(5) { 0 => Duration::ZERO, 1 => Duration::from_millis(r.range(1, 30) as u64), 2 => Duration::from_millis(r.range(900, 1100) as u64), _ => Duration::from_secs(r.range(5, 5000) as u64) } }
#[derive(Clone, Debug)]
struct Span { sure: Instant, over: Instant }
const SLACK: Duration = Duration::from_millis(3);
fn span(t0: Instant, t1: Instant, l: Duration) -> Span { Span { sure: t0 + l.saturating_sub(SLACK), over: t1 + l + SLACK } }
/// What may be seen of it between a and b: None if both are possible
fn seen(s: &Span, a: Instant, b: Instant) -> Option<bool> { if b < s.sure { Some(true) } else if a > s.over { Some(false) } else { None } }

/// Issue and redeem in any order, one store opened several times
fn permits(c: &mut Case) -> Check {
    let mut r = c.rng.clone();
    let mut log = vec![];
    let res = run(1, async {
        let dir = Scratch::new()?;
        let mut dbs = vec![open(&dir.db(), Some(broker(0))).await?, open(&dir.db(), None).await?];
        let mut held: Vec<(usize, u64, Vec<u8>, Span, bool)> = vec![];
        for _ in 0..r.range(4, 24) {
            let k = r.below(2);
            match r.below(10) {
                0..=3 => {
                    let (b, l, key) = (r.below(4), life(&mut r), r.bytes(40));
                    let t0 = Instant::now();
                    let p = dbs[k].issue_permit(&broker(b), l, key.clone()).await;
                    let t1 = Instant::now();
                    log.push(format!("issue for broker {b}, key {key:?}, life {l:?}: {p:?}"));
                    match p {
                        Ok(p) => { if held.iter().any(|h| h.1 == p && !h.4 && t0 < h.3.sure) { return Err(format!("permit {p} was issued while it was still held by another")); } held.retain(|h| h.1 != p); held.push((b, p, key, span(t0, t1, l), false)); }
                        Err(e) => return Err(format!("issuing a permit failed: {e}")),
                    }
                }
                4 => { let d = Duration::from_millis(r.below(40) as u64); log.push(format!("wait {d:?}")); tokio::time::sleep(d).await; }
                _ => {
                    let any = if held.is_empty() || r.one_in(6) { None } else { Some(r.below(held.len())) };
                    let (b, p) = match any { Some(i) => (if r.one_in(4) { r.below(4) } else { held[i].0 }, held[i].1 + if r.one_in(12) { 1 << 32 } else { 0 }), None => (r.below(4), r.next() >> r.below(64)) };
                    let t0 = Instant::now();
                    let got = dbs[k].validate_permit(&broker(b), p).await;
                    let t1 = Instant::now();
                    log.push(format!("redeem {p} at broker {b}: {got:?}"));
                    let h = held.iter_mut().find(|h| h.0 == b && h.1 == p && !h.4);
                    match (got, h) {
                        (Ok(Some(k)), None) => return Err(format!("permit {p} was redeemed at broker {b}, which had no such permit (it yields {k:?})")),
                        (Ok(Some(k)), Some(h)) => { if k != h.2 { return Err(format!("permit {p} was issued to {:?} but yields {k:?}", h.2)); } if seen(&h.3, t0, t1) == Some(false) { return Err(format!("permit {p} was redeemed after it had run out")); } h.4 = true; }
                        (Ok(None), Some(h)) => if seen(&h.3, t0, t1) == Some(true) { return Err(format!("permit {p} is good at broker {b}, but was refused")); },
                        (Ok(None), None) => {}
                        (Err(e), _) => if p <= u64::from(u32::MAX) { return Err(format!("redeeming {p} failed: {e}")); },
                    }
                }
            }
        }
        Ok(())
    });
    for l in log { c.note(l); }
    res
}
/// One permit, redeemed by many at the same time
fn race(c: &mut Case) -> Check {
    let n = c.rng.range(2, 6);
    let key = c.rng.bytes(40);
    c.note(format!("one permit for broker 1, redeemed by {n} at the same time"));
    run(4, async move {
        let dir = Scratch::new()?;
        let mut db = open(&dir.db(), None).await?;
        let p = db.issue_permit(&broker(1), Duration::from_secs(1000), key.clone()).await.map_err(|e| format!("issuing a permit failed: {e}"))?;
        let gate = Arc::new(tokio::sync::Barrier::new(n));
        let mut hs = vec![];
        for i in 0..n {
            let mut d = if i % 2 == 0 { db.clone() } else { open(&dir.db(), None).await? };
            let g = gate.clone();
            hs.push(tokio::spawn(async move { let _ = d.validate_permit(&broker(2), p).await; g.wait().await; d.validate_permit(&broker(1), p).await }));
        }
        let (mut yes, mut errs) = (0, 0);
        for h in hs { match h.await { Ok(Ok(Some(k))) => { vx_check!(k == key, "the permit was issued to {key:?} but yields {k:?}"); yes += 1; } Ok(Ok(None)) => {} _ => errs += 1 } }
        vx_check!(yes <= 1, "one permit was redeemed {yes} times");
        vx_check!(yes == 1 || errs > 0, "a good permit was refused to all {n}");
        Ok(())
    })
}
/// Heartbeats, listings and the choice of a broker
fn registry(c: &mut Case) -> Check {
    let mut r = c.rng.clone();
    let mut log = vec![];
    let res = run(1, async {
        let dir = Scratch::new()?;
        let n = r.range(2, 5);
        let mut dbs = vec![];
        for i in 0..n { dbs.push(open(&dir.db(), Some(broker(i))).await?); }
        let mut marshal = open(&dir.db(), None).await?;
        let mut reg: HashMap<usize, (u64, Span)> = HashMap::new();
        let mut pers: Vec<(usize, u64, Span)> = vec![];
        for _ in 0..r.range(5, 25) {
            match r.below(12) {
                0..=3 => {
                    let (i, l) = (r.below(n), life(&mut r));
                    let m = match r.below(8) { 0 => 0, 1 => 1 << r.below(33), 2 => r.range(0, 10000) as u64, _ => r.below(5) as u64 };
                    let t0 = Instant::now();
                    let ok = dbs[i].perform_heartbeat(m, l).await;
                    let t1 = Instant::now();
                    log.push(format!("heartbeat of broker {i}: {m} connections, for {l:?}: {ok:?}"));
                    match ok { Ok(()) => { reg.insert(i, (m, span(t0, t1, l))); } Err(e) => if m <= u64::from(u32::MAX) { return Err(format!("the heartbeat failed: {e}")); } }
                }
                4 | 5 => {
                    let (i, l) = (r.below(n), life(&mut r));
                    let t0 = Instant::now();
                    let p = marshal.issue_permit(&broker(i), l, vec![1]).await.map_err(|e| format!("issuing a permit failed: {e}"))?;
                    log.push(format!("permit {p} for broker {i}, for {l:?}"));
                    pers.push((i, p, span(t0, Instant::now(), l)));
                }
                6 => if !pers.is_empty() {
                    let k = r.below(pers.len());
                    let (i, p, s) = pers.remove(k);
                    let t0 = Instant::now();
                    let g = marshal.validate_permit(&broker(i), p).await.map_err(|e| format!("redeeming a permit failed: {e}"))?;
                    log.push(format!("permit {p} redeemed: {}", g.is_some()));
                    if g.is_none() && seen(&s, t0, Instant::now()) == Some(true) { return Err(format!("permit {p} is good but was refused")); }
                },
                7 => { let d = Duration::from_millis(r.below(40) as u64); log.push(format!("wait {d:?}")); tokio::time::sleep(d).await; }
                8 | 9 => {
                    let i = r.below(n);
                    let t0 = Instant::now();
                    let got = dbs[i].get_other_brokers().await.map_err(|e| format!("listing the brokers failed: {e}"))?;
                    let t1 = Instant::now();
                    log.push(format!("others than broker {i}: {got:?}"));
                    for j in 0..n {
                        let may = if j == i { Some(false) } else { reg.get(&j).map_or(Some(false), |x| seen(&x.1, t0, t1)) };
                        let is = got.contains(&broker(j));
                        if may == Some(!is) { return Err(format!("broker {j} is {} in the list of brokers other than {i}", if is { "wrongly" } else { "not" })); }
                    }
                    if let Some(x) = got.iter().find(|x| !(0..n).any(|j| broker(j) == **x)) { return Err(format!("{x:?} is listed but was never registered")); }
                }
                _ => {
                    let t0 = Instant::now();
                    let got = marshal.get_with_least_connections().await;
                    let t1 = Instant::now();
                    log.push(format!("least loaded: {got:?}"));
                    // of each broker, the least and the greatest load it can have been seen with
                    let load = |j: usize| -> Option<(u64, u64, bool)> {
                        let (m, s) = reg.get(&j)?;
                        let here = seen(s, t0, t1);
                        if here == Some(false) { return None; }
                        let sure = pers.iter().filter(|p| p.0 == j && seen(&p.2, t0, t1) == Some(true)).count() as u64;
                        let maybe = pers.iter().filter(|p| p.0 == j && seen(&p.2, t0, t1) != Some(false)).count() as u64;
                        Some((m + sure, m + maybe, here == Some(true)))
                    };
                    let all: Vec<(usize, (u64, u64, bool))> = (0..n).filter_map(|j| Some((j, load(j)?))).collect();
                    match got {
                        Ok(b) => {
                            let Some(x) = all.iter().find(|x| broker(x.0) == b) else { return Err(format!("{b:?} was chosen, which is not registered")); };
                            if let Some(y) = all.iter().find(|y| y.1 .2 && y.1 .1 < x.1 .0) { return Err(format!("broker {} was chosen with a load of at least {}, but broker {} had at most {}", x.0, x.1 .0, y.0, y.1 .1)); }
                        }
                        Err(e) => if all.iter().any(|x| x.1 .2) { return Err(format!("no broker was found: {e}")); },
                    }
                }
            }
        }
        Ok(())
    });
    for l in log { c.note(l); }
    res
}
fn key(i: usize) -> UserPublicKey { UserPublicKey::from(match i { 0 => vec![], 1 => vec![0], 2 => vec![0, 0], i => vec![i as u8; i] }) }
/// Lists set and asked for, in any order
fn whitelist(c: &mut Case) -> Check {
    let mut r = c.rng.clone();
    let mut log = vec![];
    let res = run(1, async {
        let dir = Scratch::new()?;
        let mut dbs = vec![open(&dir.db(), Some(broker(0))).await?, open(&dir.db(), None).await?];
        let mut list: Option<BTreeSet<usize>> = None;
        for _ in 0..r.range(3, 14) {
            let k = r.below(2);
            if r.one_in(3) {
                let mut l: Vec<usize> = (0..9).filter(|_| r.one_in(3)).collect();
                // (what an empty list means is left open: the two stores disagree)
                if l.is_empty() { l.push(r.below(9)); }
                // (a long list: other users before, between or after these)
                let long = if r.one_in(5) { [120, 700, 1100, 2500][r.below(4)] } else { 0 };
                if long > 0 {
                    let at = [0, l.len(), r.below(l.len() + 1)][r.below(3)];
                    l.splice(at..at, 100..100 + long);
                }
                if r.one_in(if long > 0 { 3 } else { 6 }) { let x = l[0]; l.push(x); }
                let repeated = l.iter().collect::<BTreeSet<_>>().len() < l.len();
                let ok = dbs[k].set_whitelist(l.iter().map(|i| key(*i)).collect()).await;
                let shown: Vec<_> = l.iter().filter(|i| **i < 100).collect();
                log.push(format!("set the list to {shown:?} and {long} others (of {} entries): {ok:?}", l.len()));
                match ok { Ok(()) => list = Some(l.into_iter().collect()), Err(e) => if !repeated { return Err(format!("setting the list failed: {e}")); } }
            } else {
                let u = r.below(9);
                let got = dbs[k].check_whitelist(&key(u)).await.map_err(|e| format!("asking for the list failed: {e}"))?;
                log.push(format!("is {u} allowed: {got}"));
                let want = list.as_ref().map_or(true, |l| l.contains(&u));
                if got != want { return Err(format!("user {u} is {}, the list is {list:?} (and others)", if got { "allowed" } else { "refused" }, list = list.as_ref().map(|l| l.iter().filter(|i| **i < 100).collect::<Vec<_>>()))); }
            }
        }
        Ok(())
    });
    for l in log { c.note(l); }
    res
}
/// The list is replaced while it is asked for
fn replaced(c: &mut Case) -> Check {
    let rounds = c.rng.range(3, 10);
    let others = if c.rng.one_in(4) { 1200 } else { 0 };
    c.note(format!("the list is replaced {rounds} times, {others} other users and user 5 always on it and user 6 never"));
    run(4, async move {
        let dir = Scratch::new()?;
        let mut a = open(&dir.db(), None).await?;
        let list = move |i: usize| {
            let mut l: Vec<_> = (100..100 + others).map(key).collect();
            l.extend([key(if i % 2 == 0 { 7 } else { 8 }), key(5)]);
            l
        };
        a.set_whitelist(list(0)).await.map_err(|e| format!("setting the list failed: {e}"))?;
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let mut hs = vec![];
        for i in 0..2 {
            let mut d = if i == 0 { a.clone() } else { open(&dir.db(), None).await? };
            let done = done.clone();
            hs.push(tokio::spawn(async move {
                while !done.load(Ordering::SeqCst) {
                    if let Ok(x) = d.check_whitelist(&key(5)).await { vx_check!(x, "user 5 was refused, though every list had it"); }
                    if let Ok(x) = d.check_whitelist(&key(6)).await { vx_check!(!x, "user 6 was allowed, though no list had it"); }
                }
                Ok(())
            }));
        }
        for i in 0..rounds { let _ = a.set_whitelist(list(i)).await; tokio::task::yield_now().await; }
        done.store(true, Ordering::SeqCst);
        for h in hs { h.await.map_err(|e| format!("{e}"))??; }
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C24", name: "permits against a reference store", quick: 250, run: permits },
        Prop { id: "C24", name: "one permit redeemed by many", quick: 60, run: race },
        Prop { id: "C27", name: "registry against a reference store", quick: 250, run: registry },
        Prop { id: "C28", name: "whitelist against a reference list", quick: 250, run: whitelist },
        Prop { id: "C28", name: "the list replaced while asked for", quick: 60, run: replaced },
    ]
}
