//! Runtime check of the contracts of the discovery store kept in Redis (C24, C27, C28): the real `Redis` against a server
//! of ours on the loopback, which keeps its own clock and carries out the commands as KeyDB documents them.
use crate::connection::UserPublicKey;
use crate::discovery::{redis::Redis, BrokerIdentifier, DiscoveryClient};
use crate::verif_common::{Case, Check, Prop, Rng};
use crate::vx_check;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Bytes = Vec<u8>;
#[derive(Clone, Debug)]
enum Ent { Str(Bytes), Set(BTreeMap<Bytes, Option<u64>>) }
/// What the server holds, and its clock in milliseconds
#[derive(Default)]
struct Db { now: u64, keys: BTreeMap<Bytes, (Ent, Option<u64>)>, odd: bool }
enum Re { Ok, Queued, Nil, Int(i64), Bulk(Bytes), Many(Vec<Re>), Err(&'static str) }
impl Re {
    fn put(&self, o: &mut Bytes) {
        match self {
            Re::Ok => o.extend(b"+OK\r\n"), Re::Queued => o.extend(b"+QUEUED\r\n"), Re::Nil => o.extend(b"$-1\r\n"),
            Re::Int(i) => o.extend(format!(":{i}\r\n").bytes()), Re::Err(e) => o.extend(format!("-{e}\r\n").bytes()),
            Re::Bulk(b) => { o.extend(format!("${}\r\n", b.len()).bytes()); o.extend(b); o.extend(b"\r\n"); }
            Re::Many(v) => { o.extend(format!("*{}\r\n", v.len()).bytes()); for x in v { x.put(o); } }
        }
    }
}
const WRONG: Re = Re::Err("WRONGTYPE Operation against a key holding the wrong kind of value");
const ARGS: Re = Re::Err("ERR wrong number of arguments");
fn num(b: &[u8]) -> Option<u64> { std::str::from_utf8(b).ok()?.parse().ok() }
impl Db {
    /// what has run out vanishes
    fn sweep(&mut self) {
        let now = self.now;
        let good = |u: &Option<u64>| u.map_or(true, |x| now < x);
        for (e, _) in self.keys.values_mut() { if let Ent::Set(s) = e { s.retain(|_, u| good(u)); } }
        self.keys.retain(|_, (e, u)| good(u) && !matches!(e, Ent::Set(s) if s.is_empty()));
    }
    fn set(&self, k: &[u8]) -> Result<BTreeMap<Bytes, Option<u64>>, Re> { match self.keys.get(k) { None => Ok(BTreeMap::new()), Some((Ent::Set(s), _)) => Ok(s.clone()), _ => Err(WRONG) } }
    fn run(&mut self, cs: &[Vec<Bytes>]) -> Vec<Re> { self.sweep(); cs.iter().map(|c| self.carry_out(c).unwrap_or_else(|e| e)).collect() }
    /// the set at k, made if need be
    fn open(&mut self, k: &[u8]) -> Result<&mut BTreeMap<Bytes, Option<u64>>, Re> { match &mut self.keys.entry(k.to_vec()).or_insert_with(|| (Ent::Set(BTreeMap::new()), None)).0 { Ent::Set(s) => Ok(s), _ => Err(WRONG) } }
    fn unless_empty(&mut self, k: &[u8]) { if matches!(self.keys.get(k), Some((Ent::Set(s), _)) if s.is_empty()) { self.keys.remove(k); } }
    fn carry_out(&mut self, c: &[Bytes]) -> Result<Re, Re> {
        let n = c.len();
        let need = |ok: bool| if ok { Ok(()) } else { Err(ARGS) };
        let of = |x: &[u8], unit: u64| num(x).filter(|x| *x > 0).map(|x| x * unit).ok_or(Re::Err("ERR invalid expire time"));
        Ok(match String::from_utf8_lossy(&c[0]).to_uppercase().as_str() {
            "CLIENT" | "SELECT" => Re::Ok,
            "PING" => Re::Ok,
            "SET" => {
                need(n >= 3)?;
                let (mut until, mut nx, mut i) = (None, false, 3);
                while i < n {
                    match String::from_utf8_lossy(&c[i]).to_uppercase().as_str() {
                        "NX" => nx = true,
                        u @ ("EX" | "PX") => { need(i + 1 < n)?; until = Some(self.now + of(&c[i + 1], if u == "EX" { 1000 } else { 1 })?); i += 1; }
                        _ => { self.odd = true; return Err(Re::Err("ERR syntax error")); }
                    }
                    i += 1;
                }
                if nx && self.keys.contains_key(&c[1]) { return Ok(Re::Nil); }
                self.keys.insert(c[1].clone(), (Ent::Str(c[2].clone()), until));
                Re::Ok
            }
            u @ ("SETEX" | "PSETEX") => { need(n == 4)?; let l = of(&c[2], if u == "SETEX" { 1000 } else { 1 })?; self.keys.insert(c[1].clone(), (Ent::Str(c[3].clone()), Some(self.now + l))); Re::Ok }
            u @ ("EXPIRE" | "PEXPIRE") => { need(n == 3)?; let l = of(&c[2], if u == "EXPIRE" { 1000 } else { 1 })?; let t = self.now + l; match self.keys.get_mut(&c[1]) { Some(x) => { x.1 = Some(t); Re::Int(1) } None => Re::Int(0) } }
            u @ ("GET" | "GETDEL") => { need(n == 2)?; match self.keys.get(&c[1]) { None => Re::Nil, Some((Ent::Str(b), _)) => { let b = b.clone(); if u == "GETDEL" { self.keys.remove(&c[1]); } Re::Bulk(b) } _ => WRONG } }
            "DEL" | "UNLINK" => { need(n >= 2)?; Re::Int(c[1..].iter().filter(|k| self.keys.remove(*k).is_some()).count() as i64) }
            "EXISTS" => { need(n >= 2)?; Re::Int(c[1..].iter().filter(|k| self.keys.contains_key(*k)).count() as i64) }
            "SADD" => { need(n >= 3)?; let s = self.open(&c[1])?; let mut k = 0; for m in &c[2..] { if !s.contains_key(m) { s.insert(m.clone(), None); k += 1; } } Re::Int(k) }
            "SREM" => { need(n >= 3)?; let s = self.open(&c[1])?; let k = c[2..].iter().filter(|m| s.remove(*m).is_some()).count(); self.unless_empty(&c[1]); Re::Int(k as i64) }
            "EXPIREMEMBER" => {
                need(n == 4 || n == 5)?;
                let unit = if n == 4 || c[4].eq_ignore_ascii_case(b"s") { 1000 } else if c[4].eq_ignore_ascii_case(b"ms") { 1 } else { return Err(ARGS) };
                let l = num(&c[3]).ok_or(ARGS)? * unit;
                let t = self.now + l;
                let k = self.open(&c[1])?.get_mut(&c[2]).map(|u| *u = Some(t)).is_some();
                self.unless_empty(&c[1]);
                Re::Int(k.into())
            }
            "SMEMBERS" => { need(n == 2)?; Re::Many(self.set(&c[1])?.into_keys().map(Re::Bulk).collect()) }
            "SCARD" => { need(n == 2)?; Re::Int(self.set(&c[1])?.len() as i64) }
            "SISMEMBER" => { need(n == 3)?; Re::Int(self.set(&c[1])?.contains_key(&c[2]).into()) }
            "RENAME" => { need(n == 3)?; match self.keys.remove(&c[1]) { Some(x) => { self.keys.insert(c[2].clone(), x); Re::Ok } None => Re::Err("ERR no such key") } }
            _ => { self.odd = true; Re::Err("ERR unknown command") }
        })
    }
}
fn line(r: &mut BufReader<TcpStream>) -> Option<String> { let mut s = String::new(); (r.read_line(&mut s).ok()? > 0).then(|| s.trim_end().to_string()) }
fn command(r: &mut BufReader<TcpStream>) -> Option<Vec<Bytes>> {
    let n: usize = line(r)?.strip_prefix('*')?.parse().ok()?;
    let mut c = vec![];
    for _ in 0..n { let k: usize = line(r)?.strip_prefix('$')?.parse().ok()?; let mut b = vec![0; k + 2]; r.read_exact(&mut b).ok()?; b.truncate(k); c.push(b); }
    Some(c)
}
fn serve(s: TcpStream, db: Arc<Mutex<Db>>, slow: u64) -> Option<()> {
    let _ = s.set_nodelay(true);
    let mut w = s.try_clone().ok()?;
    let mut r = BufReader::new(s);
    let mut queue: Option<Vec<Vec<Bytes>>> = None;
    loop {
        let c = command(&mut r)?;
        let name = String::from_utf8_lossy(c.first()?).to_uppercase();
        // requests of others come in between, if they may
        if slow > 0 && queue.is_none() { std::thread::sleep(Duration::from_micros(slow)); }
        let re = match (name.as_str(), &mut queue) {
            ("MULTI", None) => { queue = Some(vec![]); Re::Ok }
            ("EXEC", Some(_)) => { let q = queue.take()?; let mut d = db.lock().ok()?; Re::Many(d.run(&q)) }
            ("DISCARD", Some(_)) => { queue = None; Re::Ok }
            (_, Some(q)) => { q.push(c); Re::Queued }
            _ => db.lock().ok()?.run(&[c]).pop()?,
        };
        let mut o = vec![];
        re.put(&mut o);
        w.write_all(&o).ok()?;
    }
}
struct Server { db: Arc<Mutex<Db>>, /// what connections opened from now on wait before each request, in microseconds
    slow: Arc<AtomicU64>, port: u16, end: Arc<AtomicBool> }
impl Server {
    fn new() -> Result<Self, String> {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("server: {e}"))?;
        let port = l.local_addr().map_err(|e| format!("server: {e}"))?.port();
        let s = Server { db: Arc::default(), slow: Arc::default(), port, end: Arc::default() };
        let (db, slow, end) = (s.db.clone(), s.slow.clone(), s.end.clone());
        std::thread::spawn(move || for c in l.incoming() {
            if end.load(Ordering::SeqCst) { break; }
            let Ok(c) = c else { break };
            let (db, slow) = (db.clone(), slow.load(Ordering::SeqCst));
            std::thread::spawn(move || serve(c, db, slow));
        });
        Ok(s)
    }
    async fn open(&self, who: Option<BrokerIdentifier>) -> Result<Redis, String> { Redis::new(format!("redis://127.0.0.1:{}", self.port), who).await.map_err(|e| format!("opening the store failed: {e}")) }
    fn wait(&self, ms: u64) { self.db.lock().unwrap().now += ms; }
    fn now(&self) -> u64 { self.db.lock().unwrap().now }
    /// it was asked for something it does not know: nothing can be said
    fn odd(&self) -> bool { self.db.lock().unwrap().odd }
}
impl Drop for Server { fn drop(&mut self) { self.end.store(true, Ordering::SeqCst); let _ = TcpStream::connect(("127.0.0.1", self.port)); } }

fn run<F: std::future::Future<Output = Check>>(threads: usize, s: &Server, f: F) -> Check {
    let rt = if threads > 1 { tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build() } else { tokio::runtime::Builder::new_current_thread().enable_all().build() }.map_err(|e| format!("runtime: {e}"))?;
    let r = rt.block_on(async { match tokio::time::timeout(Duration::from_secs(100), f).await { Ok(r) => r, Err(_) => Err("the operation never finished".into()) } });
    rt.shutdown_background();
    if s.odd() { return Ok(()); }
    r
}
fn broker(i: usize) -> BrokerIdentifier { BrokerIdentifier { public_advertise_endpoint: format!("pub{i}.example:17{i}8"), private_advertise_endpoint: format!("priv{}.example:17{i}9", i / 2) } }
/// How long something is to last (whole seconds count: it may end up to one earlier)
fn life(r: &mut Rng) -> Duration { match r.below(5) { 0 => Duration::from_secs(1), 1 => Duration::from_millis(r.range(1000, 3000) as u64), 2 => Duration::from_millis(r.range(900, 1100) as u64 + 1000), _ => Duration::from_secs(r.range(5, 5000) as u64) } }
#[derive(Clone, Debug)]
struct Span { sure: u64, over: u64 }
fn span(t: u64, l: Duration) -> Span { Span { sure: t + l.as_secs() * 1000, over: t + l.as_millis() as u64 } }
fn seen(s: &Span, t: u64) -> Option<bool> { if t < s.sure { Some(true) } else if t >= s.over { Some(false) } else { None } }
fn pause(r: &mut Rng) -> u64 { match r.below(4) { 0 => 1, 1 => 1000, 2 => r.range(1, 3000) as u64, _ => r.range(1, 60000) as u64 } }

/// Issue and redeem in any order, over two connections
fn permits(c: &mut Case) -> Check {
    let mut r = c.rng.clone();
    let mut log = vec![];
    let s = Server::new()?;
    let res = run(1, &s, async {
        let mut dbs = vec![s.open(Some(broker(0))).await?, s.open(None).await?];
        let mut held: Vec<(usize, u64, Vec<u8>, Span, bool)> = vec![];
        for _ in 0..r.range(4, 24) {
            let k = r.below(2);
            let t = s.now();
            match r.below(10) {
                0..=3 => {
                    let (b, l, key) = (r.below(4), life(&mut r), r.bytes(40));
                    let p = dbs[k].issue_permit(&broker(b), l, key.clone()).await;
                    log.push(format!("issue for broker {b}, key {key:?}, life {l:?}: {p:?}"));
                    match p {
                        Ok(p) => { held.retain(|h| (h.0, h.1) != (b, p)); held.push((b, p, key, span(t, l), false)); }
                        Err(e) => return Err(format!("issuing a permit failed: {e}")),
                    }
                }
                4 => { let d = pause(&mut r); log.push(format!("{d} ms pass")); s.wait(d); }
                _ => {
                    let any = if held.is_empty() || r.one_in(6) { None } else { Some(r.below(held.len())) };
                    let (b, p) = match any { Some(i) => (if r.one_in(4) { r.below(4) } else { held[i].0 }, if r.one_in(12) { held[i].1 & 0xffff_ffff } else { held[i].1 }), None => (r.below(4), r.next() >> r.below(64)) };
                    let got = dbs[k].validate_permit(&broker(b), p).await;
                    log.push(format!("redeem {p} at broker {b}: {got:?}"));
                    let h = held.iter_mut().find(|h| h.0 == b && h.1 == p && !h.4);
                    match (got, h) {
                        (Ok(Some(k)), None) => return Err(format!("permit {p} was redeemed at broker {b}, which had no such permit (it yields {k:?})")),
                        (Ok(Some(k)), Some(h)) => { if k != h.2 { return Err(format!("permit {p} was issued to {:?} but yields {k:?}", h.2)); } if seen(&h.3, t) == Some(false) { return Err(format!("permit {p} was redeemed after it had run out")); } h.4 = true; }
                        (Ok(None), Some(h)) => if seen(&h.3, t) == Some(true) { return Err(format!("permit {p} is good at broker {b}, but was refused")); },
                        (Ok(None), None) => {}
                        (Err(e), _) => return Err(format!("redeeming {p} failed: {e}")),
                    }
                }
            }
        }
        Ok(())
    });
    for l in log { c.note(l); }
    res
}
/// One permit, redeemed by many at the same time
fn race(c: &mut Case) -> Check {
    let n = c.rng.range(2, 6);
    let key = c.rng.bytes(40);
    c.note(format!("one permit for broker 1, redeemed by {n} at the same time"));
    let s = Server::new()?;
    run(1, &s, async {
        let mut db = s.open(None).await?;
        let p = db.issue_permit(&broker(1), Duration::from_secs(1000), key.clone()).await.map_err(|e| format!("issuing a permit failed: {e}"))?;
        let gate = Arc::new(tokio::sync::Barrier::new(n));
        let mut hs = vec![];
        for i in 0..n {
            let mut d = if i % 2 == 0 { db.clone() } else { s.open(None).await? };
            let g = gate.clone();
            hs.push(tokio::spawn(async move { let _ = d.validate_permit(&broker(2), p).await; g.wait().await; d.validate_permit(&broker(1), p).await }));
        }
        let (mut yes, mut errs) = (0, 0);
        for h in hs { match h.await { Ok(Ok(Some(k))) => { vx_check!(k == key, "the permit was issued to {key:?} but yields {k:?}"); yes += 1; } Ok(Ok(None)) => {} _ => errs += 1 } }
        vx_check!(yes <= 1, "one permit was redeemed {yes} times");
        vx_check!(yes == 1 || errs > 0, "a good permit was refused to all {n}");
        Ok(())
    })
}
/// Heartbeats, listings and the choice of a broker
fn registry(c: &mut Case) -> Check {
    let mut r = c.rng.clone();
    let mut log = vec![];
    let s = Server::new()?;
    let res = run(1, &s, async {
        let n = r.range(2, 5);
        let mut dbs = vec![];
        for i in 0..n { dbs.push(s.open(Some(broker(i))).await?); }
        let mut marshal = s.open(None).await?;
        let mut reg: HashMap<usize, (u64, Span)> = HashMap::new();
        let mut pers: Vec<(usize, u64, Span)> = vec![];
        for _ in 0..r.range(5, 25) {
            let t = s.now();
            match r.below(12) {
                0..=3 => {
                    let (i, l) = (r.below(n), life(&mut r));
                    let m = match r.below(8) { 0 => 0, 1 => 1 << r.below(62), 2 => r.range(0, 10000) as u64, _ => r.below(5) as u64 };
                    let ok = dbs[i].perform_heartbeat(m, l).await;
                    log.push(format!("heartbeat of broker {i}: {m} connections, for {l:?}: {ok:?}"));
                    match ok { Ok(()) => { reg.insert(i, (m, span(t, l))); } Err(e) => return Err(format!("the heartbeat failed: {e}")) }
                }
                4 | 5 => {
                    let (i, l) = (r.below(n), life(&mut r));
                    let p = marshal.issue_permit(&broker(i), l, vec![1]).await.map_err(|e| format!("issuing a permit failed: {e}"))?;
                    log.push(format!("permit {p} for broker {i}, for {l:?}"));
                    pers.push((i, p, span(t, l)));
                }
                6 => if !pers.is_empty() {
                    let k = r.below(pers.len());
                    let (i, p, s) = pers.remove(k);
                    let g = marshal.validate_permit(&broker(i), p).await.map_err(|e| format!("redeeming a permit failed: {e}"))?;
                    log.push(format!("permit {p} redeemed: {}", g.is_some()));
                    if g.is_none() && seen(&s, t) == Some(true) { return Err(format!("permit {p} is good but was refused")); }
                },
                7 => { let d = pause(&mut r); log.push(format!("{d} ms pass")); s.wait(d); }
                8 | 9 => {
                    let i = r.below(n);
                    let got = dbs[i].get_other_brokers().await.map_err(|e| format!("listing the brokers failed: {e}"))?;
                    log.push(format!("others than broker {i}: {got:?}"));
                    for j in 0..n {
                        let may = if j == i { Some(false) } else { reg.get(&j).map_or(Some(false), |x| seen(&x.1, t)) };
                        let is = got.contains(&broker(j));
                        if may == Some(!is) { return Err(format!("broker {j} is {} in the list of brokers other than {i}", if is { "wrongly" } else { "not" })); }
                    }
                    if let Some(x) = got.iter().find(|x| !(0..n).any(|j| broker(j) == **x)) { return Err(format!("{x:?} is listed but was never registered")); }
                }
                _ => {
                    let got = marshal.get_with_least_connections().await;
                    log.push(format!("least loaded: {got:?}"));
                    // of each broker, the least and the greatest load it can have been seen with (outstanding permits are not
                    // counted, a known finding: whether they are or not is left open here)
                    let load = |j: usize, with: bool| -> Option<(u64, u64, bool)> {
                        let (m, s) = reg.get(&j)?;
                        let here = seen(s, t);
                        if here == Some(false) { return None; }
                        let sure = pers.iter().filter(|p| with && p.0 == j && seen(&p.2, t) == Some(true)).count() as u64;
                        let maybe = pers.iter().filter(|p| with && p.0 == j && seen(&p.2, t) != Some(false)).count() as u64;
                        Some((m + sure, m + maybe, here == Some(true)))
                    };
                    let all = |with: bool| -> Vec<(usize, (u64, u64, bool))> { (0..n).filter_map(|j| Some((j, load(j, with)?))).collect() };
                    match got {
                        Ok(b) => {
                            let fair = |with: bool| -> Check {
                                let all = all(with);
                                let Some(x) = all.iter().find(|x| broker(x.0) == b) else { return Err(format!("{b:?} was chosen, which is not registered")); };
                                if let Some(y) = all.iter().find(|y| y.1 .2 && y.1 .1 < x.1 .0) { return Err(format!("broker {} was chosen with a load of at least {}, but broker {} had at most {}", x.0, x.1 .0, y.0, y.1 .1)); }
                                Ok(())
                            };
                            if let (Err(_), Err(e)) = (fair(true), fair(false)) { return Err(e); }
                        }
                        Err(e) => if all(false).iter().any(|x| x.1 .2) { return Err(format!("no broker was found: {e}")); },
                    }
                }
            }
        }
        Ok(())
    });
    for l in log { c.note(l); }
    res
}
/// Brokers register while others look
fn joining(c: &mut Case) -> Check {
    let n = c.rng.range(2, 6);
    c.note(format!("broker 0 is registered, {n} others register while the choice is made again and again"));
    let s = Server::new()?;
    run(1, &s, async {
        let mut zero = s.open(Some(broker(0))).await?;
        zero.perform_heartbeat(50, Duration::from_secs(1000)).await.map_err(|e| format!("the heartbeat failed: {e}"))?;
        let mut m = s.open(None).await?;
        s.slow.store(1500, Ordering::SeqCst);
        let mut hs = vec![];
        for i in 1..=n {
            let mut d = s.open(Some(broker(i))).await?;
            hs.push(tokio::spawn(async move { for k in 0..3 { d.perform_heartbeat(60 + k, Duration::from_secs(1000)).await.map_err(|e| format!("the heartbeat failed: {e}"))?; } Ok::<(), String>(()) }));
        }
        while !hs.iter().all(|h| h.is_finished()) {
            let b = m.get_with_least_connections().await.map_err(|e| format!("no broker was found, though one is registered: {e}"))?;
            vx_check!(b == broker(0), "{b:?} was chosen, though every broker but 0 only ever had more connections");
        }
        for h in hs { h.await.map_err(|e| format!("{e}"))??; }
        Ok(())
    })
}
fn key(i: usize) -> UserPublicKey { UserPublicKey::from(match i { 0 => vec![], 1 => vec![0], 2 => vec![0, 0], i => vec![i as u8; i] }) }
/// Lists set and asked for, in any order
fn whitelist(c: &mut Case) -> Check {
    let mut r = c.rng.clone();
    let mut log = vec![];
    let s = Server::new()?;
    let res = run(1, &s, async {
        let mut dbs = vec![s.open(Some(broker(0))).await?, s.open(None).await?];
        let mut list: Option<BTreeSet<usize>> = None;
        for _ in 0..r.range(3, 14) {
            let k = r.below(2);
            if r.one_in(3) {
                let mut l: Vec<usize> = (0..9).filter(|_| r.one_in(3)).collect();
                // (what an empty list means is left open: the two stores disagree)
                if l.is_empty() { l.push(r.below(9)); }
                let long = if r.one_in(5) { [120, 700, 1100][r.below(3)] } else { 0 };
                if long > 0 { let at = [0, l.len(), r.below(l.len() + 1)][r.below(3)]; l.splice(at..at, 100..100 + long); }
                if r.one_in(4) { let x = l[0]; l.push(x); }
                let ok = dbs[k].set_whitelist(l.iter().map(|i| key(*i)).collect()).await;
                let shown: Vec<_> = l.iter().filter(|i| **i < 100).collect();
                log.push(format!("set the list to {shown:?} and {long} others (of {} entries): {ok:?}", l.len()));
                match ok { Ok(()) => list = Some(l.into_iter().collect()), Err(e) => return Err(format!("setting the list failed: {e}")) }
            } else if r.one_in(8) { let d = pause(&mut r) * 1000; log.push(format!("{d} ms pass")); s.wait(d); } else {
                let u = r.below(9);
                let got = dbs[k].check_whitelist(&key(u)).await.map_err(|e| format!("asking for the list failed: {e}"))?;
                log.push(format!("is {u} allowed: {got}"));
                let want = list.as_ref().map_or(true, |l| l.contains(&u));
                if got != want { return Err(format!("user {u} is {}, the list is {list:?} (and others)", if got { "allowed" } else { "refused" }, list = list.as_ref().map(|l| l.iter().filter(|i| **i < 100).collect::<Vec<_>>()))); }
            }
        }
        Ok(())
    });
    for l in log { c.note(l); }
    res
}
/// The list is replaced while it is asked for
fn replaced(c: &mut Case) -> Check {
    let rounds = c.rng.range(3, 10);
    c.note(format!("the list is replaced {rounds} times, user 5 always on it and user 6 never"));
    let s = Server::new()?;
    run(2, &s, async {
        s.slow.store(300, Ordering::SeqCst);
        let mut a = s.open(None).await?;
        s.slow.store(0, Ordering::SeqCst);
        let list = |i: usize| vec![key(if i % 2 == 0 { 7 } else { 8 }), key(5)];
        a.set_whitelist(list(0)).await.map_err(|e| format!("setting the list failed: {e}"))?;
        let done = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        for _ in 0..2 {
            let mut d = s.open(None).await?;
            let done = done.clone();
            hs.push(tokio::spawn(async move {
                while !done.load(Ordering::SeqCst) {
                    if let Ok(x) = d.check_whitelist(&key(5)).await { vx_check!(x, "user 5 was refused, though every list had it"); }
                    if let Ok(x) = d.check_whitelist(&key(6)).await { vx_check!(!x, "user 6 was allowed, though no list had it"); }
                }
                Ok(())
            }));
        }
        for i in 0..rounds { let _ = a.set_whitelist(list(i)).await; tokio::task::yield_now().await; }
        done.store(true, Ordering::SeqCst);
        for h in hs { h.await.map_err(|e| format!("{e}"))??; }
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C24", name: "permits in Redis against a reference", quick: 300, run: permits },
        Prop { id: "C24", name: "one permit in Redis redeemed by many", quick: 60, run: race },
        Prop { id: "C27", name: "registry in Redis against a reference", quick: 300, run: registry },
        Prop { id: "C27", name: "brokers joining in Redis", quick: 40, run: joining },
        Prop { id: "C28", name: "whitelist in Redis against a reference list", quick: 200, run: whitelist },
        Prop { id: "C28", name: "the list in Redis replaced while asked for", quick: 40, run: replaced },
    ]
}
