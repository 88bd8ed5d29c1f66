//! Runtime check of the contracts of the client (C12, C17, C23), child of the root of `cdn_client`.
use crate::{Client, Config};
use cdn_proto::message::*;
use cdn_proto::verif_auth::other;
use cdn_proto::verif_common::{block, settle, Case, Check, Prop, Rng};
use cdn_proto::verif_conn::{Far, Out};
use cdn_proto::verif_fake::*;
use cdn_proto::vx_check;
use std::collections::BTreeSet;
use std::time::Duration;

type C = Client<FakeConn>;
fn sleep(s: u64) -> tokio::time::Sleep { tokio::time::sleep(Duration::from_secs(s)) }
fn client(topics: &[u8]) -> C { Client::new(Config { endpoint: "m".into(), use_local_authority: true, keypair: keys(1), subscribed_topics: topics.to_vec() }) }
fn response(permit: u64, context: &str) -> Vec<u8> { Message::AuthenticateResponse(AuthenticateResponse { permit, context: context.into() }).serialize().unwrap() }
fn got(f: &Far) -> Result<Vec<Message>, String> { f.drain().into_iter().map(|o| match o { Out::Bytes(b) => msg(&b), Out::SoftClose => Err("the connection was soft closed".into()) }).collect() }
/// the next login is let through: (marshal's end, broker's end)
fn let_in() -> (Far, Far) {
    let (m, b) = (net_pair("m"), net_pair("b"));
    m.deliver(response(77, "b"));
    b.deliver(response(1, ""));
    (m, b)
}
fn topics(r: &mut Rng) -> Vec<u8> { let n = r.below(5); (0..n).map(|_| r.below(6) as u8).collect() }
async fn remembered(c: &C) -> BTreeSet<u8> { c.subscribed_topics.read().await.iter().copied().collect() }
/// the login on a new connection: the permit and the whole set
fn login(v: &[Message], set: &BTreeSet<u8>) -> Check {
    vx_check!(v.len() == 2 && v[0] == Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 77 }), "on the new connection {v:?} was sent");
    let Message::Subscribe(t) = &v[1] else { return Err(format!("on the new connection {v:?} was sent")); };
    vx_check!(t.iter().copied().collect::<BTreeSet<u8>>() == *set && t.len() == set.len(), "the new connection announced {t:?}, remembered is {set:?}");
    Ok(())
}
/// C17
fn c17(c: &mut Case) -> Check {
    net_clear();
    block(async {
        let t = topics(&mut c.rng);
        c.note(format!("a client for {t:?}"));
        let cl = client(&t);
        let mut set: BTreeSet<u8> = t.into_iter().collect();
        let mut conn: Option<Far> = None;
        let mut broken = false;
        let mut keep = vec![];
        for _ in 0..c.rng.range(1, 10) {
            match c.rng.below(8) {
                0 | 1 if conn.is_none() => {
                    // maybe a failed login before
                    for _ in 0..c.rng.below(3) { match c.rng.below(3) { 0 => net_put("m", Dial::Refuse), 1 => { let m = net_pair("m"); m.deliver(response(0, "no")); keep.push(m); } _ => { let (m, b) = (net_pair("m"), net_pair("b")); m.deliver(response(77, "b")); b.deliver(response(0, "no")); keep.push(m); keep.push(b); } } }
                    let (m, b) = let_in();
                    keep.push(m);
                    c.note("the connection is established");
                    let _ = cl.send_message(Message::Direct(Direct { recipient: vec![], message: vec![] })).await;
                    let r = tokio::time::timeout(Duration::from_secs(100), cl.ensure_initialized()).await;
                    vx_check!(matches!(r, Ok(Ok(()))), "the client did not connect");
                    settle().await;
                    login(&got(&b)?, &set)?;
                    conn = Some(b);
                    broken = false;
                }
                2 if conn.is_some() => { c.note("sends on the connection fail from now on"); conn.as_ref().unwrap().break_sends(); broken = true; }
                k => {
                    let sub = k % 2 == 0;
                    let t = topics(&mut c.rng);
                    let name = format!("{}({t:?})", if sub { "subscribe" } else { "unsubscribe" });
                    c.note(format!("{name} (connected: {}, sends fail: {broken}, remembered {set:?})", conn.is_some()));
                    let ch: BTreeSet<u8> = t.iter().copied().filter(|x| set.contains(x) != sub).collect();
                    let r = tokio::time::timeout(Duration::from_secs(5), async { if sub { cl.subscribe(t.clone()).await } else { cl.unsubscribe(t.clone()).await } }).await;
                    let Ok(r) = r else { return Err(format!("{name} does not return")); };
                    settle().await;
                    let msgs = match &conn { Some(f) if !broken => got(f)?, _ => vec![] };
                    if ch.is_empty() {
                        vx_check!(msgs.is_empty(), "{name} changes nothing but sent {msgs:?}");
                    } else if conn.is_some() && !broken {
                        vx_check!(r.is_ok(), "{name} failed on a working connection");
                        vx_check!(msgs.len() == 1, "{name} sent {msgs:?}");
                        let told = match &msgs[0] { Message::Subscribe(v) if sub => v, Message::Unsubscribe(v) if !sub => v, m => return Err(format!("{name} sent {m:?}")) };
                        vx_check!(told.iter().copied().collect::<BTreeSet<u8>>() == ch, "{name} told the broker {told:?}, the changed topics are {ch:?}");
                    } else {
                        vx_check!(r.is_err(), "{name} succeeded without a working connection");
                        if conn.is_some() { conn = None; }
                    }
                    if r.is_ok() { for x in &ch { if sub { set.insert(*x); } else { set.remove(x); } } }
                    let have = remembered(&cl).await;
                    vx_check!(have == set, "after {name} ({}) remembered is {have:?}, the contract requires {set:?}", if r.is_ok() { "succeeded" } else { "failed" });
                }
            }
        }
        cl.close().await;
        Ok(())
    })
}
/// C12, the whole login
fn c12(c: &mut Case) -> Check {
    net_clear();
    block(async {
        let t = topics(&mut c.rng);
        let set: BTreeSet<u8> = t.iter().copied().collect();
        let cl = client(&t);
        let (permit, context) = (*c.rng.pick(&[0u64, 1, 2, 3, 77, 77, 77, u64::MAX]), *c.rng.pick(&["b", "b", "other", "", "m2", " b", "b\n", "B:80", "b/", "\u{e9}b", "b\0", "//b:1", "b b"]));
        let first = match c.rng.below(6) { 0 => other(&mut c.rng, &["response"]).serialize().unwrap(), 1 => vec![1], _ => response(permit, context) };
        let good1 = matches!(msg(&first), Ok(Message::AuthenticateResponse(_))) && permit > 1;
        let p2 = *c.rng.pick(&[0u64, 1, 1, 1, 2, permit]);
        let second = match c.rng.below(6) { 0 => other(&mut c.rng, &["response"]).serialize().unwrap(), 1 => vec![1], _ => response(p2, "") };
        let good2 = matches!(msg(&second), Ok(Message::AuthenticateResponse(_))) && p2 == 1;
        c.note(format!("topics {t:?}; the marshal replies {:?}, the broker {:?}", msg(&first), msg(&second)));
        let (m, b) = (net_pair("m"), net_pair(context));
        m.deliver(first);
        b.deliver(second);
        let Ok(r) = tokio::time::timeout(Duration::from_secs(60), cl.0.connect()).await else { return Err("the login does not return".into()) };
        let dials = net_dials();
        if good1 { vx_check!(dials == ["m", context], "dialled was {dials:?}, the marshal named {context:?}"); } else { vx_check!(dials == ["m"], "the marshal granted nothing, dialled was {dials:?}"); }
        vx_check!(r.is_ok() == (good1 && good2), "logged in: {}, the contract requires {}", r.is_ok(), good1 && good2);
        let (vm, vb) = (got(&m)?, got(&b)?);
        vx_check!(vm.len() == 1 && matches!(&vm[0], Message::AuthenticateWithKey(a) if a.public_key == ser(1) && a.signature == sig(1, USER, &a.timestamp.to_le_bytes())), "the marshal was sent {vm:?}");
        if !good1 { vx_check!(vb.is_empty(), "the broker was sent {vb:?}"); return Ok(()); }
        vx_check!(vb.first() == Some(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })), "the broker was sent {vb:?}, the permit is {permit}");
        if good2 {
            vx_check!(vb.len() == 2, "the broker was sent {vb:?}");
            let Message::Subscribe(v) = &vb[1] else { return Err(format!("the broker was sent {vb:?}")); };
            vx_check!(v.len() == set.len() && v.iter().copied().collect::<BTreeSet<u8>>() == set, "announced was {v:?}, the set is {set:?}");
        } else { vx_check!(vb.len() == 1, "the broker refused and was sent {vb:?}"); }
        Ok(())
    })
}
async fn within<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> { tokio::time::timeout(Duration::from_secs(1), f).await.map_err(|_| format!("{what} blocks")) }
fn hello() -> Message { Message::Broadcast(Broadcast { topics: vec![1], message: vec![5] }) }
/// all kinds of calls that need a connection; whether each failed
async fn calls(cl: &C, r: &mut Rng, receive: bool, subscribe: bool) -> Result<Vec<(&'static str, bool)>, String> {
    let mut v = vec![];
    for _ in 0..r.range(1, 4) {
        v.push(match r.below(if receive { 8 } else { 6 }) {
            0 => ("send_message", within("send_message", cl.send_message(hello())).await?.is_err()),
            1 if subscribe => ("subscribe", within("subscribe", cl.subscribe(vec![100 + r.below(100) as u8])).await?.is_err()),
            1 | 2 => ("soft_close", within("soft_close", cl.soft_close()).await?.is_err()),
            3 => ("try_get_connection", cl.try_get_connection().is_err()),
            4 => ("send_direct_message", within("send_direct_message", cl.send_direct_message(&Pk(3), vec![1])).await?.is_err()),
            5 => ("send_broadcast_message", within("send_broadcast_message", cl.send_broadcast_message(vec![1], vec![1])).await?.is_err()),
            6 => ("get_connection", within("get_connection", cl.get_connection()).await?.is_err()),
            _ => ("receive_message", within("receive_message", cl.receive_message()).await?.is_err()),
        });
    }
    Ok(v)
}
/// C23
fn c23(c: &mut Case) -> Check {
    net_clear();
    block(async {
        let t = topics(&mut c.rng);
        c.note(format!("a client for {t:?}"));
        let cl = client(&t);
        let mut keep = vec![];
        let mut waiting = vec![];
        let mut up = false;
        // the stages of its life, before it is closed
        for _ in 0..c.rng.below(4) {
            match c.rng.below(4) {
                // nobody answers: one attempt only
                0 | 1 if !up => {
                    let stage = c.rng.below(3);
                    match stage {
                        0 => net_put("m", Dial::Hang),
                        1 => keep.push(net_pair("m")),
                        _ => { let m = net_pair("m"); m.deliver(response(77, "b")); keep.push(m); keep.push(net_pair("b")); }
                    }
                    c.note(format!("calls while the login hangs (stage {stage})"));
                    let before = net_dials().iter().filter(|x| *x == "m").count();
                    for _ in 0..c.rng.range(1, 3) {
                        for (n, failed) in calls(&cl, &mut c.rng, false, stage < 2).await? { vx_check!(failed, "{n} succeeded without a connection"); }
                        if c.rng.flip() { let cl = cl.clone(); waiting.push(tokio::spawn(async move { cl.ensure_initialized().await })); }
                        sleep(1).await;
                    }
                    let n = net_dials().iter().filter(|x| *x == "m").count() - before;
                    vx_check!(n <= 1, "{n} reconnections were started at a time");
                    vx_check!(n == 1, "no reconnection was started");
                    // then it is let in, or not
                    if c.rng.flip() {
                        let (m, b) = let_in();
                        keep.push(m);
                        sleep(20).await;
                        vx_check!(cl.try_get_connection().is_ok(), "the client does not reconnect");
                        keep.push(b);
                        c.note("it is let in");
                        up = true;
                        for w in waiting.drain(..) { vx_check!(w.is_finished(), "the client is connected, but waiting for that does not end"); let r = w.await.map_err(|e| e.to_string())?; vx_check!(r.is_ok(), "the client is connected, but waiting for that failed"); }
                        vx_check!(matches!(within("ensure_initialized", cl.ensure_initialized()).await?, Ok(())), "the client is connected, ensure_initialized fails");
                    } else { break; }
                }
                2 if up => {
                    c.note("the connection breaks");
                    let f = keep.last().unwrap();
                    f.break_sends();
                    let _ = within("send_message", cl.send_message(hello())).await?;
                    up = false;
                }
                _ => {
                    if up {
                        let n = net_dials().len();
                        vx_check!(within("send_message", cl.send_message(hello())).await?.is_ok(), "sending on the connection failed");
                        vx_check!(net_dials().len() == n, "it dialled though it is connected");
                    }
                }
            }
        }
        for _ in 0..c.rng.below(3) {
            if up { break; }
            net_put("m", Dial::Hang);
            let cl = cl.clone();
            waiting.push(tokio::spawn(async move { cl.ensure_initialized().await }));
            settle().await;
        }
        c.note(format!("close() (connected: {up}, {} wait for the connection)", waiting.len()));
        within("close", cl.close()).await?;
        let n = net_dials().len();
        for _ in 0..4 { keep.push(let_in().0); }
        vx_check!(cl.is_closed(), "is_closed() is false after close()");
        settle().await;
        for w in waiting { vx_check!(w.is_finished(), "the client was closed, but waiting for its connection does not end"); let r = w.await.map_err(|e| e.to_string())?; vx_check!(r.is_err(), "the client was closed, but waiting for its connection succeeded"); }
        for _ in 0..3 {
            for (n, failed) in calls(&cl, &mut c.rng, true, true).await? { vx_check!(failed, "{n} succeeded on a closed client"); }
            vx_check!(within("ensure_initialized", cl.ensure_initialized()).await?.is_err(), "ensure_initialized succeeded on a closed client");
            vx_check!(cl.0.connect().await.is_err(), "a closed client connects");
            sleep(13).await;
        }
        let m = net_dials().len();
        vx_check!(m == n, "a closed client dialled {:?}", &net_dials()[n..]);
        if c.rng.one_in(4) { within("close", cl.close()).await?; }
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", name: "the whole login", quick: 3000, run: c12 },
        Prop { id: "C17", name: "subscriptions", quick: 3000, run: c17 },
        Prop { id: "C23", name: "life of a client", quick: 3000, run: c23 },
    ]
}
