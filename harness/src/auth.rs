//! Runtime check of the contracts of the logins (C09, C10, C11, C12).
use crate::connection::auth::{broker::BrokerAuth, marshal::MarshalAuth, user::UserAuth};
use crate::discovery::BrokerIdentifier;
use crate::message::*;
use crate::verif_common::{block, settle, Case, Check, Prop, Rng};
use crate::verif_conn::{self as conn, Far, Out};
use crate::verif_fake::*;
use crate::vx_check;
use std::collections::{BTreeSet, HashSet};
use std::time::{SystemTime, UNIX_EPOCH};

pub fn now() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() }
/// a timestamp and whether it is fresh (a case during which the second changes is not judged)
pub fn stamp(r: &mut Rng, good: bool) -> (u64, bool) {
    let n = now();
    if good { return (n - *r.pick(&[0u64, 0, 1, 2, 3]), true); }
    match r.below(15) {
        0 => (n - 4, true),
        10 | 11 => (n - 5, true),
        12 | 13 => (n - 6, false),
        14 => (n + 1, false),
        1 => (n - 7, false),
        2 => (n - 60, false),
        3 => (n + 3, false),
        4 => (n + 100_000, false),
        5 => (0, false),
        6 => (u64::MAX, false),
        7 => (u64::MAX - 5, false),
        8 => (n - 3_600, false),
        9 => (n + (1 << 32), false),
        _ => (n - (1 << 30), false),
    }
}
/// any message that is none of the kinds in `not`
pub fn other(r: &mut Rng, not: &[&str]) -> Message {
    let all: Vec<(&str, Message)> = vec![
        ("key", Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(1), timestamp: now(), signature: sig(1, USER, &now().to_le_bytes()) })),
        ("permit", Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 7 })),
        ("response", Message::AuthenticateResponse(AuthenticateResponse { permit: *r.pick(&[0, 1, 2, 77]), context: "b1/p1".into() })),
        ("direct", Message::Direct(Direct { recipient: ser(1), message: vec![1] })),
        ("broadcast", Message::Broadcast(Broadcast { topics: vec![1], message: vec![2] })),
        ("subscribe", Message::Subscribe(vec![1])),
        ("unsubscribe", Message::Unsubscribe(vec![1])),
        ("usersync", Message::UserSync(vec![])),
        ("topicsync", Message::TopicSync(vec![])),
    ];
    let v: Vec<_> = all.into_iter().filter(|x| !not.contains(&x.0)).collect();
    let i = r.below(v.len());
    v[i].1.clone()
}
/// a key message: (message, key bytes if it decodes, proof good, fresh)
fn key_message(r: &mut Rng, domain: &str, key: u8) -> (AuthenticateWithKey, bool, bool) {
    let mostly = r.below(3) > 0;
    let (t, fresh) = stamp(r, mostly);
    let other_domain = if domain == USER { BROKER } else { USER };
    let mut m = AuthenticateWithKey { public_key: ser(key), timestamp: t, signature: sig(key, domain, &t.to_le_bytes()) };
    let mut proven = true;
    if r.one_in(3) {
        proven = false;
        match r.below(9) {
            0 => m.public_key = vec![1, 2, 3],
            1 => m.public_key = vec![],
            2 => m.signature = sig(key ^ 1, domain, &t.to_le_bytes()),
            3 => m.signature = sig(key, other_domain, &t.to_le_bytes()),
            4 => m.signature = sig(key, domain, &(t ^ 1).to_le_bytes()),
            5 => m.signature = vec![],
            6 => { m.signature.pop(); }
            7 => m.signature = sig(key, domain, &t.to_be_bytes()),
            _ => m.signature = sig(key, "", &t.to_le_bytes()),
        }
    }
    (m, proven, fresh)
}
fn sent(f: &Far) -> Result<Vec<Message>, String> {
    f.drain().into_iter().map(|o| match o { Out::Bytes(b) => msg(&b), Out::SoftClose => Err("the connection was soft closed".into()) }).collect()
}
fn permit_of(m: &Message) -> Option<u64> { if let Message::AuthenticateResponse(a) = m { Some(a.permit) } else { None } }
fn refused_only(replies: &[Message]) -> Check {
    vx_check!(replies.len() <= 1 && replies.iter().all(|m| permit_of(m) == Some(0)), "the login failed but {replies:?} was replied");
    Ok(())
}

/// C09
fn marshal(c: &mut Case) -> Check {
    let n0 = now();
    let key = *c.rng.pick(&[1u8, 2, 3, 9, 200, 250]);
    let (m, proven, fresh) = key_message(&mut c.rng, USER, key);
    let white = match c.rng.below(4) { 0 => Answer::Fails, 1 => Answer::Is(false), _ => Answer::Is(true) };
    let white = if c.rng.flip() { Answer::Is(true) } else { white };
    let least = if c.rng.one_in(6) { Answer::Fails } else { Answer::Is(broker_id(c.rng.below(3))) };
    let issue = if c.rng.one_in(6) { Answer::Fails } else { Answer::Is(*c.rng.pick(&[2u64, 3, 77, u64::MAX])) };
    let first = match c.rng.below(10) { 0 => other(&mut c.rng, &["key"]).serialize().unwrap(), 1 => vec![1, 2, 3], _ => Message::AuthenticateWithKey(m.clone()).serialize().unwrap() };
    let right_kind = matches!(msg(&first), Ok(Message::AuthenticateWithKey(_)));
    let then = c.rng.one_in(4);
    let d = FakeDisc::default();
    d.with(|d| { d.white.insert(ser(key), white.clone()); d.least = Some(least.clone()); d.issue = Some(issue.clone()); });
    c.note(format!("first message {:?}; the marshal's clock {}; whitelist check of {:?}: {white:?}; least loaded: {least:?}; permit: {issue:?}; a valid login follows as second message: {then}", msg(&first), now(), ser(key)));
    block(async move {
        let (cn, far) = conn::pair();
        far.deliver(first);
        if then { far.deliver(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(1), timestamp: now(), signature: sig(1, USER, &now().to_le_bytes()) }).serialize().unwrap()); }
        else { far.break_recvs(); }
        let mut dd = d.clone();
        let r = MarshalAuth::<FakeRun>::verify_user(&cn, &mut dd).await;
        if now() != n0 { return Ok(()); }
        let (log, replies) = (d.log(), sent(&far)?);
        let issues: Vec<_> = log.iter().enumerate().filter(|x| matches!(x.1, Call::Issue(..))).collect();
        let ok = right_kind && proven && fresh && key != 250 && matches!(white, Answer::Is(true));
        if !ok {
            vx_check!(issues.is_empty(), "a permit was issued ({issues:?}) though the login is not acceptable (right kind {right_kind}, proven {proven}, fresh {fresh}, whitelist {white:?})");
            vx_check!(r.is_err(), "the login was accepted (right kind {right_kind}, proven {proven}, fresh {fresh}, whitelist {white:?})");
            return refused_only(&replies);
        }
        vx_check!(issues.len() <= 1, "several permits were issued: {issues:?}");
        match (least, issue) {
            (Answer::Is(b), Answer::Is(p)) => {
                vx_check!(issues.len() == 1, "no permit was issued for an acceptable login: {log:?}");
                let (at, Call::Issue(for_b, _, k)) = issues[0] else { unreachable!() };
                #[cfg(not(feature = "global-permits"))]
                vx_check!(for_b.as_ref() == Some(&b), "the permit was issued for {for_b:?}, the least loaded broker is {b:?}");
                vx_check!(*k == ser(key), "the permit was issued for {k:?}, the proven key is {:?}", ser(key));
                vx_check!(log[..at].contains(&Call::White(ser(key))), "the permit was issued before the whitelist check: {log:?}");
                vx_check!(r.as_ref().map(|k| k.to_vec()).ok() == Some(ser(key)), "the login result is {:?}", r.map(|k| k.to_vec()).map_err(|e| e.to_string()));
                vx_check!(replies == vec![Message::AuthenticateResponse(AuthenticateResponse { permit: p, context: b.public_advertise_endpoint.clone() })], "the reply is {replies:?}, the permit is {p} for {b:?}");
            }
            (Answer::Is(_), _) => { vx_check!(r.is_err(), "the login was accepted without a permit"); refused_only(&replies)?; }
            _ => { vx_check!(issues.is_empty() && r.is_err(), "a permit was issued though no broker was named: {log:?}"); refused_only(&replies)?; }
        }
        Ok(())
    })
}
/// C10
fn broker_user(c: &mut Case) -> Check {
    let permit = *c.rng.pick(&[0u64, 1, 2, 5, 1 << 40, u64::MAX]);
    let key = if c.rng.one_in(6) { vec![7; c.rng.below(4)] } else { ser(*c.rng.pick(&[1u8, 2, 77, 211])) };
    let decodes = is_key(&key);
    let a = match c.rng.below(8) { 0 => Answer::Fails, 1 | 2 => Answer::Is(None), _ => Answer::Is(Some(key.clone())) };
    let valid = matches!(a, Answer::Is(Some(_)));
    let topics: Vec<u8> = (0..c.rng.below(6)).map(|_| c.rng.next() as u8).collect();
    let first = match c.rng.below(10) { 0 => other(&mut c.rng, &["permit"]).serialize().unwrap(), 1 => vec![9], _ => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit }).serialize().unwrap() };
    let kind1 = matches!(msg(&first), Ok(Message::AuthenticateWithPermit(_)));
    let second = match c.rng.below(8) { 0 => Some(other(&mut c.rng, &["subscribe"]).serialize().unwrap()), 1 => None, 2 => Some(vec![3, 4]), _ => Some(Message::Subscribe(topics.clone()).serialize().unwrap()) };
    let kind2 = matches!(second.as_deref().map(msg), Some(Ok(Message::Subscribe(_))));
    let third = c.rng.flip();
    let has2 = second.is_some();
    let me = broker_id(c.rng.below(3));
    let d = FakeDisc::default();
    d.with(|d| { d.validate.insert(permit, a.clone()); });
    c.note(format!("first message {:?}; redeeming {permit} answers {a:?}; second message {:?}", msg(&first), second.as_deref().map(msg)));
    block(async move {
        let (cn, far) = conn::pair();
        far.deliver(first);
        if let Some(s) = second { far.deliver(s); }
        if third && has2 { far.deliver(Message::Subscribe(vec![99]).serialize().unwrap()); } else { far.break_recvs(); }
        let mut dd = d.clone();
        let r = BrokerAuth::<FakeRun>::verify_user(&cn, #[cfg(not(feature = "global-permits"))] &me, &mut dd).await;
        let (log, replies) = (d.log(), sent(&far)?);
        let val: Vec<_> = log.iter().filter(|x| matches!(x, Call::Validate(..))).collect();
        if !kind1 {
            vx_check!(val.is_empty() && r.is_err(), "the first message is no permit, yet: {log:?}, admitted {}", r.is_ok());
            return refused_only(&replies);
        }
        vx_check!(val.len() == 1, "the permit was presented {} times: {log:?}", val.len());
        #[cfg(not(feature = "global-permits"))]
        vx_check!(*val[0] == Call::Validate(Some(me.clone()), permit), "presented was {:?}, not the permit {permit} at {me:?}", val[0]);
        if !valid {
            vx_check!(r.is_err(), "admitted with a permit for which the service answered {a:?}");
            vx_check!(replies.len() == 1 && permit_of(&replies[0]) == Some(0), "the permit did not validate, the reply is {replies:?}");
            return Ok(());
        }
        let admit = decodes && kind2;
        vx_check!(r.is_ok() == admit, "admitted: {}, the contract requires {admit} (key decodes {decodes}, second message a subscription {kind2})", r.is_ok());
        if let Ok((k, t)) = r {
            vx_check!(k.to_vec() == key && t == topics, "admitted as {k:?} with {t:?}, the permit was issued for {key:?} and the subscription is {topics:?}");
            vx_check!(replies.len() == 1 && permit_of(&replies[0]) == Some(1), "the replies are {replies:?}");
        } else { vx_check!(replies.iter().filter(|m| permit_of(m) == Some(1)).count() <= 1 && replies.iter().all(|m| permit_of(m).map_or(false, |p| p <= 1)), "the replies are {replies:?}"); }
        Ok(())
    })
}
/// C11, the accepting side
fn broker_broker(c: &mut Case) -> Check {
    let n0 = now();
    let ours = *c.rng.pick(&[1u8, 2, 3]);
    let key = if c.rng.one_in(4) { ours ^ *c.rng.pick(&[1, 64]) } else { ours };
    let (m, proven, fresh) = key_message(&mut c.rng, BROKER, key);
    let first = match c.rng.below(10) { 0 => other(&mut c.rng, &["key"]).serialize().unwrap(), 1 => vec![1, 2], _ => Message::AuthenticateWithKey(m).serialize().unwrap() };
    let kind = matches!(msg(&first), Ok(Message::AuthenticateWithKey(_)));
    let me = broker_id(c.rng.below(3));
    c.note(format!("our key {:?}, first message {:?}, clock {}", ser(ours), msg(&first), now()));
    block(async move {
        let (cn, far) = conn::pair();
        far.deliver(first);
        far.deliver(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(ours), timestamp: now(), signature: sig(ours, BROKER, &now().to_le_bytes()) }).serialize().unwrap());
        let r = BrokerAuth::<FakeRun>::verify_broker(&cn, &me, &Pk(ours)).await;
        if now() != n0 { return Ok(()); }
        let replies = sent(&far)?;
        let ok = kind && proven && fresh && key == ours;
        vx_check!(r.is_ok() == ok, "accepted: {}, the contract requires {ok} (right kind {kind}, proven {proven}, fresh {fresh}, our key {})", r.is_ok(), key == ours);
        if ok { vx_check!(replies == vec![Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: me.to_string() })], "the reply is {replies:?}, we are {me}"); } else { refused_only(&replies)?; }
        Ok(())
    })
}
/// answers to a login: (reply bytes or none, the decoded response)
fn reply(r: &mut Rng, contexts: &[&str], permits: &[u64]) -> (Option<Vec<u8>>, Option<AuthenticateResponse>) {
    match r.below(8) {
        0 => (None, None),
        1 => { let m = other(r, &["response"]); (Some(m.serialize().unwrap()), None) }
        2 => (Some(vec![5, 5]), None),
        _ => { let a = AuthenticateResponse { permit: *r.pick(permits), context: r.pick(contexts).to_string() }; (Some(Message::AuthenticateResponse(a.clone()).serialize().unwrap()), Some(a)) }
    }
}
/// what was sent first proves the key at the present time
fn proof(m: Option<&Message>, key: u8, domain: &str, t0: u64, t1: u64) -> Check {
    let Some(Message::AuthenticateWithKey(a)) = m else { return Err(format!("the login starts with {m:?}")); };
    vx_check!(a.public_key == ser(key), "the key sent is {:?}, ours is {:?}", a.public_key, ser(key));
    vx_check!(t0 <= a.timestamp && a.timestamp <= t1, "the timestamp sent is {}, the time was {t0}..{t1}", a.timestamp);
    vx_check!(a.signature == sig(key, domain, &a.timestamp.to_le_bytes()), "the signature sent is not of the timestamp {} in {domain}: {:?}", a.timestamp, a.signature);
    Ok(())
}
/// C11, the side that proves itself
fn prove_to_broker(c: &mut Case) -> Check {
    let key = *c.rng.pick(&[1u8, 2, 240, 250]);
    let (b, a) = reply(&mut c.rng, &["b1/p1", "pub:1/priv:2", "/", "noslash", "", "x/"], &[0, 1, 1, 1, 2, u64::MAX]);
    let sk = if key == 250 { 1 } else { key };
    c.note(format!("our key {key}, the reply is {a:?} ({})", b.as_ref().map_or("none".into(), |b| format!("{} bytes", b.len()))));
    block(async move {
        let (cn, far) = conn::pair();
        match b { Some(b) => far.deliver(b), None => far.break_recvs() }
        far.deliver(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: "late/late".into() }).serialize().unwrap());
        let t0 = now();
        let r = BrokerAuth::<FakeRun>::authenticate_with_broker(&cn, &crate::crypto::signature::KeyPair { public_key: Pk(key), private_key: sk }).await;
        let (t1, out) = (now(), sent(&far)?);
        if sk >= 240 || key == 250 { vx_check!(r.is_err(), "authenticated without a signature or key"); return Ok(()); }
        vx_check!(out.len() == 1, "sent were {out:?}");
        proof(out.first(), key, BROKER, t0, t1)?;
        let want: Option<(String, String)> = a.filter(|a| a.permit == 1).and_then(|a| { let mut s = a.context.split('/'); Some((s.next()?.to_string(), s.next()?.to_string())) });
        let got = r.ok().map(|b: BrokerIdentifier| (b.public_advertise_endpoint, b.private_advertise_endpoint));
        vx_check!(got == want, "the peer was taken for {got:?}, the contract requires {want:?}");
        Ok(())
    })
}
/// C12 at the marshal
fn user_marshal(c: &mut Case) -> Check {
    let key = *c.rng.pick(&[1u8, 2, 240, 250]);
    let (b, a) = reply(&mut c.rng, &["b1", "pub:1", ""], &[0, 1, 2, 2, 3, u64::MAX]);
    let sk = if key == 250 { 1 } else { key };
    c.note(format!("our key {key}, the reply is {a:?} ({})", b.as_ref().map_or("none".into(), |b| format!("{} bytes", b.len()))));
    block(async move {
        let (cn, far) = conn::pair();
        match b { Some(b) => far.deliver(b), None => far.break_recvs() }
        far.deliver(Message::AuthenticateResponse(AuthenticateResponse { permit: 9, context: "late".into() }).serialize().unwrap());
        let t0 = now();
        let r = UserAuth::<FakeConn>::authenticate_with_marshal(&cn, &crate::crypto::signature::KeyPair { public_key: Pk(key), private_key: sk }).await;
        let (t1, out) = (now(), sent(&far)?);
        if sk >= 240 || key == 250 { vx_check!(r.is_err() && out.is_empty(), "logged in without a signature or key"); return Ok(()); }
        vx_check!(out.len() == 1, "sent were {out:?}");
        proof(out.first(), key, USER, t0, t1)?;
        let want = a.filter(|a| a.permit > 1).map(|a| (a.context, a.permit));
        let got = r.ok();
        vx_check!(got == want, "the login led to {got:?}, the contract requires {want:?}");
        Ok(())
    })
}
/// C12 at the broker
fn user_broker(c: &mut Case) -> Check {
    let permit = *c.rng.pick(&[2u64, 3, u64::MAX, 77]);
    let (b, a) = reply(&mut c.rng, &["", "x"], &[0, 1, 1, 1, 2, u64::MAX, permit]);
    let topics: HashSet<u8> = { let n = c.rng.below(7); (0..n).map(|_| c.rng.next() as u8).collect() };
    let fails = c.rng.one_in(8);
    c.note(format!("permit {permit}, topics {topics:?}, the reply is {a:?} ({}), the connection breaks before: {fails}", b.as_ref().map_or("none".into(), |b| format!("{} bytes", b.len()))));
    block(async move {
        let (cn, far) = conn::pair();
        if fails { far.break_sends(); }
        let (c2, t2) = (cn.clone(), topics.clone());
        let h = tokio::spawn(async move { UserAuth::<FakeConn>::authenticate_with_broker(&c2, permit, t2).await });
        settle().await;
        let mut out = sent(&far)?;
        if !fails { vx_check!(out == vec![Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })], "before the reply {out:?} was sent"); }
        match b { Some(b) => far.deliver(b), None => far.break_recvs() }
        far.deliver(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: "late".into() }).serialize().unwrap());
        let r = h.await.map_err(|e| format!("{e}"))?;
        out = sent(&far)?;
        let ok = !fails && a.as_ref().map_or(false, |a| a.permit == 1);
        vx_check!(r.is_ok() == ok, "logged in: {}, the contract requires {ok}", r.is_ok());
        if !ok { vx_check!(out.is_empty(), "after the refusal {out:?} was sent"); return Ok(()); }
        vx_check!(out.len() == 1, "after the welcome {out:?} was sent");
        let Message::Subscribe(v) = &out[0] else { return Err(format!("after the welcome {out:?} was sent")); };
        vx_check!(v.len() == topics.len() && v.iter().copied().collect::<HashSet<u8>>() == topics, "announced are {:?}, the subscription is {:?}", v.iter().collect::<BTreeSet<_>>(), topics.iter().collect::<BTreeSet<_>>());
        Ok(())
    })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", name: "marshal login", quick: 4000, run: marshal },
        Prop { id: "C10", name: "user login at a broker", quick: 4000, run: broker_user },
        Prop { id: "C11", name: "accepting a broker", quick: 4000, run: broker_broker },
        Prop { id: "C11", name: "proving to a broker", quick: 3000, run: prove_to_broker },
        Prop { id: "C12", name: "client login at the marshal", quick: 3000, run: user_marshal },
        Prop { id: "C12", name: "client login at the broker", quick: 3000, run: user_broker },
    ]
}
