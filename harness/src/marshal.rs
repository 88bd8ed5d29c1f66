//! Runtime check of the marshal's listener (C29), child of the root of `cdn_marshal`.
use crate::Marshal;
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::message::*;
use cdn_proto::verif_auth::now;
use cdn_proto::verif_common::{block, settle, Case, Check, Prop};
use cdn_proto::verif_conn::{self as conn, Out};
use cdn_proto::verif_fake::*;
use cdn_proto::vx_check;
use std::sync::Arc;
use std::time::Duration;

/// the permit a far end was given
fn permit(v: &[Out]) -> Option<u64> { v.iter().find_map(|o| match o { Out::Bytes(b) => match msg(b) { Ok(Message::AuthenticateResponse(a)) => Some(a.permit), _ => None }, _ => None }) }
fn c29(c: &mut Case) -> Check {
    block(async {
        let n0 = now();
        let d = FakeDisc::default();
        d.with(|d| { d.least = Some(Answer::Is(broker_id(1))); d.issue = Some(Answer::Is(77)); });
        let (door, l) = door();
        let limiter = Limiter::new(Some(1000), Some(7));
        let m = Marshal::<FakeRun> { listener: Arc::new(l), discovery_client: d.clone(), metrics_bind_endpoint: None, limiter: limiter.clone() };
        let task = tokio::spawn(m.start());
        let n = if c.rng.one_in(12) { 150 } else { c.rng.range(1, 8) };
        let hung = if n == 150 && c.rng.one_in(4) { 1500 } else { 0 };
        if hung > 0 { c.note(format!("{hung} connections arrive that hang while they are set up, then:")); }
        for _ in 0..hung { door.arrive(Setup::Hang); }
        let mut v = vec![];
        for i in 0..=n {
            let (cn, f) = conn::pair();
            let key = 1 + (i % 190) as u8;
            let good = || f.deliver(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(key), timestamp: now(), signature: sig(key, USER, &now().to_le_bytes()) }).serialize().unwrap());
            let (what, s, want, at) = match if i == n { 0 } else { c.rng.below(9) } {
                0..=2 => { good(); ("is fine", Setup::Give(cn), true, 0) }
                3 => { good(); ("takes 3 s to set up", Setup::Slow(3, cn), true, 3) }
                4 => ("hangs while it is set up", Setup::Hang, false, 0),
                5 => ("fails to be set up", Setup::Fail, false, 0),
                6 => ("panics while it is set up", Setup::Panic, false, 0),
                7 => ("is set up and never sends a byte", Setup::Give(cn), false, 0),
                _ => { f.deliver(vec![1, 2, 3]); ("is set up and sends garbage", Setup::Give(cn), false, 0) }
            };
            if n < 20 { c.note(format!("arrival {i} {what}")); }
            door.arrive(s);
            v.push((what, f, want, at));
            if c.rng.one_in(4) { settle().await; }
        }
        settle().await;
        settle().await;
        let mut got: Vec<Vec<Out>> = v.iter().map(|x| x.1.drain()).collect();
        if now() != n0 { return Ok(()); }
        for (i, x) in v.iter().enumerate() { if x.3 == 0 { vx_check!((permit(&got[i]).unwrap_or(0) > 1) == x.2, "{} arrivals, arrival {i} {}: given a permit at once: {}", n + 1, x.0, !x.2); } }
        tokio::time::sleep(Duration::from_secs(4)).await;
        for (i, x) in v.iter().enumerate() { got[i].extend(x.1.drain()); }
        if now() != n0 { return Ok(()); }
        for (i, x) in v.iter().enumerate() { vx_check!((permit(&got[i]).unwrap_or(0) > 1) == x.2, "{} arrivals, arrival {i} {}: given a permit after 4 s: {}", n + 1, x.0, !x.2); }
        vx_check!(!task.is_finished(), "the marshal ended though accept never failed");
        let ls = door.limiters.lock().unwrap().clone();
        vx_check!(ls.len() == hung + n + 1, "{} connections arrived, {} were set up", hung + n + 1, ls.len());
        for l in ls.iter().rev().take(10) {
            vx_check!(l.connection_message_pool_size() == Some(7), "a connection was set up with a queue of size {:?}, the marshal's limiter says 7", l.connection_message_pool_size());
            let Some(all) = tokio::time::timeout(Duration::from_secs(1), l.allocate_message_bytes(1000)).await.ok().flatten() else { return Err("a connection was set up with a limiter that is not the marshal's".into()) };
            vx_check!(tokio::time::timeout(Duration::from_secs(1), limiter.allocate_message_bytes(1)).await.is_err(), "a connection was set up with a memory pool of its own");
            drop(all);
        }
        if c.rng.one_in(3) {
            c.note("then accept fails once and another connection arrives");
            door.fail();
            settle().await;
            let (cn, f) = conn::pair();
            let t = now();
            f.deliver(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: ser(1), timestamp: t, signature: sig(1, USER, &t.to_le_bytes()) }).serialize().unwrap());
            door.arrive(Setup::Give(cn));
            tokio::time::sleep(Duration::from_secs(30)).await;
            if now() - t > 3 { return Ok(()); }
            if task.is_finished() { vx_check!(matches!(task.await, Ok(Err(_))), "accept failed and start returned without an error"); }
            else { vx_check!(permit(&f.drain()).unwrap_or(0) > 1, "after accept failed the marshal neither ended nor serves"); }
        }
        Ok(())
    })
}
pub fn props() -> Vec<Prop> { vec![Prop { id: "C29", name: "the marshal's listener", quick: 800, run: c29 }] }
