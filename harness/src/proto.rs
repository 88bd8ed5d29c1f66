//! Runtime check of the contracts of messages, identifiers and topic pruning (C14, C15, C16).
use crate::def::{TestTopic, Topic};
use crate::discovery::BrokerIdentifier;
use crate::message::*;
use crate::verif_common::{Case, Check, Prop, Rng};
use crate::verif_fake::{valid, FakeTopic};
use crate::vx_check;

fn text(r: &mut Rng, max: usize, slash: bool) -> String {
    let a: Vec<char> = if slash { "ab:/.0-é漢 /\\A|,;@%\t".chars().collect() } else { "ab:.0-é漢 _\u{0}\n\\A|,;@%[]?#\t\r".chars().collect() };
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(&a)).collect()
}
fn blob(r: &mut Rng) -> Vec<u8> { let m = *r.pick(&[0, 1, 7, 8, 9, 40, 300, 5000]); if r.flip() { vec![r.next() as u8; m] } else { r.bytes(m) } }
fn topics(r: &mut Rng) -> Vec<u8> { let m = *r.pick(&[0, 1, 2, 5, 20, 300]); (0..m).map(|_| if r.flip() { r.below(4) as u8 } else { r.next() as u8 }).collect() }
fn num(r: &mut Rng) -> u64 { match r.below(6) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => 1 << r.below(64), 4 => r.below(1000) as u64, _ => r.next() } }
pub fn message(r: &mut Rng) -> Message {
    match r.below(9) {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: blob(r), timestamp: num(r), signature: blob(r) }),
        1 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: num(r) }),
        2 => Message::AuthenticateResponse(AuthenticateResponse { permit: num(r), context: text(r, 60, true) }),
        3 => Message::Direct(Direct { recipient: blob(r), message: blob(r) }),
        4 => Message::Broadcast(Broadcast { topics: topics(r), message: blob(r) }),
        5 => Message::Subscribe(topics(r)),
        6 => Message::Unsubscribe(topics(r)),
        7 => Message::UserSync(blob(r)),
        _ => Message::TopicSync(blob(r)),
    }
}
/// C14: there and back, and anything else without a crash
fn c14(c: &mut Case) -> Check {
    let m = message(&mut c.rng);
    c.note(format!("message: {m:?}"));
    let b = m.serialize().map_err(|e| format!("encoding failed: {e}"))?;
    let n = Message::deserialize(&b).map_err(|e| format!("decoding the encoding of {m:?} failed: {e}"))?;
    vx_check!(n == m, "{m:?} came back as {n:?}");
    // the encoding carries the message: another message has another encoding
    let m2 = message(&mut c.rng);
    if m2 != m { let b2 = m2.serialize().map_err(|e| format!("encoding failed: {e}"))?; vx_check!(b2 != b, "{m:?} and {m2:?} have the same encoding"); }
    // damaged and arbitrary bytes: an error or a message
    let mut d = b.clone();
    for _ in 0..c.rng.range(1, 6) {
        match c.rng.below(4) {
            0 if !d.is_empty() => { let i = c.rng.below(d.len()); d[i] ^= 1 << c.rng.below(8); }
            1 if !d.is_empty() => { let i = c.rng.below(d.len()); d.truncate(i); }
            2 => { let x = c.rng.bytes(16); d.extend(x); }
            _ => d = c.rng.bytes(64),
        }
        let dd = d.clone();
        let r = std::panic::catch_unwind(move || { let _ = Message::deserialize(&dd); });
        if r.is_err() { c.note(format!("bytes: {d:?}")); return Err("decoding crashed".into()); }
    }
    Ok(())
}
/// C15
fn c15(c: &mut Case) -> Check {
    let r = &mut c.rng;
    let id = BrokerIdentifier { public_advertise_endpoint: text(r, 12, false), private_advertise_endpoint: text(r, 12, false) };
    let s = id.to_string();
    c.note(format!("identifier {id:?}, text {s:?}"));
    vx_check!(s == format!("{}/{}", id.public_advertise_endpoint, id.private_advertise_endpoint), "the text of {id:?} is {s:?}");
    let back: BrokerIdentifier = s.clone().try_into().map_err(|e| format!("{s:?} does not parse: {e}"))?;
    vx_check!(back == id, "{id:?} came back as {back:?}");
    let s = text(&mut c.rng, 16, true);
    c.note(format!("text {s:?}"));
    let p: Result<BrokerIdentifier, _> = s.clone().try_into();
    match s.split('/').collect::<Vec<_>>()[..] {
        [_] => vx_check!(p.is_err(), "{s:?} has no slash but parses"),
        [a, b] => { let p = p.map_err(|e| format!("{s:?} does not parse: {e}"))?; vx_check!(p.public_advertise_endpoint == a && p.private_advertise_endpoint == b, "{s:?} parses as {p:?}"); }
        _ => if let Ok(p) = p {
            // with more slashes: whatever it takes, it takes in place and unaltered
            vx_check!(s.starts_with(&p.public_advertise_endpoint) && s.contains(&p.private_advertise_endpoint) && s.starts_with(&format!("{}/{}", p.public_advertise_endpoint, p.private_advertise_endpoint)), "{s:?} parses as {p:?}");
        },
    }
    Ok(())
}
/// C16: pruning
fn c16(c: &mut Case) -> Check {
    let r = &mut c.rng;
    let n = *r.pick(&[0, 1, 2, 3, 6, 12, 40]);
    let pool = [0u8, 0, 1, 1, 2, 3, 4, 5, 6, 199, 200, 201, 255];
    let mut v: Vec<u8> = vec![];
    for _ in 0..n { let t = *r.pick(&pool); for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) { v.push(t); } }
    c.note(format!("topics {v:?}"));
    prune_check::<FakeTopic>(&v, valid)?;
    prune_check::<TestTopic>(&v, |t| t < 2)
}
fn prune_check<T: Topic>(v: &[u8], ok: impl Fn(u8) -> bool) -> Check {
    let mut out = v.to_vec();
    let r = T::prune(&mut out);
    // runs of equal neighbours collapse, then what is not valid goes
    let mut want: Vec<u8> = v.to_vec();
    want.dedup();
    want.retain(|t| ok(*t));
    // (whether a run interrupted by an invalid topic only is collapsed is left open)
    let mut want2 = want.clone();
    want2.dedup();
    vx_check!(out == want || out == want2, "pruning {v:?} left {out:?}, the contract requires {want:?}");
    vx_check!(r.is_ok() == !want.is_empty(), "pruning {v:?} left {out:?} and said {:?}", r.is_ok());
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", name: "round trip and arbitrary bytes", quick: 6000, run: c14 },
        Prop { id: "C15", name: "text of an identifier and back", quick: 20000, run: c15 },
        Prop { id: "C16", name: "pruning a topic list", quick: 20000, run: c16 },
    ]
}
