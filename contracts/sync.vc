State syncs (C21)
#include routing.vc assume
#source cdn-broker/src/tasks/broker/sync.rs
#raw
/// the bytes are one UserSync message with exactly this directory
pub open spec fn carries_users(b: Seq<u8>, d: DirectMap) -> bool { decode(b) matches Some(Message::UserSync(v)) && unarchive::<DirectMap>(v@) == Some(d) }
pub open spec fn carries_topics(b: Seq<u8>, d: TopicSyncMap) -> bool { decode(b) matches Some(Message::TopicSync(v)) && unarchive::<TopicSyncMap>(v@) == Some(d) }
pub open spec fn full_users(to: BrokerIdentifier, ok: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && if c.dm().m().dom() =~= Set::<UserPublicKey>::empty() { ok && s.len() == 1 }
        else if !ok { s.len() == 1 } else { exists|m: Seq<u8>| #![trigger carries_users(m, c.dm())] #![trigger sent_to_broker(to, m, tail(s, 1))] carries_users(m, c.dm()) && sent_to_broker(to, m, tail(s, 1)) })
}
pub open spec fn full_topics(to: BrokerIdentifier, ok: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && if c.tsm().m().dom() =~= Set::<Topic>::empty() { ok && s.len() == 1 }
        else if !ok { s.len() == 1 } else { exists|m: Seq<u8>| #![trigger carries_topics(m, c.tsm())] #![trigger sent_to_broker(to, m, tail(s, 1))] carries_topics(m, c.tsm()) && sent_to_broker(to, m, tail(s, 1)) })
}
pub open spec fn users_sent(d: Option<DirectMap>, ok: bool, s: Seq<Ev>) -> bool {
    match d {
        None => ok && s.len() == 1,
        Some(d) => if !ok { s.len() == 1 } else { exists|m: Seq<u8>| #![trigger carries_users(m, d)] #![trigger sent_to_brokers(m, tail(s, 1))] carries_users(m, d) && sent_to_brokers(m, tail(s, 1)) },
    }
}
pub open spec fn topics_sent(d: Option<TopicSyncMap>, ok: bool, s: Seq<Ev>) -> bool {
    match d {
        None => ok && s.len() == 1,
        Some(d) => if !ok { s.len() == 1 } else { exists|m: Seq<u8>| #![trigger carries_topics(m, d)] #![trigger sent_to_brokers(m, tail(s, 1))] carries_topics(m, d) && sent_to_brokers(m, tail(s, 1)) },
    }
}
pub open spec fn partial_users(ok: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Write(a, b) && exists|d: Option<DirectMap>| #[trigger] b.users_taken(&a, d) && users_sent(d, ok, s))
}
pub open spec fn partial_topics(ok: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Write(a, b) && exists|d: Option<TopicSyncMap>| #[trigger] b.topics_taken(&a, d) && topics_sent(d, ok, s))
}
/// one round of the sync task
pub open spec fn sync_round(s: Seq<Ev>) -> bool {
    exists|i: int, j: int, o1: bool, o2: bool| 0 <= i <= j && j + 1 == s.len() && #[trigger] partial_users(o1, s.subrange(0, i)) && #[trigger] partial_topics(o2, s.subrange(i, j)) && (s[j] is Sleep)
}
#end
#impl Inner
#fn Inner::full_user_sync
@effects
@ret r
@params broker
@prop C21
@spec
    ensures final(w).grew(old(w)), full_users(*broker, r is Ok, final(w).since(old(w))),
@after let Some(full_sync_map) =
    let ghost vx_w1 = *w;
    let ghost vx_d = full_sync_map;
@end
    proof { assert(tail(w.since(old(w)), 1) =~= w.since(&vx_w1)); }
#end
#fn Inner::partial_user_sync
@effects
@ret r
@prop C21
@spec
    ensures final(w).grew(old(w)), partial_users(r is Ok, final(w).since(old(w))),
@before ^return Ok
    proof { match w.since(old(w))[0] { Ev::Write(a, b) => { assert(b.users_taken(&a, None)); assert(w.since(old(w)).len() == 1); }, _ => {} } }
@after let Some(partial_sync_map) =
    let ghost vx_w1 = *w;
    let ghost vx_d = partial_sync_map;
    proof { match w.since(old(w))[0] { Ev::Write(a, b) => { assert(b.users_taken(&a, Some(vx_d))); assert(w.since(old(w)).len() == 1); }, _ => {} } }
@end
    proof {
        assert(tail(w.since(old(w)), 1) =~= w.since(&vx_w1));
        assert(w.trace()[old(w).trace().len() as int] == vx_w1.trace()[old(w).trace().len() as int]);
        match w.since(old(w))[0] { Ev::Write(a, b) => { assert(b.users_taken(&a, Some(vx_d))); }, _ => {} }
    }
#end
#fn Inner::full_topic_sync
@effects
@ret r
@params broker
@prop C21
@spec
    ensures final(w).grew(old(w)), full_topics(*broker, r is Ok, final(w).since(old(w))),
@after let Some(full_sync_map) =
    let ghost vx_w1 = *w;
    let ghost vx_d = full_sync_map;
@end
    proof { assert(tail(w.since(old(w)), 1) =~= w.since(&vx_w1)); }
#end
#fn Inner::partial_topic_sync
@effects
@ret r
@prop C21
@spec
    ensures final(w).grew(old(w)), partial_topics(r is Ok, final(w).since(old(w))),
@before ^return Ok
    proof { match w.since(old(w))[0] { Ev::Write(a, b) => { assert(b.topics_taken(&a, None)); assert(w.since(old(w)).len() == 1); }, _ => {} } }
@after let Some(partial_sync_map) =
    let ghost vx_w1 = *w;
    let ghost vx_d = partial_sync_map;
    proof { match w.since(old(w))[0] { Ev::Write(a, b) => { assert(b.topics_taken(&a, Some(vx_d))); assert(w.since(old(w)).len() == 1); }, _ => {} } }
@end
    proof {
        assert(tail(w.since(old(w)), 1) =~= w.since(&vx_w1));
        assert(w.trace()[old(w).trace().len() as int] == vx_w1.trace()[old(w).trace().len() as int]);
        match w.since(old(w))[0] { Ev::Write(a, b) => { assert(b.topics_taken(&a, Some(vx_d))); }, _ => {} }
    }
#end
#fn Inner::run_sync_task
@effects
@diverges
@prop C21
@loop 0
    invariant w.grew(&vx_w0), w.since(&vx_w0) == cat(vx_its), forall|i: int| 0 <= i < vx_its.len() ==> sync_round(#[trigger] vx_its[i]),
@begin
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost vx_w0 = *w;
    proof { assert(w.since(&vx_w0) =~= cat(vx_its)); }
@loopstart 0
    let ghost vx_w1 = *w;
@after partial_user_sync
    let ghost vx_w2 = *w;
@after partial_topic_sync
    let ghost vx_w3 = *w;
@loopend 0
    proof {
        let s = w.since(&vx_w1);
        let i = vx_w2.trace().len() - vx_w1.trace().len();
        let j = vx_w3.trace().len() - vx_w1.trace().len();
        assert(s.subrange(0, i) =~= vx_w2.since(&vx_w1));
        assert(s.subrange(i, j) =~= vx_w3.since(&vx_w2));
        assert(sync_round(s));
        lemma_cat_push(vx_its, s);
        assert(w.since(&vx_w0) =~= cat(vx_its) + s);
        vx_its = vx_its.push(s);
    }
#end
