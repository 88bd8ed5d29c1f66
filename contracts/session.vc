Sessions: receive loops, admission of users and brokers (C10, C11, C16, C20, C21)
#feature strong-consistency
#include sync.vc assume
#include auth_broker.vc assume
#source cdn-broker/src/tasks/user/handler.rs
#raw
/// the topics a user's message stands for
pub open spec fn pruned<R: RunDef>(v: Seq<Topic>) -> Seq<Topic> { R::Topic::pruned(v) }
/// what is done about a user's message
pub open spec fn user_acted<R: RunDef>(me: BrokerIdentifier, u: UserPublicKey, raw: Seq<u8>, m: Message, ended: bool, s: Seq<Ev>) -> bool {
    match m {
        Message::Direct(d) => !ended && exists|k: UserPublicKey| *k == d.recipient && #[trigger] directed(me, k, raw, false, s),
        Message::Broadcast(b) => { let t = pruned::<R>(b.topics@); if t.len() == 0 { ended && s.len() == 0 } else { !ended && broadcasted(t, raw, false, s) } },
        Message::Subscribe(v) => { let t = pruned::<R>(v@); if t.len() == 0 { ended && s.len() == 0 } else { !ended && s.len() == 1 && (s[0] matches Ev::Write(a, b) && b.inv() && b.user_subs(&a, u, t, true)) } },
        Message::Unsubscribe(v) => { let t = pruned::<R>(v@); if t.len() == 0 { ended && s.len() == 0 } else { !ended && s.len() == 1 && (s[0] matches Ev::Write(a, b) && b.inv() && b.user_subs(&a, u, t, false)) } },
        _ => ended && s.len() == 0,
    }
}
/// what is done about a broker's message
pub open spec fn broker_acted(me: BrokerIdentifier, p: BrokerIdentifier, raw: Seq<u8>, m: Message, ended: bool, s: Seq<Ev>) -> bool {
    match m {
        Message::Direct(d) => !ended && exists|k: UserPublicKey| *k == d.recipient && #[trigger] directed(me, k, raw, true, s),
        Message::Broadcast(b) => !ended && broadcasted(b.topics@, raw, true, s),
        Message::UserSync(v) => match unarchive::<DirectMap>(v@) { None => ended && s.len() == 0,
            Some(d) => !ended && s.len() == 1 && (s[0] matches Ev::Write(a, b) && b.inv() && b.users_synced(&a, &d)) },
        Message::TopicSync(v) => match unarchive::<TopicSyncMap>(v@) { None => ended && s.len() == 0,
            Some(d) => !ended && s.len() == 1 && (s[0] matches Ev::Write(a, b) && b.inv() && if a.brokers@.contains_key(p) { b.topics_synced(&a, p, &d) } else { b.broker_removed(&a, p) }) },
        _ => !ended && s.len() == 0,
    }
}
/// one round of a session: receive, decode, ask the hook, act
/// (h: what the hook remembers from the messages before)
pub open spec fn heard(c: Connection, h: HookSt, ended: bool, s: Seq<Ev>, acted: spec_fn(Seq<u8>, Message, Seq<Ev>) -> bool) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Recv(x, r) && x == c && match r {
        None => ended && s.len() == 1,
        Some(raw) => match decode(raw@) {
            None => ended && s.len() == 1,
            Some(m) => s.len() >= 2 && (s[1] matches Ev::Hook(h0, m0, v, m1, h1) && h0 == h && m0 == m && match v {
                None => ended && s.len() == 2,
                Some(HookResult::SkipMessage) => !ended && s.len() == 2,
                Some(HookResult::ProcessMessage) => acted(raw@, m1, tail(s, 2)),
            }),
        },
    })
}
pub open spec fn user_turn<R: RunDef>(me: BrokerIdentifier, u: UserPublicKey, c: Connection, h: HookSt, ended: bool, s: Seq<Ev>) -> bool {
    heard(c, h, ended, s, |raw: Seq<u8>, m: Message, t: Seq<Ev>| user_acted::<R>(me, u, raw, m, ended, t))
}
pub open spec fn broker_turn(me: BrokerIdentifier, p: BrokerIdentifier, c: Connection, h: HookSt, ended: bool, s: Seq<Ev>) -> bool {
    heard(c, h, ended, s, |raw: Seq<u8>, m: Message, t: Seq<Ev>| broker_acted(me, p, raw, m, ended, t))
}
/// what the session's hook remembers after n rounds
pub open spec fn hook_after(h: HookSt, its: Seq<Seq<Ev>>, n: int) -> HookSt { if n <= 0 { h } else { hook_left(its[n - 1]) } }
pub open spec fn hook_left(s: Seq<Ev>) -> HookSt { match s[1] { Ev::Hook(_, _, _, _, h) => h, _ => arbitrary() } }
pub open spec fn trig(its: Seq<Seq<Ev>>) -> bool { true }
pub open spec fn user_turns<R: RunDef>(me: BrokerIdentifier, u: UserPublicKey, c: Connection, h: HookSt, its: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < its.len() ==> user_turn::<R>(me, u, c, hook_after(h, its, i), false, #[trigger] its[i]) }
pub open spec fn broker_turns(me: BrokerIdentifier, p: BrokerIdentifier, c: Connection, h: HookSt, its: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < its.len() ==> broker_turn(me, p, c, hook_after(h, its, i), false, #[trigger] its[i]) }
/// a whole session of a user: complete rounds, then the one that ends it
pub open spec fn user_session_ran<R: RunDef>(me: BrokerIdentifier, u: UserPublicKey, c: Connection, h: HookSt, w0: Seq<Ev>, w1: Seq<Ev>) -> bool {
    exists|its: Seq<Seq<Ev>>| #[trigger] trig(its) && user_turns::<R>(me, u, c, h, its) && w0.len() + cat(its).len() <= w1.len()
        && w1.take((w0.len() + cat(its).len()) as int) =~= w0 + cat(its) && user_turn::<R>(me, u, c, hook_after(h, its, its.len() as int), true, tail(w1, w0.len() + cat(its).len()))
}
pub open spec fn broker_session_ran(me: BrokerIdentifier, p: BrokerIdentifier, c: Connection, h: HookSt, w0: Seq<Ev>, w1: Seq<Ev>) -> bool {
    exists|its: Seq<Seq<Ev>>| #[trigger] trig(its) && broker_turns(me, p, c, h, its) && w0.len() + cat(its).len() <= w1.len()
        && w1.take((w0.len() + cat(its).len()) as int) =~= w0 + cat(its) && broker_turn(me, p, c, hook_after(h, its, its.len() as int), true, tail(w1, w0.len() + cat(its).len()))
}
#end
#impl Inner only=user_receive_loop
#fn Inner::user_receive_loop
@effects
@ret r
@params public_key connection
@prop C20 C16
@local local_message_hook 0
@spec
    ensures user_session_ran::<Def>(self.identity, *public_key, connection, self.user_message_hook.st().named(hash_of(public_key)), old(w).trace(), final(w).trace()), r is Err,
@begin
    broadcast use ax_hook_clone;
    let ghost vx_h = self.user_message_hook.st().named(hash_of(public_key));
    let ghost vx_w0 = *w;
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_p = *w;
    let ghost mut vx_first = true;
    let ghost mut vx_asked = false;
    let ghost mut vx_w2 = *w;
    proof { assert(w.trace() =~= vx_w0.trace() + cat(vx_its)); }
@loop 0
    invariant
        trig(vx_its), user_turns::<Def>(self.identity, *public_key, connection, vx_h, vx_its),
        vx_p.trace() == vx_w0.trace() + cat(vx_its),
        vx_first ==> w.trace() == vx_p.trace(),
        !vx_first ==> w.grew(&vx_p) && user_turn::<Def>(self.identity, *public_key, connection, hook_after(vx_h, vx_its, vx_its.len() as int), false, tail(w.trace(), vx_p.trace().len())),
        local_message_hook.st() == if vx_first { vx_h } else { hook_left(tail(w.trace(), vx_p.trace().len())) }, vx_first ==> vx_its.len() == 0,
@loopstart 0
    proof {
        vx_asked = false;
        if !vx_first {
            let s = tail(w.trace(), vx_p.trace().len());
            lemma_cat_push(vx_its, s);
            assert(w.trace() =~= vx_w0.trace() + (cat(vx_its) + s));
            vx_its = vx_its.push(s);
        }
        vx_p = *w;
        vx_first = false;
        assert(trig(vx_its));
        assert(vx_p.trace().take((vx_w0.trace().len() + cat(vx_its).len()) as int) =~= vx_w0.trace() + cat(vx_its));
    }
@before ^match message
    proof { vx_asked = true; vx_w2 = *w; }
@loopend 0
    proof { if vx_asked {
        let n = vx_p.trace().len();
        assert(vx_w2.trace().len() == n + 2);
        lemma_tail(w.trace(), n, 2);
        assert(w.grew(&vx_w2));
        let t = tail(w.trace(), n);
        assert(t[0] == w.trace()[n as int] && t[1] == w.trace()[n as int + 1]);
        assert(w.trace()[n as int] == vx_w2.trace()[n as int] && w.trace()[n as int + 1] == vx_w2.trace()[n as int + 1]);
        assert(tail(t, 2) == w.since(&vx_w2));
        assert(user_acted::<Def>(self.identity, *public_key, raw_message@, message, false, w.since(&vx_w2)));
    } }
#end
#source cdn-broker/src/tasks/broker/handler.rs
#impl Inner only=broker_receive_loop
#fn Inner::broker_receive_loop
@effects
@ret r
@params broker_identifier connection
@prop C20
@local local_message_hook 0
@spec
    ensures broker_session_ran(self.identity, *broker_identifier, connection, self.broker_message_hook.st().named(hash_of(broker_identifier)), old(w).trace(), final(w).trace()), r is Err,
@begin
    broadcast use ax_hook_clone;
    let ghost vx_h = self.broker_message_hook.st().named(hash_of(broker_identifier));
    let ghost vx_w0 = *w;
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_p = *w;
    let ghost mut vx_first = true;
    let ghost mut vx_asked = false;
    let ghost mut vx_w2 = *w;
    proof { assert(w.trace() =~= vx_w0.trace() + cat(vx_its)); }
@loop 0
    invariant
        trig(vx_its), broker_turns(self.identity, *broker_identifier, connection, vx_h, vx_its),
        vx_p.trace() == vx_w0.trace() + cat(vx_its),
        vx_first ==> w.trace() == vx_p.trace(),
        !vx_first ==> w.grew(&vx_p) && broker_turn(self.identity, *broker_identifier, connection, hook_after(vx_h, vx_its, vx_its.len() as int), false, tail(w.trace(), vx_p.trace().len())),
        local_message_hook.st() == if vx_first { vx_h } else { hook_left(tail(w.trace(), vx_p.trace().len())) }, vx_first ==> vx_its.len() == 0,
@loopstart 0
    proof {
        vx_asked = false;
        if !vx_first {
            let s = tail(w.trace(), vx_p.trace().len());
            lemma_cat_push(vx_its, s);
            assert(w.trace() =~= vx_w0.trace() + (cat(vx_its) + s));
            vx_its = vx_its.push(s);
        }
        vx_p = *w;
        vx_first = false;
        assert(trig(vx_its));
        assert(vx_p.trace().take((vx_w0.trace().len() + cat(vx_its).len()) as int) =~= vx_w0.trace() + cat(vx_its));
    }
@before ^match message
    proof { vx_asked = true; vx_w2 = *w; }
@loopend 0
    proof { if vx_asked {
        let n = vx_p.trace().len();
        assert(vx_w2.trace().len() == n + 2);
        lemma_tail(w.trace(), n, 2);
        assert(w.grew(&vx_w2));
        let t = tail(w.trace(), n);
        assert(t[0] == w.trace()[n as int] && t[1] == w.trace()[n as int + 1]);
        assert(w.trace()[n as int] == vx_w2.trace()[n as int] && w.trace()[n as int + 1] == vx_w2.trace()[n as int + 1]);
        assert(tail(t, 2) == w.since(&vx_w2));
        assert(broker_acted(self.identity, *broker_identifier, raw_message@, message, false, w.since(&vx_w2)));
    } }
#end
#raw
/// a user's connection from start to finish: proven within the time limit, or nothing
pub open spec fn user_admission<R: RunDef>(me: BrokerIdentifier, c: Connection, s: Seq<Ev>) -> bool {
    exists|n: int, r: Option<(UserPublicKey, Vec<Topic>)>| 0 <= n < s.len() && #[trigger] user_verified::<R>(c, me, r, s.subrange(0, n))
        && (s[n] matches Ev::Limit(secs, in_time) && if in_time && r is Some { user_admitted::<R>(c, r->Some_0, tail(s, (n + 1) as nat)) } else { s.len() == n + 1 })
}
pub open spec fn user_admitted<R: RunDef>(c: Connection, r: (UserPublicKey, Vec<Topic>), s: Seq<Ev>) -> bool {
    s.len() >= 2 && (s[0] matches Ev::Spawn(t, h) && t == Task::UserSession(r.0, c)
        && (s[1] matches Ev::Write(a, b) && b.inv() && b.user_added(&a, r.0, c, pruned::<R>(r.1@), h)))
    && synced_out(tail(s, 2))
}
pub open spec fn synced_out(s: Seq<Ev>) -> bool {
    exists|i: nat, o1: bool, o2: bool| i <= s.len() && #[trigger] partial_topics(o1, s.subrange(0, i as int)) && #[trigger] partial_users(o2, tail(s, i))
}
/// starts a session as a task of its own (tokio's spawn)
#[verifier::external_body]
pub fn spawn_user_session<Def: RunDef>(self_: Arc<Inner<Def>>, public_key: UserPublicKey, connection: Connection, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Spawn(Task::UserSession(public_key, connection), r.ah())) { unimplemented!() }
#[verifier::external_body]
pub fn spawn_broker_session<Def: RunDef>(self_: Arc<Inner<Def>>, broker_identifier: BrokerIdentifier, connection: Connection, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Spawn(Task::BrokerSession(broker_identifier, connection), r.ah())) { unimplemented!() }
#end
#source cdn-broker/src/tasks/user/handler.rs
#impl Inner only=handle_user_connection
#fn Inner::handle_user_connection
@effects
@params connection
@prop C10 C16 C21
@spawn 0 user_session(self_, public_key_, connection_)
@spec
    ensures final(w).grew(old(w)), user_admission::<Def>(self.identity, connection, final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
    let ghost vx_c = connection;
@before ^return
    proof {
        let s = w.since(&vx_w0);
        assert(s.subrange(0, s.len() - 1) =~= s.drop_last());
        assert(s.last() is Limit);
    }
@after ^let Ok(Ok(
    let ghost vx_w1 = *w;
    let ghost vx_s1 = w.since(&vx_w0);
    let ghost vx_r = (public_key, topics);
    proof {
        assert(vx_s1.last() is Limit);
        assert(user_verified::<Def>(vx_c, self.identity, Some(vx_r), vx_s1.drop_last()));
    }
@after add_user
    let ghost vx_w2 = *w;
@before ^if let Err(err) = self.partial_topic_sync
    let ghost vx_s2 = w.since(&vx_w2);
@after ^if let Err(err) = self.partial_topic_sync
    let ghost vx_w3 = *w;
    let ghost vx_s3 = w.since(&vx_w2);
    proof { assert(exists|o: bool| #[trigger] partial_topics(o, vx_s3)); }
@after ^if let Err(err) = self.partial_user_sync
    proof {
        let s4 = w.since(&vx_w2);
        assert(s4.subrange(0, vx_s3.len() as int) =~= vx_s3);
        assert(tail(s4, vx_s3.len()) =~= w.since(&vx_w3));
        assert(exists|o: bool| #[trigger] partial_users(o, tail(s4, vx_s3.len())));
        assert(synced_out(s4));
    }
@end
    proof {
        let s = w.since(&vx_w0);
        let n = vx_s1.len() - 1;
        assert(s.subrange(0, n) =~= vx_s1.drop_last());
        assert(s[n] == vx_s1[n]);
        let t = tail(s, (n + 1) as nat);
        assert(t =~= w.since(&vx_w1));
        let u = vx_w2.since(&vx_w1);
        assert(u.len() == 2);
        assert(t[0] == u[0] && t[1] == u[1]);
        assert(tail(t, 2) =~= w.since(&vx_w2));
        assert(match t[0] { Ev::Spawn(k, h) => k == Task::UserSession(vx_r.0, vx_c), _ => false });
        assert(match (t[0], t[1]) { (Ev::Spawn(k, h), Ev::Write(a, b)) => b.user_added(&a, vx_r.0, vx_c, pruned::<Def>(vx_r.1@), h), _ => false });
        assert(user_admitted::<Def>(vx_c, vx_r, t));
    }
#end
#fn Inner::user_session
@effects
@prop C20
@sig
(self_: Arc<Self>, public_key_: UserPublicKey, connection_: Connection)
@spec
    ensures exists|mid: Seq<Ev>| #[trigger] user_session_ran::<Def>(self_.identity, public_key_, connection_, self_.user_message_hook.st().named(hash_of(&public_key_)), old(w).trace(), mid)
        && final(w).trace().len() == mid.len() + 1 && final(w).trace().drop_last() == mid && (final(w).trace().last() matches Ev::Write(a, b) && b.inv() && b.user_removed(&a, public_key_)),
#end
#raw
/// both directions of the proof between brokers, in the order fixed by who dialled
pub open spec fn shaken<R: RunDef>(i: &Inner<R>, c: Connection, out: bool, r: Option<BrokerIdentifier>, s: Seq<Ev>) -> bool {
    if out {
        ||| r is None && authed_with_broker(c, i.keypair, None, s)
        ||| exists|n: nat, r1: Option<BrokerIdentifier>, good: bool| n <= s.len() && r1 is Some && #[trigger] authed_with_broker(c, i.keypair, r1, s.subrange(0, n as int))
            && r == (if good { r1 } else { None }) && #[trigger] broker_verified::<<R::Broker as ConnectionDef>::Scheme>(c, i.identity, i.keypair.public_key, good, tail(s, n))
    } else {
        ||| r is None && broker_verified::<<R::Broker as ConnectionDef>::Scheme>(c, i.identity, i.keypair.public_key, false, s)
        ||| exists|n: nat| n <= s.len() && #[trigger] broker_verified::<<R::Broker as ConnectionDef>::Scheme>(c, i.identity, i.keypair.public_key, true, s.subrange(0, n as int))
            && #[trigger] authed_with_broker(c, i.keypair, r, tail(s, n))
    }
}
/// a broker's connection from start to finish
pub open spec fn broker_admission<R: RunDef>(i: &Inner<R>, c: Connection, out: bool, s: Seq<Ev>) -> bool {
    exists|n: int, r: Option<BrokerIdentifier>| 0 <= n < s.len() && #[trigger] shaken::<R>(i, c, out, r, s.subrange(0, n))
        && (s[n] matches Ev::Limit(secs, in_time) && if in_time && r is Some { broker_admitted(c, r->Some_0, tail(s, (n + 1) as nat)) } else { s.len() == n + 1 })
}
pub open spec fn broker_admitted(c: Connection, p: BrokerIdentifier, s: Seq<Ev>) -> bool {
    s.len() >= 2 && (s[0] matches Ev::Spawn(t, h) && t == Task::BrokerSession(p, c)
        && (s[1] matches Ev::Write(a, b) && b.inv() && b.broker_added(&a, p, c, h)))
    && broker_welcomed(p, tail(s, 2))
}
pub open spec fn dropped(p: BrokerIdentifier, s: Seq<Ev>) -> bool { s.len() == 1 && (s[0] matches Ev::Write(a, b) && b.inv() && b.broker_removed(&a, p)) }
/// the full topic state, then the full directory; a peer that cannot be served is dropped
pub open spec fn broker_welcomed(p: BrokerIdentifier, s: Seq<Ev>) -> bool {
    exists|i: nat, o1: bool| i <= s.len() && #[trigger] full_topics(p, o1, s.subrange(0, i as int))
        && if !o1 { dropped(p, tail(s, i)) } else { broker_welcomed2(p, tail(s, i)) }
}
pub open spec fn broker_welcomed2(p: BrokerIdentifier, s: Seq<Ev>) -> bool {
    exists|i: nat, o1: bool| i <= s.len() && #[trigger] full_users(p, o1, s.subrange(0, i as int)) && if !o1 { dropped(p, tail(s, i)) } else { i == s.len() }
}
pub proof fn lemma_broker_admission<R: RunDef>(i: &Inner<R>, c: Connection, out: bool, p: BrokerIdentifier, w0: World, w1: World, w2: World, w3: World)
    requires w1.grew(&w0), w2.grew(&w1), w3.grew(&w2), w1.since(&w0).len() > 0, (w1.since(&w0).last() matches Ev::Limit(secs, in_time) && in_time),
        shaken::<R>(i, c, out, Some(p), w1.since(&w0).drop_last()), broker_welcomed(p, w3.since(&w2)),
        ({ let u = w2.since(&w1); u.len() == 2 && (u[0] matches Ev::Spawn(k, h) && k == Task::BrokerSession(p, c) && (u[1] matches Ev::Write(a, b) && b.inv() && b.broker_added(&a, p, c, h))) })
    ensures w3.grew(&w0), broker_admission::<R>(i, c, out, w3.since(&w0))
{
    hide(shaken); hide(broker_welcomed); hide(Connections::broker_added); hide(Connections::inv);
    lemma_since(w0, w1, w2); lemma_since(w0, w2, w3); lemma_since(w1, w2, w3);
    let s = w3.since(&w0); let s1 = w1.since(&w0); let n = s1.len() - 1;
    assert(s.subrange(0, n) =~= s1.drop_last());
    assert(s[n] == s1[n]);
    let t = tail(s, (n + 1) as nat);
    assert(t =~= w3.since(&w1));
    let u = w2.since(&w1);
    assert(t[0] == u[0] && t[1] == u[1]);
    assert(tail(t, 2) =~= w3.since(&w2));
    assert(broker_admitted(c, p, t));
    assert(shaken::<R>(i, c, out, Some(p), s.subrange(0, n)) && 0 <= n < s.len());
}
pub proof fn lemma_drop(p: BrokerIdentifier, s: Seq<Ev>, full: spec_fn(bool, Seq<Ev>) -> bool)
    requires s.len() > 0, full(false, s.drop_last()), s.last() matches Ev::Write(a, b) && b.inv() && b.broker_removed(&a, p)
    ensures ({ let n = (s.len() - 1) as nat; full(false, s.subrange(0, n as int)) && dropped(p, tail(s, n)) })
{
    let n = (s.len() - 1) as nat;
    assert(s.subrange(0, n as int) =~= s.drop_last());
    assert(tail(s, n)[0] == s.last());
}
/// the first sync failed
pub proof fn lemma_dropped1(p: BrokerIdentifier, w2: World, w: World)
    requires w.grew(&w2), ({ let s = w.since(&w2); s.len() > 0 && full_topics(p, false, s.drop_last()) && (s.last() matches Ev::Write(a, b) && b.inv() && b.broker_removed(&a, p)) })
    ensures broker_welcomed(p, w.since(&w2))
{ lemma_drop(p, w.since(&w2), |o: bool, s: Seq<Ev>| full_topics(p, o, s)); }
/// the second sync was made
pub proof fn lemma_dropped2(p: BrokerIdentifier, w2: World, w3: World, w: World)
    requires w3.grew(&w2), w.grew(&w3), full_topics(p, true, w3.since(&w2)),
        ({ let s = w.since(&w3); ||| full_users(p, true, s)
            ||| s.len() > 0 && full_users(p, false, s.drop_last()) && (s.last() matches Ev::Write(a, b) && b.inv() && b.broker_removed(&a, p)) })
    ensures broker_welcomed(p, w.since(&w2))
{
    lemma_since(w2, w3, w);
    let s = w.since(&w3);
    if full_users(p, true, s) { assert(s.subrange(0, s.len() as int) =~= s); }
    else { lemma_drop(p, s, |o: bool, x: Seq<Ev>| full_users(p, o, x)); }
    assert(broker_welcomed2(p, s));
    let n = w3.since(&w2).len();
    assert(full_topics(p, true, w.since(&w2).subrange(0, n as int)));
    assert(tail(w.since(&w2), n) == s);
}
#end
#source cdn-broker/src/tasks/broker/handler.rs
#macros cdn-proto/src/connection/auth/broker.rs
#impl Inner only=handle_broker_connection
#fn Inner::handle_broker_connection
@effects
@params connection is_outbound
@prop C11 C21
@async 0 handshake(&self, connection.clone(), is_outbound)
@spawn 0 broker_session(self_, broker_identifier_, connection_)
@spec
    ensures final(w).grew(old(w)), broker_admission::<Def>(&*self, connection, is_outbound, final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
    let ghost vx_c = connection;
    let ghost mut vx_w1 = *w;
    let ghost mut vx_w2 = *w;
    let ghost mut vx_w3 = *w;
    let ghost mut vx_p: BrokerIdentifier = arbitrary();
    let ghost mut vx_proven = false;
@before ^return
    proof {
        if vx_proven {
            lemma_dropped1(vx_p, vx_w2, *w);
            lemma_broker_admission::<Def>(&*self, vx_c, is_outbound, vx_p, vx_w0, vx_w1, vx_w2, *w);
        } else {
            let s = w.since(&vx_w0);
            assert(s.subrange(0, s.len() - 1) =~= s.drop_last());
            assert(s.last() is Limit);
        }
    }
@after ^let broker_identifier =
    proof {
        vx_w1 = *w;
        vx_p = broker_identifier;
        vx_proven = true;
        assert(w.since(&vx_w0).last() is Limit);
        assert(shaken::<Def>(&*self, vx_c, is_outbound, Some(vx_p), w.since(&vx_w0).drop_last()));
    }
@after add_broker
    proof {
        vx_w2 = *w;
        let u = vx_w2.since(&vx_w1);
        assert(u.len() == 2 && (u[0] matches Ev::Spawn(k, h) && k == Task::BrokerSession(vx_p, vx_c) && (u[1] matches Ev::Write(a, b) && b.broker_added(&a, vx_p, vx_c, h))));
    }
@before ^if let Err(err) = self.full_user_sync
    proof {
        vx_w3 = *w;
        assert(full_topics(vx_p, true, w.since(&vx_w2)));
    }
@end
    proof {
        lemma_dropped2(vx_p, vx_w2, vx_w3, *w);
        lemma_broker_admission::<Def>(&*self, vx_c, is_outbound, vx_p, vx_w0, vx_w1, vx_w2, *w);
    }
#end
#fn Inner::handshake
@effects
@ret r
@prop C11
@sig
(self: &Arc<Self>, mut connection: Connection, is_outbound: bool) -> Result<BrokerIdentifier>
@spec
    ensures final(w).grew(old(w)), shaken::<Def>(&**self, connection, is_outbound, vx_ok(r), final(w).since(old(w))),
@begin
    broadcast use lemma_since;
#end
#fn Inner::broker_session
@effects
@prop C20
@sig
(self_: Arc<Self>, broker_identifier_: BrokerIdentifier, connection_: Connection)
@spec
    ensures exists|mid: Seq<Ev>| #[trigger] broker_session_ran(self_.identity, broker_identifier_, connection_, self_.broker_message_hook.st().named(hash_of(&broker_identifier_)), old(w).trace(), mid)
        && final(w).trace().len() == mid.len() + 1 && final(w).trace().drop_last() == mid && (final(w).trace().last() matches Ev::Write(a, b) && b.inv() && b.broker_removed(&a, broker_identifier_)),
#end
