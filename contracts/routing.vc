Senders and routing (C04, C05, C22)
#include tasks_env.vc
#raw
pub enum Peer { U(UserPublicKey), B(BrokerIdentifier) }
/// what happens when the bytes m are to be sent to user u
pub open spec fn sent_to_user(u: UserPublicKey, m: Seq<u8>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && if c.has_user(u) {
        s.len() >= 2 && (s[1] matches Ev::Send(x, b, ok) && x == c.users@[u].0 && b == m
            && if ok { s.len() == 2 } else { s.len() == 3 && (s[2] matches Ev::Write(p, q) && q.inv() && q.user_removed(&p, u)) })
    } else { s.len() == 1 })
}
pub open spec fn sent_to_broker(u: BrokerIdentifier, m: Seq<u8>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && if c.brokers@.contains_key(u) {
        s.len() >= 2 && (s[1] matches Ev::Send(x, b, ok) && x == c.brokers@[u].connection && b == m
            && if ok { s.len() == 2 } else { s.len() == 3 && (s[2] matches Ev::Write(p, q) && q.inv() && q.broker_removed(&p, u)) })
    } else { s.len() == 1 })
}
pub open spec fn sent_to(p: Peer, m: Seq<u8>, s: Seq<Ev>) -> bool { match p { Peer::U(u) => sent_to_user(u, m, s), Peer::B(b) => sent_to_broker(b, m, s) } }
/// m goes to each of the peers, one after the other, whatever becomes of the other sends
pub open spec fn fan(ps: Seq<Peer>, m: Seq<u8>, parts: Seq<Seq<Ev>>) -> bool {
    parts.len() == ps.len() && (forall|i: int| 0 <= i < ps.len() ==> sent_to(ps[i], m, #[trigger] parts[i]))
}
pub open spec fn fanned(ps: Seq<Peer>, m: Seq<u8>, s: Seq<Ev>) -> bool { exists|parts: Seq<Seq<Ev>>| #[trigger] fan(ps, m, parts) && s == cat(parts) }
pub open spec fn all_brokers_of(c: &Connections, ps: Seq<Peer>) -> bool {
    ps.no_duplicates() && (forall|p: Peer| #[trigger] ps.contains(p) <==> (p matches Peer::B(b) && c.brokers@.contains_key(b)))
}
pub open spec fn sent_to_brokers(m: Seq<u8>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && exists|ps: Seq<Peer>| #[trigger] all_brokers_of(&c, ps) && fanned(ps, m, tail(s, 1)))
}
pub open spec fn interested(c: &Connections, topics: Seq<Topic>, to_users_only: bool, ps: Seq<Peer>) -> bool {
    ps.no_duplicates() && (forall|p: Peer| #[trigger] ps.contains(p) <==> match p {
        Peer::U(u) => c.wants_u(u, topics, topics.len() as int),
        Peer::B(b) => !to_users_only && c.wants_b(b, topics, topics.len() as int) })
}
pub open spec fn broadcasted(topics: Seq<Topic>, m: Seq<u8>, to_users_only: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && exists|ps: Seq<Peer>| #[trigger] interested(&c, topics, to_users_only, ps) && fanned(ps, m, tail(s, 1)))
}
pub open spec fn directed(me: BrokerIdentifier, u: UserPublicKey, m: Seq<u8>, to_user_only: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Read(c) && match c.dm().val(u) {
        None => s.len() == 1,
        Some(b) => if b == me { sent_to_user(u, m, tail(s, 1)) } else if to_user_only { s.len() == 1 } else { sent_to_broker(b, m, tail(s, 1)) },
    })
}
#end
#source cdn-broker/src/tasks/user/sender.rs
#impl Inner
#fn Inner::try_send_to_user
@effects
@params user message
@prop C04 C05 C22
@spec
    ensures final(w).grew(old(w)), sent_to_user(*user, message@, final(w).since(old(w))),
#end
#source cdn-broker/src/tasks/broker/sender.rs
#impl Inner
#fn Inner::try_send_to_broker
@effects
@params broker_identifier message
@prop C04 C05 C21 C22
@spec
    ensures final(w).grew(old(w)), sent_to_broker(*broker_identifier, message@, final(w).since(old(w))),
#end
#fn Inner::try_send_to_brokers
@effects
@params message
@prop C21
@local brokers 0
@spec
    ensures final(w).grew(old(w)), sent_to_brokers(message@, final(w).since(old(w))),
@loop 0
    invariant
        forall|i: int| 0 <= i < $it.pos() ==> sent_to_broker($it.all()[i], message@, #[trigger] vx_parts[i]),
        vx_parts.len() == $it.pos(), w.grew(&vx_w0), w.since(&vx_w0) == cat(vx_parts),
@beforeloop 0
    let ghost mut vx_parts = Seq::<Seq<Ev>>::empty();
    let ghost vx_w0 = *w;
    proof { assert(w.since(&vx_w0) =~= cat(vx_parts)); }
@loopstart 0
    let ghost vx_w1 = *w;
@loopend 0
    proof {
        lemma_cat_push(vx_parts, w.since(&vx_w1));
        assert(w.since(&vx_w0) =~= cat(vx_parts) + w.since(&vx_w1));
        vx_parts = vx_parts.push(w.since(&vx_w1));
    }
@end
    proof {
        let all = $it0.all();
        let ps = all.map(|i: int, b: BrokerIdentifier| Peer::B(b));
        let c = old_read(w.since(old(w)));
        assert(w.trace()[old(w).trace().len() as int] == vx_w0.trace()[old(w).trace().len() as int]);
        assert(vx_w0.trace()[old(w).trace().len() as int] == w.since(old(w))[0]);
        assert forall|i: int| 0 <= i < ps.len() implies sent_to(ps[i], message@, #[trigger] vx_parts[i]) by {}
        assert forall|p: Peer| #[trigger] ps.contains(p) <==> (p matches Peer::B(b) && c.brokers@.contains_key(b)) by {
            if ps.contains(p) { let i = ps.index_of(p); assert(all.contains(all[i])); }
            if let Peer::B(b) = p { if c.brokers@.contains_key(b) { assert(all.contains(b)); let i = all.index_of(b); assert(ps[i] == p); } }
        }
        assert(all_brokers_of(&c, ps));
        assert(fan(ps, message@, vx_parts));
        assert(tail(w.since(old(w)), 1) =~= w.since(&vx_w0));
    }
#end
#raw
pub open spec fn old_read(s: Seq<Ev>) -> Connections { match s[0] { Ev::Read(c) => c, _ => arbitrary() } }
#end

#source cdn-broker/src/tasks/broker/handler.rs
#impl Inner only=handle_direct_message,handle_broadcast_message
#fn Inner::handle_direct_message
@effects
@params user_public_key message to_user_only
@prop C05
@spec
    ensures final(w).grew(old(w)), directed(self.identity, *user_public_key, message@, to_user_only, final(w).since(old(w))),
@begin
    let ghost vx_w0 = *w;
@after let broker_identifier =
    let ghost vx_w1 = *w;
@end
    proof { assert(tail(w.since(&vx_w0), 1) =~= w.since(&vx_w1)); }
#end
#fn Inner::handle_broadcast_message
@effects
@params topics message to_users_only
@local interested_brokers 0
@local interested_users 1
@prop C04
@spec
    ensures final(w).grew(old(w)), broadcasted(topics@, message@, to_users_only, final(w).since(old(w))),
@loop 0
    invariant
        fan(vx_ps, message@, vx_parts), vx_ps == vx_ps0 + peers($it.all().take($it.pos() as int)),
        w.grew(&vx_w0), w.since(&vx_w0) == cat(vx_parts),
@beforeloop 0
    let ghost mut vx_parts = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_ps = Seq::<Peer>::empty();
    let ghost vx_ps0 = vx_ps;
    let ghost vx_w0 = *w;
    proof { assert(w.since(&vx_w0) =~= cat(vx_parts)); assert(vx_ps =~= vx_ps0 + peers($it.all().take(0))); }
@loopstart 0
    let ghost vx_w1 = *w;
@loopend 0
    proof {
        let p = $it.all()[$it.pos() - 1].peer();
        lemma_fan_push(vx_ps, p, message@, vx_parts, w.since(&vx_w1));
        assert(w.since(&vx_w0) =~= cat(vx_parts) + w.since(&vx_w1));
        vx_parts = vx_parts.push(w.since(&vx_w1));
        vx_ps = vx_ps.push(p);
        assert(vx_ps =~= vx_ps0 + peers($it.all().take($it.pos() as int)));
    }
@beforeloop 1
    let ghost vx_ps1 = vx_ps;
    proof { assert(vx_ps =~= vx_ps1 + peers($it.all().take(0))); }
@loop 1
    invariant
        fan(vx_ps, message@, vx_parts), vx_ps == vx_ps1 + peers($it.all().take($it.pos() as int)),
        w.grew(&vx_w0), w.since(&vx_w0) == cat(vx_parts),
@loopstart 1
    let ghost vx_w1 = *w;
@loopend 1
    proof {
        let p = $it.all()[$it.pos() - 1].peer();
        lemma_fan_push(vx_ps, p, message@, vx_parts, w.since(&vx_w1));
        assert(w.since(&vx_w0) =~= cat(vx_parts) + w.since(&vx_w1));
        vx_parts = vx_parts.push(w.since(&vx_w1));
        vx_ps = vx_ps.push(p);
        assert(vx_ps =~= vx_ps1 + peers($it.all().take($it.pos() as int)));
    }
@after let (interested_brokers
    let ghost vx_bs = interested_brokers@;
    let ghost vx_us = interested_users@;
@end
    proof {
        let c = old_read(w.since(old(w)));
        assert(w.trace()[old(w).trace().len() as int] == vx_w0.trace()[old(w).trace().len() as int]);
        assert(vx_w0.trace()[old(w).trace().len() as int] == w.since(old(w))[0]);
        assert(vx_ps =~= peers($it0.all()) + peers($it1.all()));
        lemma_peers(&c, vx_ps, vx_bs, vx_us, topics@, to_users_only);
        assert(tail(w.since(old(w)), 1) =~= w.since(&vx_w0));
    }
#end
#raw
/// the peer an item of a list of recipients stands for
pub trait VxPeer: Sized { spec fn peer(&self) -> Peer; }
impl VxPeer for BrokerIdentifier { open spec fn peer(&self) -> Peer { Peer::B(*self) } }
impl VxPeer for UserPublicKey { open spec fn peer(&self) -> Peer { Peer::U(*self) } }
impl<T: VxPeer> VxPeer for &T { open spec fn peer(&self) -> Peer { (**self).peer() } }
pub open spec fn peers<T: VxPeer>(s: Seq<T>) -> Seq<Peer> { s.map(|i: int, x: T| x.peer()) }
pub proof fn lemma_fan_push(ps: Seq<Peer>, p: Peer, m: Seq<u8>, parts: Seq<Seq<Ev>>, s: Seq<Ev>)
    requires fan(ps, m, parts), sent_to(p, m, s)
    ensures fan(ps.push(p), m, parts.push(s)), cat(parts.push(s)) == cat(parts) + s
{
    lemma_cat_push(parts, s);
    let q = ps.push(p);
    let pp = parts.push(s);
    assert forall|i: int| 0 <= i < q.len() implies sent_to(q[i], m, #[trigger] pp[i]) by {
        if i < parts.len() { assert(sent_to(ps[i], m, parts[i])); }
    }
}
/// the recipients, in either order, are the peers that are to get the message
pub proof fn lemma_peers(c: &Connections, ps: Seq<Peer>, bs: Seq<BrokerIdentifier>, us: Seq<UserPublicKey>, topics: Seq<Topic>, to_users_only: bool)
    requires bs.no_duplicates(), us.no_duplicates(),
        ps =~= peers(bs) + peers(us) || ps =~= peers(us) + peers(bs),
        forall|b: BrokerIdentifier| #[trigger] bs.contains(b) <==> !to_users_only && c.wants_b(b, topics, topics.len() as int),
        forall|u: UserPublicKey| #[trigger] us.contains(u) <==> c.wants_u(u, topics, topics.len() as int),
    ensures interested(c, topics, to_users_only, ps)
{
    let (nb, nu) = if ps =~= peers(bs) + peers(us) { (0int, bs.len() as int) } else { (us.len() as int, 0int) };
    assert forall|i: int| 0 <= i < bs.len() implies ps[nb + i] == Peer::B(bs[i]) by {}
    assert forall|i: int| 0 <= i < us.len() implies ps[nu + i] == Peer::U(us[i]) by {}
    assert(ps.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies ps[i] != ps[j] by {}
    }
    assert forall|p: Peer| #[trigger] ps.contains(p) <==> match p {
        Peer::U(u) => c.wants_u(u, topics, topics.len() as int),
        Peer::B(b) => !to_users_only && c.wants_b(b, topics, topics.len() as int) } by {
        match p {
            Peer::U(u) => { if us.contains(u) { let i = us.index_of(u); assert(ps[nu + i] == p); } if ps.contains(p) { let i = ps.index_of(p); assert(us[i - nu] == u); assert(us.contains(u)); } }
            Peer::B(b) => { if bs.contains(b) { let i = bs.index_of(b); assert(ps[nb + i] == p); } if ps.contains(p) { let i = ps.index_of(p); assert(bs[i - nb] == b); assert(bs.contains(b)); } }
        }
    }
}
#end
