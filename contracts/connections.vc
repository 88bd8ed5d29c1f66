The broker's tables (C04, C05, C06, C07, C08)
#include versioned_map.vc assume
#include relational_map.vc assume
#include conns_types.vc
#include ident.vc
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier
#droppaths metrics
#source cdn-proto/src/connection/mod.rs
#item type UserPublicKey
#source cdn-proto/src/message.rs
#item type Topic
#source cdn-broker/src/connections/direct/mod.rs
#item type DirectMap
#source cdn-broker/src/connections/broadcast/mod.rs
#item enum SubscriptionStatus
#item type TopicSyncMap
#item struct BroadcastMap
#impl BroadcastMap trait=Default
#impl BroadcastMap
#source cdn-broker/src/connections/mod.rs
#item struct Broker
#item struct Connections
#raw
impl Connections {
    pub open spec fn bu(&self) -> RelationalMap<UserPublicKey, Topic> { self.broadcast_map.users }
    pub open spec fn bb(&self) -> RelationalMap<BrokerIdentifier, Topic> { self.broadcast_map.brokers }
    pub open spec fn dm(&self) -> DirectMap { self.direct_map }
    pub open spec fn tsm(&self) -> TopicSyncMap { self.broadcast_map.topic_sync_map }
    pub open spec fn prev(&self) -> Set<Topic> { self.broadcast_map.previous_subscribed_topics@ }
    pub open spec fn has_user(&self, k: UserPublicKey) -> bool { self.users@.contains_key(k) }
    pub open spec fn here(&self, k: UserPublicKey) -> bool { self.dm().val(k) == Some(self.identity) }
    /// the table invariant: a user is connected here exactly when the directory locates it here
    pub open spec fn inv0(&self) -> bool {
        self.bu().inv() && self.bb().inv() && self.dm().conflict_identity == self.identity
        && (forall|k: UserPublicKey| #[trigger] self.dm().dirty().contains(k) ==> self.dm().m().contains_key(k))
    }
    pub open spec fn inv(&self) -> bool {
        self.inv0()
        && (forall|k: UserPublicKey| #![trigger self.has_user(k)] #![trigger self.here(k)] self.has_user(k) <==> self.here(k))
        && (forall|t: Topic| #![trigger self.prev().contains(t)] #![trigger self.tsm().val(t)] self.prev().contains(t) <==> self.tsm().val(t) == Some(SubscriptionStatus::Subscribed))
        && self.tsm().dirty() =~= Set::<Topic>::empty()
    }
    pub open spec fn wants_u(&self, u: UserPublicKey, ts: Seq<Topic>, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] self.bu().rel(u, ts[i]) }
    pub open spec fn wants_b(&self, b: BrokerIdentifier, ts: Seq<Topic>, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] self.bb().rel(b, ts[i]) }
    /// no version counter is about to overflow
    pub open spec fn roomy(&self) -> bool {
        (forall|k: UserPublicKey| #[trigger] self.dm().room(k)) && (forall|t: Topic| #[trigger] self.tsm().room(t))
    }
    pub open spec fn same_topics(&self, o: &Self) -> bool { self.tsm() == o.tsm() && self.broadcast_map.previous_subscribed_topics == o.broadcast_map.previous_subscribed_topics }
    pub open spec fn same_brokers(&self, o: &Self) -> bool { self.brokers == o.brokers && self.bb() == o.bb() }
    pub open spec fn same_users(&self, o: &Self) -> bool { self.users == o.users && self.bu() == o.bu() && self.dm() == o.dm() }

    /// removing user k, leaving everybody else as it was
    pub open spec fn user_removed(&self, o: &Self, k: UserPublicKey) -> bool {
        self.identity == o.identity && self.same_brokers(o) && self.same_topics(o)
        && self.users@ =~= o.users@.remove(k)
        && (forall|k2: UserPublicKey, t: Topic| #![trigger self.bu().rel(k2, t)] self.bu().rel(k2, t) <==> o.bu().rel(k2, t) && k2 != k)
        && (if o.here(k) { self.dm().same_but_local(&o.dm(), k, None) } else { self.dm() == o.dm() })
    }
    pub open spec fn stops_of_user(&self, k: UserPublicKey) -> Seq<AbortHandle> { if self.users@.contains_key(k) { seq![self.users@[k].1] } else { seq![] } }
    pub open spec fn stops_of_broker(&self, b: BrokerIdentifier) -> Seq<AbortHandle> { if self.brokers@.contains_key(b) { seq![self.brokers@[b].handle] } else { seq![] } }
    pub open spec fn user_added(&self, o: &Self, k: UserPublicKey, c: Connection, ts: Seq<Topic>, h: AbortHandle) -> bool {
        self.identity == o.identity && self.same_brokers(o) && self.same_topics(o)
        && self.users@ =~= o.users@.insert(k, (c, h))
        && (forall|k2: UserPublicKey, t: Topic| #![trigger self.bu().rel(k2, t)] self.bu().rel(k2, t) <==> if k2 == k { ts.contains(t) } else { o.bu().rel(k2, t) })
        && self.dm().same_but_local(&o.dm(), k, Some(o.identity))
    }
    pub open spec fn broker_removed(&self, o: &Self, b: BrokerIdentifier) -> bool {
        self.identity == o.identity && self.same_users(o) && self.same_topics(o)
        && self.brokers@ =~= o.brokers@.remove(b)
        && (forall|k2: BrokerIdentifier, t: Topic| #![trigger self.bb().rel(k2, t)] self.bb().rel(k2, t) <==> o.bb().rel(k2, t) && k2 != b)
    }
    pub open spec fn broker_added(&self, o: &Self, b: BrokerIdentifier, c: Connection, h: AbortHandle) -> bool {
        self.identity == o.identity && self.same_users(o) && self.same_topics(o)
        && (forall|k2: BrokerIdentifier, t: Topic| #![trigger self.bb().rel(k2, t)] self.bb().rel(k2, t) <==> o.bb().rel(k2, t) && k2 != b)
        && self.brokers@.dom() =~= o.brokers@.dom().insert(b)
        && (forall|b2: BrokerIdentifier| #[trigger] o.brokers@.contains_key(b2) && b2 != b ==> self.brokers@[b2] == o.brokers@[b2])
        && self.brokers@[b].connection == c && self.brokers@[b].handle == h
        && self.brokers@[b].topic_sync_map.m() =~= Map::<Topic, VersionedValue<SubscriptionStatus>>::empty()
        && self.brokers@[b].topic_sync_map.dirty() =~= Set::<Topic>::empty() && self.brokers@[b].topic_sync_map.conflict_identity == 0
    }
    pub open spec fn user_subs(&self, o: &Self, k: UserPublicKey, ts: Seq<Topic>, add: bool) -> bool {
        self.identity == o.identity && self.same_brokers(o) && self.same_topics(o) && self.users == o.users && self.dm() == o.dm()
        && (forall|k2: UserPublicKey, t: Topic| #![trigger self.bu().rel(k2, t)] self.bu().rel(k2, t) <==> if k2 == k && ts.contains(t) { add } else { o.bu().rel(k2, t) })
    }
    pub open spec fn broker_subs(&self, o: &Self, b: BrokerIdentifier, ts: Seq<Topic>, add: bool) -> bool {
        self.identity == o.identity && self.same_users(o) && self.same_topics(o) && self.brokers == o.brokers
        && (forall|k2: BrokerIdentifier, t: Topic| #![trigger self.bb().rel(k2, t)] self.bb().rel(k2, t) <==> if k2 == b && ts.contains(t) { add } else { o.bb().rel(k2, t) })
    }

    // ---- user sync
    pub open spec fn overrides(&self, r: &DirectMap, k: UserPublicKey) -> bool { vm_wins(self.dm().m(), self.dm().conflict_identity, r.m(), r.conflict_identity, k) }
    /// the merge changed k's record and k is connected here but no longer located here
    pub open spec fn evicted(&self, r: &DirectMap, k: UserPublicKey) -> bool { self.has_user(k) && self.overrides(r, k) && r.m()[k].value != Some(self.identity) }
    /// the merge changed k's record to this broker although k is not connected here
    pub open spec fn stray(&self, r: &DirectMap, k: UserPublicKey) -> bool { !self.has_user(k) && self.overrides(r, k) && r.m()[k].value == Some(self.identity) }
    pub open spec fn cleared(&self, r: &DirectMap, k: UserPublicKey) -> bool { self.overrides(r, k) && !(self.has_user(k) && r.m()[k].value == Some(self.identity)) }
    pub open spec fn merged_entry(&self, r: &DirectMap, k: UserPublicKey) -> Option<VersionedValue<BrokerIdentifier>> { vx_opt(vm_merged(self.dm().m(), self.dm().conflict_identity, r.m(), r.conflict_identity), k) }
    pub open spec fn synced_entry(&self, r: &DirectMap, k: UserPublicKey) -> Option<VersionedValue<BrokerIdentifier>> {
        if self.stray(r, k) { Some(VersionedValue { value: None, version: (r.m()[k].version + 1) as u64 }) } else { self.merged_entry(r, k) }
    }
    pub open spec fn users_synced(&self, o: &Self, r: &DirectMap) -> bool {
        self.identity == o.identity && self.same_brokers(o) && self.same_topics(o)
        && (forall|k: UserPublicKey| #![trigger vx_opt(self.users@, k)] vx_opt(self.users@, k) == (if o.evicted(r, k) { None } else { vx_opt(o.users@, k) }))
        && (forall|k: UserPublicKey, t: Topic| #![trigger self.bu().rel(k, t)] self.bu().rel(k, t) <==> o.bu().rel(k, t) && !o.cleared(r, k))
        && (forall|k: UserPublicKey| #![trigger vx_opt(self.dm().m(), k)] vx_opt(self.dm().m(), k) == o.synced_entry(r, k))
    }
    pub open spec fn evict_stop(&self, r: &DirectMap, h: AbortHandle) -> bool { exists|k: UserPublicKey| #[trigger] self.evicted(r, k) && self.users@[k].1 == h }
    /// the tasks stopped are those of the evicted users
    pub open spec fn evict_stops(&self, r: &DirectMap, s: Seq<AbortHandle>) -> bool {
        (forall|k: UserPublicKey| #[trigger] self.evicted(r, k) ==> s.contains(self.users@[k].1))
        && (forall|i: int| 0 <= i < s.len() ==> self.evict_stop(r, #[trigger] s[i]))
    }
    // ---- topic sync
    pub open spec fn topic_changed(&self, b: BrokerIdentifier, r: &TopicSyncMap, t: Topic) -> bool {
        vm_wins(self.brokers@[b].topic_sync_map.m(), self.brokers@[b].topic_sync_map.conflict_identity, r.m(), r.conflict_identity, t)
    }
    pub open spec fn topics_synced(&self, o: &Self, b: BrokerIdentifier, r: &TopicSyncMap) -> bool {
        self.identity == o.identity && self.same_users(o) && self.same_topics(o)
        && self.brokers@.dom() =~= o.brokers@.dom()
        && (forall|b2: BrokerIdentifier| #[trigger] o.brokers@.contains_key(b2) && b2 != b ==> self.brokers@[b2] == o.brokers@[b2])
        && self.brokers@[b].connection == o.brokers@[b].connection && self.brokers@[b].handle == o.brokers@[b].handle
        && self.brokers@[b].topic_sync_map.m() =~= vm_merged(o.brokers@[b].topic_sync_map.m(), o.brokers@[b].topic_sync_map.conflict_identity, r.m(), r.conflict_identity)
        && (forall|b2: BrokerIdentifier, t: Topic| #![trigger self.bb().rel(b2, t)] self.bb().rel(b2, t) <==> if b2 == b && o.topic_changed(b, r, t) { r.m()[t].value == Some(SubscriptionStatus::Subscribed) } else { o.bb().rel(b2, t) })
    }
    /// the pending change of the directory is taken: d is exactly it
    pub open spec fn users_taken(&self, a: &Self, d: Option<DirectMap>) -> bool {
        self.inv() && self.identity == a.identity && self.same_brokers(a) && self.same_topics(a) && self.users == a.users && self.bu() == a.bu()
        && self.dm().dirty() =~= Set::<UserPublicKey>::empty()
        && match d {
            Some(d) => d.m() =~= a.dm().m().restrict(a.dm().dirty()) && d.conflict_identity == a.identity && d.dirty() =~= Set::<UserPublicKey>::empty() && !(d.m().dom() =~= Set::<UserPublicKey>::empty()),
            None => forall|k: UserPublicKey| #[trigger] a.dm().dirty().contains(k) ==> !a.dm().m().contains_key(k),
        }
    }
    pub open spec fn topics_taken(&self, a: &Self, d: Option<TopicSyncMap>) -> bool {
        self.inv() && match d {
            Some(d) => (exists|t: Topic| a.interest_changed(t)) && self.topics_announced(a) && d.conflict_identity == a.tsm().conflict_identity
                && (forall|t: Topic| #![trigger vx_opt(d.m(), t)] vx_opt(d.m(), t) == if a.interest_changed(t) { Some(a.announce(t)) } else { None }),
            None => (forall|t: Topic| !a.interest_changed(t)) && *self == *a,
        }
    }
    pub open spec fn interest_changed(&self, t: Topic) -> bool { self.bu().some_key(t) != self.prev().contains(t) }
    pub open spec fn announce(&self, t: Topic) -> VersionedValue<SubscriptionStatus> {
        VersionedValue { value: Some(if self.bu().some_key(t) { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed }),
            version: if self.tsm().m().contains_key(t) { (self.tsm().m()[t].version + 1) as u64 } else { 1 } }
    }
    pub open spec fn topics_announced(&self, o: &Self) -> bool {
        self.identity == o.identity && self.same_users(o) && self.same_brokers(o)
        && (forall|t: Topic| #![trigger self.prev().contains(t)] self.prev().contains(t) <==> o.bu().some_key(t))
        && (forall|t: Topic| #![trigger vx_opt(self.tsm().m(), t)] vx_opt(self.tsm().m(), t) == if o.interest_changed(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) })
    }
}
pub proof fn lemma_topics(o: &Connections, n: &Connections)
    requires o.inv(), n.same_topics(o)
    ensures forall|t: Topic| #![trigger n.prev().contains(t)] #![trigger n.tsm().val(t)] n.prev().contains(t) <==> n.tsm().val(t) == Some(SubscriptionStatus::Subscribed), n.tsm().dirty() =~= Set::<Topic>::empty(),
        o.roomy() ==> forall|t: Topic| #[trigger] n.tsm().room(t)
{
    assert forall|t: Topic| n.prev().contains(t) <==> n.tsm().val(t) == Some(SubscriptionStatus::Subscribed) by { assert(o.prev().contains(t) <==> o.tsm().val(t) == Some(SubscriptionStatus::Subscribed)); }
    if o.roomy() { assert forall|t: Topic| #[trigger] n.tsm().room(t) by { assert(o.tsm().room(t)); } }
}
pub proof fn lemma_users(o: &Connections, n: &Connections)
    requires o.inv(), n.same_topics(o), n.identity == o.identity, n.users == o.users, n.dm() == o.dm(), n.bu().inv(), n.bb().inv()
    ensures n.inv()
{
    lemma_topics(o, n);
    assert forall|k: UserPublicKey| #[trigger] n.dm().dirty().contains(k) implies n.dm().m().contains_key(k) by { assert(o.dm().dirty().contains(k)); }
    assert forall|k: UserPublicKey| n.has_user(k) <==> n.here(k) by { assert(o.has_user(k) <==> o.here(k)); }
}
/// one directory entry and one user changed together
pub proof fn lemma_user_changed(o: &Connections, n: &Connections, k0: UserPublicKey)
    requires o.inv(), n.same_topics(o), n.identity == o.identity, n.inv0(),
        n.has_user(k0) <==> n.here(k0), forall|k: UserPublicKey| k != k0 ==> (#[trigger] n.has_user(k) <==> o.has_user(k)),
        forall|k: UserPublicKey| k != k0 ==> #[trigger] vx_opt(n.dm().m(), k) == vx_opt(o.dm().m(), k)
    ensures n.inv()
{
    lemma_topics(o, n);
    assert forall|k: UserPublicKey| n.has_user(k) <==> n.here(k) by { assert(o.has_user(k) <==> o.here(k)); assert(vx_opt(n.dm().m(), k) == vx_opt(n.dm().m(), k)); }
}
#end
#impl Connections
#fn BroadcastMap::default
@ret r
@prop C06
@spec
    ensures r.users.inv(), r.brokers.inv(), forall|k: UserPublicKey, t: Topic| !r.users.rel(k, t), forall|k: BrokerIdentifier, t: Topic| !r.brokers.rel(k, t),
        r.previous_subscribed_topics@ =~= Set::<Topic>::empty(), r.topic_sync_map.m() =~= Map::<Topic, VersionedValue<SubscriptionStatus>>::empty(), r.topic_sync_map.dirty() =~= Set::<Topic>::empty(), r.topic_sync_map.conflict_identity == 0,
#end
#fn BroadcastMap::new
@ret r
@prop C06
@spec
    ensures r.users.inv(), r.brokers.inv(), forall|k: UserPublicKey, t: Topic| !r.users.rel(k, t), forall|k: BrokerIdentifier, t: Topic| !r.brokers.rel(k, t),
        r.previous_subscribed_topics@ =~= Set::<Topic>::empty(), r.topic_sync_map.m() =~= Map::<Topic, VersionedValue<SubscriptionStatus>>::empty(), r.topic_sync_map.dirty() =~= Set::<Topic>::empty(), r.topic_sync_map.conflict_identity == 0,
#end
#fn Connections::new
@ret r
@params identity
@prop C06
@spec
    ensures r.inv(), r.identity == identity, r.users@ =~= Map::<UserPublicKey, (Connection, AbortHandle)>::empty(), r.brokers@ =~= Map::<BrokerIdentifier, Broker>::empty(),
#end
#fn Connections::get_broker_identifier_of_user
@ret r
@params user
@prop C05
@spec
    ensures r == self.dm().val(*user),
#end
#fn Connections::get_broker_connection
@ret r
@params broker_identifier
@prop C04 C05 C21 C22
@spec
    ensures r == (if self.brokers@.contains_key(*broker_identifier) { Some(self.brokers@[*broker_identifier].connection) } else { None }),
#end
#fn Connections::get_user_connection
@ret r
@params user
@prop C04 C05 C22
@spec
    ensures r == (if self.users@.contains_key(*user) { Some(self.users@[*user].0) } else { None }),
#end
#fn Connections::get_broker_identifiers
@ret r
@prop C21
@spec
    ensures r@.no_duplicates(), forall|b: BrokerIdentifier| #![trigger r@.contains(b)] #![trigger self.brokers@.contains_key(b)] r@.contains(b) <==> self.brokers@.contains_key(b),
#end
#fn Connections::all_brokers
@ret r
@prop C18
@spec
    ensures r@.no_duplicates(), forall|b: BrokerIdentifier| #![trigger r@.contains(b)] #![trigger self.brokers@.contains_key(b)] r@.contains(b) <==> self.brokers@.contains_key(b),
#end
#fn Connections::all_users
@ret r
@prop C19
@spec
    ensures r@.no_duplicates(), forall|b: UserPublicKey| #![trigger r@.contains(b)] #![trigger self.has_user(b)] r@.contains(b) <==> self.has_user(b),
#end
#fn Connections::num_users
@ret r
@prop C18
@spec
    ensures r == self.users@.dom().len(),
#end
#fn Connections::get_interested_by_topic
@ret r
@params topics to_users_only
@prop C04
@spec
    requires self.inv(),
    ensures
        r.0@.no_duplicates(), r.1@.no_duplicates(),
        forall|b: BrokerIdentifier| #[trigger] r.0@.contains(b) <==> !to_users_only && self.wants_b(b, topics@, topics@.len() as int),
        forall|u: UserPublicKey| #[trigger] r.1@.contains(u) <==> self.wants_u(u, topics@, topics@.len() as int),
@local broker_recipients 0
@local user_recipients 1
@loop 0
    invariant
        $it.all().len() == topics@.len(), forall|i: int| 0 <= i < topics@.len() ==> *(#[trigger] $it.all()[i]) == topics@[i],
        forall|u: UserPublicKey| #[trigger] user_recipients@.contains(u) <==> self.wants_u(u, topics@, $it.pos() as int),
        forall|b: BrokerIdentifier| #[trigger] broker_recipients@.contains(b) <==> !to_users_only && self.wants_b(b, topics@, $it.pos() as int),
@loopstart 0
    let ghost vx_n = $it.pos() as int;
    let ghost vx_u0 = user_recipients@;
    let ghost vx_b0 = broker_recipients@;
    proof {
        assert forall|u: UserPublicKey| self.wants_u(u, topics@, vx_n) <==> self.wants_u(u, topics@, vx_n - 1) || self.bu().rel(u, topics@[vx_n - 1]) by { }
        assert forall|b: BrokerIdentifier| self.wants_b(b, topics@, vx_n) <==> self.wants_b(b, topics@, vx_n - 1) || self.bb().rel(b, topics@[vx_n - 1]) by { }
    }
@beforeloop 1
    let ghost mut vx_d1 = Set::<UserPublicKey>::empty();
    let ghost vx_a1 = $it.all();
    proof { assert forall|u: UserPublicKey| #[trigger] $it.all().contains(u) <==> self.bu().rel(u, topics@[vx_n - 1]) by { } }
@loop 1
    invariant
        $it.all() == vx_a1,
        forall|i: int| 0 <= i < $it.pos() ==> vx_d1.contains(#[trigger] $it.all()[i]),
        forall|u: UserPublicKey| #[trigger] vx_d1.contains(u) ==> $it.all().contains(u),
        forall|u: UserPublicKey| #[trigger] user_recipients@.contains(u) <==> vx_u0.contains(u) || vx_d1.contains(u),
@loopstart 1
    proof { vx_d1 = vx_d1.insert($it.all()[$it.pos() - 1]); }
@afterloop 1
    proof { assert forall|u: UserPublicKey| #[trigger] user_recipients@.contains(u) <==> self.wants_u(u, topics@, vx_n) by { if vx_a1.contains(u) { assert(vx_d1.contains(vx_a1[vx_a1.index_of(u)])); } } }
@beforeloop 2
    let ghost mut vx_d2 = Set::<BrokerIdentifier>::empty();
    let ghost vx_a2 = $it.all();
    proof { assert forall|u: BrokerIdentifier| #[trigger] $it.all().contains(u) <==> self.bb().rel(u, topics@[vx_n - 1]) by { } }
@loop 2
    invariant
        $it.all() == vx_a2,
        forall|i: int| 0 <= i < $it.pos() ==> vx_d2.contains(#[trigger] $it.all()[i]),
        forall|u: BrokerIdentifier| #[trigger] vx_d2.contains(u) ==> $it.all().contains(u),
        forall|u: BrokerIdentifier| #[trigger] broker_recipients@.contains(u) <==> vx_b0.contains(u) || vx_d2.contains(u),
@loopstart 2
    proof { vx_d2 = vx_d2.insert($it.all()[$it.pos() - 1]); }
@afterloop 2
    proof { assert forall|u: BrokerIdentifier| #[trigger] broker_recipients@.contains(u) <==> self.wants_b(u, topics@, vx_n) by { if vx_a2.contains(u) { assert(vx_d2.contains(vx_a2[vx_a2.index_of(u)])); } } }
@afterloop 0
    let ghost vx_us = user_recipients@;
    let ghost vx_bs = broker_recipients@;
    proof {
        assert forall|u: UserPublicKey| #[trigger] vx_us.contains(u) <==> self.wants_u(u, topics@, topics@.len() as int) by { }
        assert forall|b: BrokerIdentifier| #[trigger] vx_bs.contains(b) <==> !to_users_only && self.wants_b(b, topics@, topics@.len() as int) by { }
    }
@end
    proof {
        assert(lists_set(vx_result.0@, vx_bs));
        assert(lists_set(vx_result.1@, vx_us));
        assert forall|b: BrokerIdentifier| #[trigger] vx_result.0@.contains(b) <==> vx_bs.contains(b) by { if vx_result.0@.contains(b) { let i = vx_result.0@.index_of(b); assert(vx_bs.contains(vx_result.0@[i])); } }
        assert forall|b: UserPublicKey| #[trigger] vx_result.1@.contains(b) <==> vx_us.contains(b) by { if vx_result.1@.contains(b) { let i = vx_result.1@.index_of(b); assert(vx_us.contains(vx_result.1@[i])); } }
    }
#end
#fn Connections::get_full_user_sync
@ret r
@prop C21
@spec
    ensures r == (if self.dm().m().dom() =~= Set::<UserPublicKey>::empty() { None } else { Some(self.dm()) }),
#end
#fn Connections::get_partial_user_sync
@ret r
@prop C21
@spec
    requires old(self).inv(),
    ensures final(self).users_taken(old(self), r),
        final(self).dm().m() =~= old(self).dm().m().remove_keys(old(self).dm().m().dom().filter(|k: UserPublicKey| old(self).dm().handed_out(k) && old(self).dm().val(k) is None)),
@end
    proof {
        let m0 = old(self).dm().m();
        assert forall|k: UserPublicKey| self.has_user(k) <==> self.here(k) by { assert(old(self).has_user(k) <==> old(self).here(k)); assert(vx_opt(self.dm().m(), k) == vx_opt(self.dm().m(), k)); }
        lemma_topics(old(self), self);
        assert forall|k: UserPublicKey| #[trigger] old(self).dm().dirty().contains(k) && vx_result is None implies !m0.contains_key(k) by {
            if m0.contains_key(k) { assert(m0.restrict(old(self).dm().dirty()).contains_key(k)); }
        }
    }
#end
#fn Connections::get_full_topic_sync
@ret r
@prop C08 C21
@spec
    ensures r == (if self.tsm().m().dom() =~= Set::<Topic>::empty() { None } else { Some(self.tsm()) }),
#end
#fn Connections::get_partial_topic_sync
@ret r
@prop C08 C21
@spec
    requires old(self).inv(), old(self).roomy(),
    ensures final(self).topics_taken(old(self), r),
@local previous 0
@local now 1
@local added 2
@local removed 3
@beforeloop 0
    let ghost mut vx_d0 = Set::<Topic>::empty();
    let ghost o = *old(self);
    let ghost vx_a0 = $it.all();
@loop 0
    invariant
        $it.all() == vx_a0,
        self.identity == o.identity, self.same_users(&o), self.same_brokers(&o), self.prev() == now@, self.tsm().conflict_identity == o.tsm().conflict_identity,
        forall|i: int| 0 <= i < $it.pos() ==> vx_d0.contains(#[trigger] vx_a0[i]),
        forall|i: int| $it.pos() <= i < vx_a0.len() ==> !vx_d0.contains(#[trigger] vx_a0[i]),
        forall|t: Topic| #[trigger] vx_d0.contains(t) ==> vx_a0.contains(t),
        forall|t: Topic| #![trigger vx_opt(self.tsm().m(), t)] #![trigger vx_opt(o.tsm().m(), t)] vx_opt(self.tsm().m(), t) == if vx_d0.contains(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) },
        self.tsm().dirty() =~= vx_d0,
@loopstart 0
    let ghost vx_s = *self;
    let ghost vx_t = vx_a0[$it.pos() - 1];
    let ghost vx_b0 = vx_d0;
    proof { assert(o.tsm().room(vx_t)); assert(vx_opt(self.tsm().m(), vx_t) == vx_opt(o.tsm().m(), vx_t)); vx_d0 = vx_d0.insert(vx_t); assert(now@.contains(vx_t)); assert(o.bu().some_key(vx_t)); }
@loopend 0
    proof {
        assert forall|t: Topic| #![trigger vx_opt(self.tsm().m(), t)] #![trigger vx_opt(o.tsm().m(), t)] vx_opt(self.tsm().m(), t) == if vx_d0.contains(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) } by {
            assert(vx_opt(vx_s.tsm().m(), t) == if vx_b0.contains(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) });
        }
    }
@beforeloop 1
    let ghost mut vx_d1 = Set::<Topic>::empty();
    let ghost vx_a1 = $it.all();
    proof { assert forall|t: Topic| #[trigger] vx_a0.contains(t) implies vx_d0.contains(t) by { assert(vx_d0.contains(vx_a0[vx_a0.index_of(t)])); } }
@loop 1
    invariant
        $it.all() == vx_a1,
        self.identity == o.identity, self.same_users(&o), self.same_brokers(&o), self.prev() == now@, self.tsm().conflict_identity == o.tsm().conflict_identity,
        forall|i: int| 0 <= i < $it.pos() ==> vx_d1.contains(#[trigger] vx_a1[i]),
        forall|i: int| $it.pos() <= i < vx_a1.len() ==> !vx_d1.contains(#[trigger] vx_a1[i]),
        forall|t: Topic| #[trigger] vx_d1.contains(t) ==> vx_a1.contains(t),
        forall|t: Topic| #![trigger vx_opt(self.tsm().m(), t)] #![trigger vx_opt(o.tsm().m(), t)] vx_opt(self.tsm().m(), t) == if vx_d0.contains(t) || vx_d1.contains(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) },
        self.tsm().dirty() =~= vx_d0.union(vx_d1),
@loopstart 1
    let ghost vx_s = *self;
    let ghost vx_t = vx_a1[$it.pos() - 1];
    let ghost vx_b1 = vx_d1;
    proof { assert(o.tsm().room(vx_t)); assert(o.prev().contains(vx_t)); assert(!now@.contains(vx_t)); assert(!vx_a0.contains(vx_t)); assert(vx_opt(self.tsm().m(), vx_t) == vx_opt(o.tsm().m(), vx_t)); vx_d1 = vx_d1.insert(vx_t); assert(!o.bu().some_key(vx_t)); }
@loopend 1
    proof {
        assert forall|t: Topic| #![trigger vx_opt(self.tsm().m(), t)] #![trigger vx_opt(o.tsm().m(), t)] vx_opt(self.tsm().m(), t) == if vx_d0.contains(t) || vx_d1.contains(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) } by {
            assert(vx_opt(vx_s.tsm().m(), t) == if vx_d0.contains(t) || vx_b1.contains(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) });
        }
    }
@afterloop 1
    proof { assert forall|t: Topic| #[trigger] vx_a1.contains(t) implies vx_d1.contains(t) by { assert(vx_d1.contains(vx_a1[vx_a1.index_of(t)])); } }
    let ghost vx_f = *self;
    proof {
        assert forall|t: Topic| #[trigger] o.interest_changed(t) <==> vx_d0.contains(t) || vx_d1.contains(t) by {
            assert(now@.contains(t) <==> o.bu().some_key(t));
            assert(vx_a0.contains(t) <==> now@.contains(t) && !o.prev().contains(t));
            assert(vx_a1.contains(t) <==> !now@.contains(t) && o.prev().contains(t));
        }
    }
@end
    proof {
        let d = vx_result->0;
        assert forall|t: Topic| #![trigger vx_opt(self.tsm().m(), t)] vx_opt(self.tsm().m(), t) == if o.interest_changed(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) } by {
            assert(vx_opt(vx_f.tsm().m(), t) == if o.interest_changed(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) });
        }
        assert forall|t: Topic| #![trigger vx_opt(d.m(), t)] vx_opt(d.m(), t) == if o.interest_changed(t) { Some(o.announce(t)) } else { None } by {
            assert(vx_opt(vx_f.tsm().m(), t) == if o.interest_changed(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) });
        }
        assert(exists|t: Topic| o.interest_changed(t)) by { if vx_a0.len() > 0 { assert(vx_d0.contains(vx_a0[0])); assert(o.interest_changed(vx_a0[0])); } else { assert(vx_d1.contains(vx_a1[0])); assert(o.interest_changed(vx_a1[0])); } }
        assert forall|k: UserPublicKey| self.has_user(k) <==> self.here(k) by { assert(o.has_user(k) <==> o.here(k)); }
        assert forall|t: Topic| #![trigger self.prev().contains(t)] #![trigger self.tsm().val(t)] self.prev().contains(t) <==> self.tsm().val(t) == Some(SubscriptionStatus::Subscribed) by {
            assert(o.prev().contains(t) <==> o.tsm().val(t) == Some(SubscriptionStatus::Subscribed));
            assert(vx_opt(self.tsm().m(), t) == if o.interest_changed(t) { Some(o.announce(t)) } else { vx_opt(o.tsm().m(), t) });
        }
    }
#end
#fn Connections::apply_user_sync
@effects
@params map
@prop C07
@spec
    requires old(self).inv(), old(self).roomy(), forall|k: UserPublicKey| #[trigger] map.m().contains_key(k) ==> map.m()[k].version < u64::MAX,
    ensures final(w).rest() == old(w).rest(), final(self).inv(), final(self).users_synced(old(self), &map),
        exists|s: Seq<AbortHandle>| #[trigger] old(self).evict_stops(&map, s) && final(w).aborted() == old(w).aborted() + s,
@beforeloop 0
    let ghost mut vx_done = Set::<UserPublicKey>::empty();
    let ghost mut vx_st = Seq::<AbortHandle>::empty();
    let ghost o = *old(self);
    let ghost vx_ch = $it.all();
    proof {
        lemma_topics(&o, self);
        assert forall|k: UserPublicKey| #[trigger] self.dm().room(k) by { assert(o.dm().room(k)); }
        assert forall|k: UserPublicKey| #[trigger] self.dm().dirty().contains(k) implies self.dm().m().contains_key(k) by { assert(o.dm().dirty().contains(k)); }
    }
@loop 0
    invariant
        w.rest() == old(w).rest(),
        $it.all() == vx_ch,
        self.identity == o.identity, self.same_brokers(&o), self.same_topics(&o), self.inv0(), self.roomy(),
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains((#[trigger] vx_ch[i]).0),
        forall|i: int| $it.pos() <= i < vx_ch.len() ==> !vx_done.contains((#[trigger] vx_ch[i]).0),
        forall|k: UserPublicKey| #[trigger] vx_done.contains(k) ==> o.overrides(&map, k),
        forall|k: UserPublicKey| #![trigger vx_opt(self.users@, k)] #![trigger vx_opt(o.users@, k)] vx_opt(self.users@, k) == (if vx_done.contains(k) && o.evicted(&map, k) { None } else { vx_opt(o.users@, k) }),
        forall|k: UserPublicKey, t: Topic| #![trigger self.bu().rel(k, t)] self.bu().rel(k, t) <==> o.bu().rel(k, t) && !(vx_done.contains(k) && o.cleared(&map, k)),
        forall|k: UserPublicKey| #![trigger vx_opt(self.dm().m(), k)] #![trigger o.merged_entry(&map, k)] vx_opt(self.dm().m(), k) == (if vx_done.contains(k) { o.synced_entry(&map, k) } else { o.merged_entry(&map, k) }),
        forall|k: UserPublicKey| #![trigger self.dm().dirty().contains(k)] o.overrides(&map, k) && !vx_done.contains(k) ==> !self.dm().dirty().contains(k),
        w.aborted() == old(w).aborted() + vx_st,
        forall|k: UserPublicKey| #[trigger] o.evicted(&map, k) && vx_done.contains(k) ==> vx_st.contains(o.users@[k].1),
        forall|i: int| 0 <= i < vx_st.len() ==> o.evict_stop(&map, #[trigger] vx_st[i]),
@loopstart 0
    let ghost vx_k = vx_ch[$it.pos() - 1].0;
    let ghost vx_s = *self;
    let ghost vx_d0 = vx_done;
    let ghost vx_st0 = vx_st;
    proof {
        assert(o.overrides(&map, vx_k));
        assert(vx_opt(self.users@, vx_k) == vx_opt(o.users@, vx_k));
        assert(vx_opt(self.dm().m(), vx_k) == o.merged_entry(&map, vx_k));
        vx_done = vx_done.insert(vx_k);
        if o.evicted(&map, vx_k) { vx_st = vx_st.push(o.users@[vx_k].1); assert(vx_st[vx_st.len() - 1] == o.users@[vx_k].1); }
        assert forall|k: UserPublicKey| #[trigger] o.evicted(&map, k) && vx_done.contains(k) implies vx_st.contains(o.users@[k].1) by { if k != vx_k { let i = vx_st0.index_of(o.users@[k].1); assert(vx_st[i] == o.users@[k].1); } }
    }
@loopend 0
    proof {
        assert(w.aborted() =~= old(w).aborted() + vx_st);
        assert forall|k: UserPublicKey| #![trigger vx_opt(self.dm().m(), k)] #![trigger o.merged_entry(&map, k)] vx_opt(self.dm().m(), k) == (if vx_done.contains(k) { o.synced_entry(&map, k) } else { o.merged_entry(&map, k) }) by {
            assert(vx_opt(vx_s.dm().m(), k) == (if vx_d0.contains(k) { o.synced_entry(&map, k) } else { o.merged_entry(&map, k) }));
        }
        assert forall|k: UserPublicKey| #![trigger vx_opt(self.users@, k)] #![trigger vx_opt(o.users@, k)] vx_opt(self.users@, k) == (if vx_done.contains(k) && o.evicted(&map, k) { None } else { vx_opt(o.users@, k) }) by {
            assert(vx_opt(vx_s.users@, k) == (if vx_d0.contains(k) && o.evicted(&map, k) { None } else { vx_opt(o.users@, k) }));
        }
        assert forall|k: UserPublicKey, t: Topic| #![trigger self.bu().rel(k, t)] self.bu().rel(k, t) <==> o.bu().rel(k, t) && !(vx_done.contains(k) && o.cleared(&map, k)) by {
            assert(vx_s.bu().rel(k, t) <==> o.bu().rel(k, t) && !(vx_d0.contains(k) && o.cleared(&map, k)));
        }
    }
@end
    proof {
        assert(w.aborted() =~= old(w).aborted() + vx_st);
        assert forall|k: UserPublicKey| o.overrides(&map, k) implies #[trigger] vx_done.contains(k) by { let i = vx_ch.index_of((k, map.m()[k].value)); assert(vx_ch[i].0 == k); }
        assert forall|k: UserPublicKey| #![trigger vx_opt(self.dm().m(), k)] vx_opt(self.dm().m(), k) == o.synced_entry(&map, k) by { assert(o.overrides(&map, k) ==> vx_done.contains(k)); }
        assert forall|k: UserPublicKey| #![trigger vx_opt(self.users@, k)] vx_opt(self.users@, k) == (if o.evicted(&map, k) { None } else { vx_opt(o.users@, k) }) by { assert(o.overrides(&map, k) ==> vx_done.contains(k)); }
        assert forall|k: UserPublicKey, t: Topic| #![trigger self.bu().rel(k, t)] self.bu().rel(k, t) <==> o.bu().rel(k, t) && !o.cleared(&map, k) by { assert(o.overrides(&map, k) ==> vx_done.contains(k)); }
        lemma_topics(&o, self);
        assert forall|k: UserPublicKey| self.has_user(k) <==> self.here(k) by {
            assert(o.has_user(k) <==> o.here(k));
            assert(vx_opt(self.dm().m(), k) == o.synced_entry(&map, k));
            assert(vx_opt(self.users@, k) == (if o.evicted(&map, k) { None } else { vx_opt(o.users@, k) }));
        }
        assert forall|k: UserPublicKey| #[trigger] o.evicted(&map, k) implies vx_st.contains(o.users@[k].1) by { assert(o.overrides(&map, k)); assert(vx_done.contains(k)); }
        assert(o.evict_stops(&map, vx_st));
    }
#end
#fn Connections::apply_topic_sync
@effects
@params broker_identifier remote_map
@prop C08
@spec
    requires old(self).inv(),
    ensures final(w).rest() == old(w).rest(), final(self).inv(),
        old(self).brokers@.contains_key(*broker_identifier) ==> final(self).topics_synced(old(self), *broker_identifier, &remote_map) && final(w).aborted() == old(w).aborted(),
        !old(self).brokers@.contains_key(*broker_identifier) ==> final(self).broker_removed(old(self), *broker_identifier) && final(w).aborted() == old(w).aborted(),
@beforeloop 0
    let ghost mut vx_done = Set::<Topic>::empty();
    let ghost o = *old(self);
    let ghost vx_ch = $it.all();
    let ghost vx_br = self.brokers;
    let ghost b = *broker_identifier;
    proof { lemma_users(&o, self); }
@loop 0
    invariant
        w.rest() == old(w).rest(),
        $it.all() == vx_ch, self.inv(), self.identity == o.identity, self.same_users(&o), self.same_topics(&o), self.brokers == vx_br,
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains((#[trigger] vx_ch[i]).0),
        forall|i: int| $it.pos() <= i < vx_ch.len() ==> !vx_done.contains((#[trigger] vx_ch[i]).0),
        forall|t: Topic| #[trigger] vx_done.contains(t) ==> o.topic_changed(b, &remote_map, t),
        forall|b2: BrokerIdentifier, t: Topic| #![trigger self.bb().rel(b2, t)] self.bb().rel(b2, t) <==> if b2 == b && vx_done.contains(t) { remote_map.m()[t].value == Some(SubscriptionStatus::Subscribed) } else { o.bb().rel(b2, t) },
@loopstart 0
    let ghost vx_t = vx_ch[$it.pos() - 1].0;
    let ghost vx_s = *self;
    let ghost vx_d0 = vx_done;
    proof { assert(o.topic_changed(b, &remote_map, vx_t)); vx_done = vx_done.insert(vx_t); }
@loopend 0
    proof {
        assert(seq![vx_t].contains(vx_t)) by { assert(seq![vx_t][0] == vx_t); }
        assert forall|b2: BrokerIdentifier, t: Topic| #![trigger self.bb().rel(b2, t)] self.bb().rel(b2, t) <==> if b2 == b && vx_done.contains(t) { remote_map.m()[t].value == Some(SubscriptionStatus::Subscribed) } else { o.bb().rel(b2, t) } by {
            assert(vx_s.bb().rel(b2, t) <==> if b2 == b && vx_d0.contains(t) { remote_map.m()[t].value == Some(SubscriptionStatus::Subscribed) } else { o.bb().rel(b2, t) });
        }
    }
@end
    proof {
        assert forall|t: Topic| o.topic_changed(b, &remote_map, t) implies #[trigger] vx_done.contains(t) by { let i = vx_ch.index_of((t, remote_map.m()[t].value)); assert(vx_ch[i].0 == t); }
    }
#end
#fn Connections::add_broker
@effects
@params broker_identifier connection handle
@prop C06
@spec
    requires old(self).inv(),
    ensures final(w).rest() == old(w).rest(), final(self).inv(), final(self).broker_added(old(self), broker_identifier, connection, handle),
        final(w).aborted() == old(w).aborted() + old(self).stops_of_broker(broker_identifier),
@end
    proof { lemma_users(old(self), self); }
#end
#fn Connections::add_user
@effects
@params user_public_key connection topics handle
@prop C06
@spec
    requires old(self).inv(), old(self).roomy(),
    ensures final(w).rest() == old(w).rest(), final(self).inv(), final(self).user_added(old(self), *user_public_key, connection, topics@, handle),
        final(w).aborted() == old(w).aborted() + old(self).stops_of_user(*user_public_key),
@end
    proof {
        lemma_topics(old(self), self);
        assert forall|k: UserPublicKey| k != *user_public_key implies #[trigger] vx_opt(self.dm().m(), k) == vx_opt(old(self).dm().m(), k) by { }
        assert forall|k: UserPublicKey| #[trigger] self.dm().dirty().contains(k) implies self.dm().m().contains_key(k) by { assert(old(self).dm().dirty().contains(k) || k == *user_public_key); }
        lemma_user_changed(old(self), self, *user_public_key);
    }
#end
#fn Connections::remove_broker
@effects
@params broker_identifier reason
@prop C06 C22
@spec
    requires old(self).inv0(),
    ensures final(w).rest() == old(w).rest(), final(self).inv0(), old(self).inv() ==> final(self).inv(), final(self).broker_removed(old(self), *broker_identifier),
        final(w).aborted() == old(w).aborted() + old(self).stops_of_broker(*broker_identifier),
@end
    proof { if old(self).inv() { lemma_users(old(self), self); } }
#end
#fn Connections::remove_user
@effects
@params user_public_key reason
@prop C06 C22
@spec
    requires old(self).inv0(), old(self).roomy(),
    ensures final(w).rest() == old(w).rest(), final(self).inv0(), old(self).inv() ==> final(self).inv(), final(self).roomy(), final(self).user_removed(old(self), user_public_key),
        final(w).aborted() == old(w).aborted() + old(self).stops_of_user(user_public_key),
@end
    proof {
        assert forall|t: Topic| #[trigger] self.tsm().room(t) by { assert(old(self).tsm().room(t)); }
        assert forall|k: UserPublicKey| #[trigger] self.dm().room(k) by { assert(old(self).dm().room(k)); }
        assert forall|k: UserPublicKey| #[trigger] self.dm().dirty().contains(k) implies self.dm().m().contains_key(k) by { assert(old(self).dm().dirty().contains(k) || k == user_public_key); }
        assert forall|k: UserPublicKey| k != user_public_key implies #[trigger] vx_opt(self.dm().m(), k) == vx_opt(old(self).dm().m(), k) by { }
        if old(self).inv() { lemma_user_changed(old(self), self, user_public_key); }
    }
#end
#fn Connections::subscribe_broker_to
@params broker_identifier topics
@prop C06 C08
@spec
    requires old(self).inv0(),
    ensures final(self).inv0(), old(self).inv() ==> final(self).inv(), final(self).broker_subs(old(self), *broker_identifier, topics@, true),
@end
    proof { if old(self).inv() { lemma_users(old(self), self); } }
#end
#fn Connections::subscribe_user_to
@params user_public_key topics
@prop C06
@spec
    requires old(self).inv0(),
    ensures final(self).inv0(), old(self).inv() ==> final(self).inv(), final(self).user_subs(old(self), *user_public_key, topics@, true),
@end
    proof { if old(self).inv() { lemma_users(old(self), self); } }
#end
#fn Connections::unsubscribe_broker_from
@params broker_identifier topics
@prop C06 C08
@spec
    requires old(self).inv0(),
    ensures final(self).inv0(), old(self).inv() ==> final(self).inv(), final(self).broker_subs(old(self), *broker_identifier, topics@, false),
@end
    proof { if old(self).inv() { lemma_users(old(self), self); } }
#end
#fn Connections::unsubscribe_user_from
@params user_public_key topics
@prop C06
@spec
    requires old(self).inv0(),
    ensures final(self).inv0(), old(self).inv() ==> final(self).inv(), final(self).user_subs(old(self), *user_public_key, topics@, false),
@end
    proof { if old(self).inv() { lemma_users(old(self), self); } }
#end
