The client: connecting, remembering subscriptions, closing (C12, C17, C23)
#include auth_user.vc assume
#effects is_closed try_acquire_owned acquire available_permits close lock try_read drop abort connect
#rename ::default=vx_adefault
#deref Client
#raw
// ---------- locks, the semaphore and tasks (tokio's and parking_lot's contracts, assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: PhantomData<T> }
#[verifier::external_body]
pub struct Semaphore { x: () }
#[verifier::external_body]
pub struct OwnedSemaphorePermit { x: () }
#[verifier::external_body]
pub struct SemaphorePermit { x: () }
#[verifier::external_body]
pub struct AcquireError { x: () }
#[verifier::external_body]
pub struct TryLockError { x: () }
pub enum TryAcquireError { Closed, NoPermits }
pub struct AbortOnDropHandle<T> { pub h: JoinHandle, pub p: PhantomData<T> }
#[verifier::external_body]
pub fn AbortOnDropHandle<T>(h: JoinHandle) -> (r: AbortOnDropHandle<T>) ensures r.h == h { unimplemented!() }
impl<T> AbortOnDropHandle<T> {
    #[verifier::external_body]
    pub fn abort(&self, Tracked(w): Tracked<&mut World>) ensures final(w).did(old(w), Ev::Cl(ClEv::Stop)) { unimplemented!() }
}
impl Semaphore {
    pub uninterp spec fn permits(&self) -> nat;
    #[verifier::external_body]
    pub fn const_new(n: usize) -> (r: Semaphore) ensures r.permits() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w).did(old(w), Ev::Cl(ClEv::IsClosed(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn available_permits(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) ensures final(w).did(old(w), Ev::Cl(ClEv::Free(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_acquire_owned(self: Arc<Self>, Tracked(w): Tracked<&mut World>) -> (r: StdResult<OwnedSemaphorePermit, TryAcquireError>)
        ensures final(w).did(old(w), Ev::Cl(ClEv::TryAcquire(match r { Ok(_) => Permit::Got, Err(TryAcquireError::Closed) => Permit::Closed, Err(TryAcquireError::NoPermits) => Permit::Taken }))) { unimplemented!() }
    #[verifier::external_body]
    pub fn acquire(&self, Tracked(w): Tracked<&mut World>) -> (r: StdResult<SemaphorePermit, AcquireError>) ensures final(w).did(old(w), Ev::Cl(ClEv::Acquire(r is Ok))) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) ensures final(w).did(old(w), Ev::Cl(ClEv::Close)) { unimplemented!() }
}
impl Mutex<Option<AbortOnDropHandle<()>>> {
    #[verifier::external_body]
    pub fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut Option<AbortOnDropHandle<()>>) ensures final(w).did(old(w), Ev::Cl(ClEv::Task(*r is Some, *final(r) is Some))) { unimplemented!() }
}
impl RwLock<Option<Connection>> {
    #[verifier::external_body]
    pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: &Option<Connection>) ensures final(w).did(old(w), Ev::Cl(ClEv::Conn(*r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_read(&self, Tracked(w): Tracked<&mut World>) -> (r: StdResult<&Option<Connection>, TryLockError>) ensures final(w).did(old(w), Ev::Cl(ClEv::TryConn(match r { Ok(c) => Some(*c), Err(_) => None }))) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut Option<Connection>) ensures final(w).did(old(w), Ev::Cl(ClEv::ConnSet(*r, *final(r)))) { unimplemented!() }
}
impl RwLock<HashSet<Topic>> {
    pub uninterp spec fn init(&self) -> Set<Topic>;
    #[verifier::external_body]
    pub fn new(x: HashSet<Topic>) -> (r: Self) ensures r.init() == x@ { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: &HashSet<Topic>) ensures final(w).did(old(w), Ev::Cl(ClEv::Subs(r@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut HashSet<Topic>) ensures final(w).did(old(w), Ev::Cl(ClEv::SubsSet(r@, final(r)@))) { unimplemented!() }
}
/// a lock that starts out empty
pub trait VxEmpty: Sized { spec fn empty(self) -> bool; fn vx_adefault() -> (r: Self) ensures r.empty(); }
pub uninterp spec fn no_conn(l: Arc<RwLock<Option<Connection>>>) -> bool;
pub uninterp spec fn no_task(l: Arc<Mutex<Option<AbortOnDropHandle<()>>>>) -> bool;
impl VxEmpty for Arc<RwLock<Option<Connection>>> { open spec fn empty(self) -> bool { no_conn(self) } #[verifier::external_body] fn vx_adefault() -> (r: Self) { unimplemented!() } }
impl VxEmpty for Arc<Mutex<Option<AbortOnDropHandle<()>>>> { open spec fn empty(self) -> bool { no_task(self) } #[verifier::external_body] fn vx_adefault() -> (r: Self) { unimplemented!() } }
/// letting go of a guard or permit
pub trait VxDrop: Sized { #[verifier::prophetic] spec fn let_go(self, o: &World, n: &World) -> bool; fn vx_drop(self, Tracked(w): Tracked<&mut World>) ensures self.let_go(old(w), final(w)); }
impl VxDrop for OwnedSemaphorePermit { #[verifier::prophetic] open spec fn let_go(self, o: &World, n: &World) -> bool { n.did(o, Ev::Cl(ClEv::Release)) } #[verifier::external_body] fn vx_drop(self, Tracked(w): Tracked<&mut World>) { unimplemented!() } }
impl<'a> VxDrop for &'a mut HashSet<Topic> { #[verifier::prophetic] open spec fn let_go(self, o: &World, n: &World) -> bool { *n == *o && *final(self) == *self } #[verifier::external_body] fn vx_drop(self, Tracked(w): Tracked<&mut World>) { unimplemented!() } }
pub fn drop<T: VxDrop>(x: T, Tracked(w): Tracked<&mut World>) ensures x.let_go(old(w), final(w)) { x.vx_drop(Tracked(w)) }
impl Limiter { #[verifier::external_body] pub fn new(a: Option<usize>, b: Option<usize>) -> Limiter { unimplemented!() } }

// ---------- what the client does
/// the whole way to a new connection: marshal, then the broker it named, with the permit it gave and the remembered topics
pub open spec fn connected<C: ConnectionDef>(me: &ClientRef<C>, r: Option<Connection>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::IsClosed(b)) && if b { r is None && s.len() == 1 } else { connected2(me, r, tail(s, 1)) })
}
pub open spec fn connected2<C: ConnectionDef>(me: &ClientRef<C>, r: Option<Connection>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Connect(e, c) && e == me.endpoint && match c {
        None => r is None && s.len() == 1,
        Some(_) => exists|k: Connection, n: nat, v: Option<(String, u64)>| c == Some(k) && #[trigger] via_marshal(me, k, n, v, r, tail(s, 1)) })
}
pub proof fn lemma_via<C: ConnectionDef>(me: &ClientRef<C>, c: Connection, n: nat, v: Option<(String, u64)>, r: Option<Connection>, s: Seq<Ev>)
    requires s.len() >= 1, s[0] == Ev::Connect(me.endpoint, Some(c)), via_marshal(me, c, n, v, r, tail(s, 1)) ensures connected2(me, r, s) { }
pub open spec fn via_marshal<C: ConnectionDef>(me: &ClientRef<C>, c: Connection, n: nat, v: Option<(String, u64)>, r: Option<Connection>, s: Seq<Ev>) -> bool {
    n <= s.len() && marshal_login(c, me.keypair, v, s.subrange(0, n as int))
        && match v { None => r is None && n == s.len(), Some(v) => connected3(v.0, v.1, r, tail(s, n)) }
}
pub proof fn lemma_connected<C: ConnectionDef>(me: &ClientRef<C>, r: Option<Connection>, v: (String, u64), w0: World, wa: World, wb: World, w: World)
    requires wa.grew(&w0), wb.grew(&wa), w.grew(&wb),
        ({ let s = wa.since(&w0); s.len() == 2 && s[0] == Ev::Cl(ClEv::IsClosed(false)) && (s[1] matches Ev::Connect(e, c) && e == me.endpoint && (c matches Some(c) && marshal_login(c, me.keypair, Some(v), wb.since(&wa)))) }),
        connected3(v.0, v.1, r, w.since(&wb))
    ensures connected(me, r, w.since(&w0))
{
    lemma_since(w0, wa, w); lemma_since(wa, wb, w);
    let s = w.since(&w0);
    assert(s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]);
    let t = tail(tail(s, 1), 1);
    assert(t =~= w.since(&wa));
    let n = wb.since(&wa).len();
    assert(t.subrange(0, n as int) == wb.since(&wa));
    assert(tail(t, n) == w.since(&wb));
    assert(tail(s, 1)[0] == s[1]);
    let c = match s[1] { Ev::Connect(_, Some(c)) => c, _ => arbitrary() };
    assert(via_marshal(me, c, n, Some(v), r, t));
}
pub open spec fn connected3(e: String, permit: u64, r: Option<Connection>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Connect(x, c) && x == e && match c {
        None => r is None && s.len() == 1,
        Some(c) => s.len() >= 2 && (s[1] matches Ev::Cl(ClEv::Subs(t)) && broker_login(c, permit, t, r is Some, tail(s, 2)) && (r is Some ==> r == Some(c))) })
}
/// without a connection: start reconnecting unless that is going on or the client was closed, and fail
pub open spec fn needed(p: Option<Connection>, r: Option<Connection>, s: Seq<Ev>) -> bool {
    match p {
        Some(c) => r == Some(c) && s.len() == 0,
        None => r is None && s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::TryAcquire(k)) && match k {
            Permit::Got => s.len() == 3 && s[1] == Ev::Cl(ClEv::Start) && (s[2] matches Ev::Cl(ClEv::Task(_, now)) && now),
            _ => s.len() == 1 }),
    }
}
pub open spec fn tried(r: Option<Connection>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::TryConn(x)) && match x { None => r is None && s.len() == 1, Some(p) => needed(p, r, tail(s, 1)) })
}
pub open spec fn got(r: Option<Connection>, s: Seq<Ev>) -> bool { s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::Conn(p)) && needed(p, r, tail(s, 1))) }
/// the result of using the connection: a failure gives the connection up unless a reconnection is going on
pub open spec fn given_up(ok: bool, s: Seq<Ev>) -> bool {
    if ok { s.len() == 0 } else { s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::Free(n)) && if n > 0 { s.len() == 2 && (s[1] matches Ev::Cl(ClEv::ConnSet(_, now)) && now is None) } else { s.len() == 1 }) }
}
pub open spec fn sent(m: Message, ok: bool, s: Seq<Ev>) -> bool {
    ||| !ok && tried(None, s)
    ||| exists|n: nat, c: Connection| n < s.len() && #[trigger] tried(Some(c), s.subrange(0, n as int)) && s[n as int] == Ev::SendMsg(c, m, ok) && given_up(ok, tail(s, n + 1))
}
pub open spec fn received(r: Option<Message>, s: Seq<Ev>) -> bool {
    ||| r is None && got(None, s)
    ||| exists|n: nat, c: Connection| n < s.len() && #[trigger] got(Some(c), s.subrange(0, n as int)) && s[n as int] == Ev::RecvMsg(c, r) && given_up(r is Some, tail(s, n + 1))
}
/// v lists the topics that change the set
pub open spec fn changing(adding: bool, topics: Seq<Topic>, a: Set<Topic>, v: Seq<Topic>) -> bool {
    (forall|x: Topic| #[trigger] v.contains(x) <==> topics.contains(x) && a.contains(x) != adding) && (topics.no_duplicates() ==> v.no_duplicates())
}
pub proof fn lemma_push_set(s: Seq<Topic>, x: Topic) ensures s.push(x).to_set() == s.to_set().insert(x)
{
    s.push(x).to_set_ensures(); s.to_set_ensures();
    let p = s.push(x);
    assert forall|y: Topic| p.contains(y) == (s.contains(y) || y == x) by {
        if s.contains(y) { let i = s.index_of(y); assert(p[i] == y); }
        if p.contains(y) { let i = choose|i: int| 0 <= i < p.len() && p[i] == y; if i < s.len() { assert(s[i] == y); } }
        assert(p[s.len() as int] == x);
    }
    assert forall|y: Topic| p.to_set().contains(y) == s.to_set().insert(x).contains(y) by {
        assert(p.to_set().contains(y) == p.contains(y)); assert(s.to_set().contains(y) == s.contains(y));
    }
    assert(p.to_set() =~= s.to_set().insert(x));
}
pub open spec fn changed(adding: bool, a: Set<Topic>, v: Seq<Topic>) -> Set<Topic> { if adding { a.union(v.to_set()) } else { a.difference(v.to_set()) } }
pub open spec fn asks(adding: bool, v: Vec<Topic>) -> Message { if adding { Message::Subscribe(v) } else { Message::Unsubscribe(v) } }
pub open spec fn resubscribed(adding: bool, topics: Seq<Topic>, ok: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::SubsSet(a, b)) && exists|v: Vec<Topic>| #[trigger] changing(adding, topics, a, v@)
        && if v@.len() == 0 { ok && s.len() == 1 && b =~= a } else { sent(asks(adding, v), ok, tail(s, 1)) && b =~= (if ok { changed(adding, a, v@) } else { a }) })
}
#[verifier::external_body]
pub fn spawn_reconnecting<C: ConnectionDef>(permit: OwnedSemaphorePermit, self_clone: Arc<ClientRef<C>>, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Cl(ClEv::Start)) { unimplemented!() }
/// a failed attempt, and the pause after it
pub open spec fn attempt<C: ConnectionDef>(me: &ClientRef<C>, s: Seq<Ev>) -> bool {
    exists|n: nat, r: Option<Connection>| n + 2 == s.len() && #[trigger] connected(me, r, s.subrange(0, n as int)) && (s[n as int] matches Ev::Limit(_, in_time) && !(in_time && r is Some)) && s[n as int + 1] is Sleep
}
pub open spec fn attempts<C: ConnectionDef>(me: &ClientRef<C>, ss: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < ss.len() ==> attempt(me, #[trigger] ss[i]) }
pub open spec fn last_attempt<C: ConnectionDef>(me: &ClientRef<C>, c: Option<Connection>, s: Seq<Ev>) -> bool {
    c is Some && s.len() >= 1 && connected(me, c, s.drop_last()) && (s.last() matches Ev::Limit(_, in_time) && in_time)
}
/// the reconnecting task: holds the lock and the permit throughout, and ends with a connection
pub open spec fn reconnected<C: ConnectionDef>(me: &ClientRef<C>, s: Seq<Ev>) -> bool {
    s.len() >= 2 && (s[0] matches Ev::Cl(ClEv::ConnSet(_, now)) && s.last() == Ev::Cl(ClEv::Release)
        && exists|c: Option<Connection>, its: Seq<Seq<Ev>>, t: Seq<Ev>| now == c && #[trigger] attempts(me, its) && #[trigger] last_attempt(me, c, t) && s.subrange(1, s.len() - 1) == cat(its) + t)
}
pub proof fn lemma_attempts_push<C: ConnectionDef>(me: &ClientRef<C>, its: Seq<Seq<Ev>>, s: Seq<Ev>)
    requires attempts(me, its), attempt(me, s)
    ensures attempts(me, its.push(s)), cat(its.push(s)) == cat(its) + s
{ lemma_cat_push(its, s); }
pub proof fn lemma_attempt<C: ConnectionDef>(me: &ClientRef<C>, r: Option<Connection>, a: Seq<Ev>, s: Seq<Ev>)
    requires a.len() > 0, s.len() == a.len() + 1, s.take(a.len() as int) == a, connected(me, r, a.drop_last()), a.last() matches Ev::Limit(_, in_time) && !(in_time && r is Some), s.last() is Sleep
    ensures attempt(me, s)
{
    let n = (s.len() - 2) as nat;
    assert(s.subrange(0, n as int) =~= a.drop_last());
    assert(s.take(a.len() as int)[n as int] == a.last());
}
pub proof fn lemma_join(w0: World, w1: World, w2: World)
    requires w1.grew(&w0), w2.grew(&w1)
    ensures w2.grew(&w0), w2.since(&w0) == w1.since(&w0) + w2.since(&w1)
{ lemma_since(w0, w1, w2); assert(w2.since(&w0) =~= w1.since(&w0) + w2.since(&w1)); }
/// an attempt that failed
pub proof fn lemma_attempt_any<C: ConnectionDef>(me: &ClientRef<C>, a: Seq<Ev>, s: Seq<Ev>)
    requires a.len() > 0, s.len() == a.len() + 1, s.take(a.len() as int) == a, exists|r: Option<Connection>| #[trigger] connected(me, r, a.drop_last()) && (a.last() matches Ev::Limit(_, in_time) && !(in_time && r is Some)), s.last() is Sleep
    ensures attempt(me, s)
{ lemma_attempt(me, choose|r: Option<Connection>| #[trigger] connected(me, r, a.drop_last()) && (a.last() matches Ev::Limit(_, in_time) && !(in_time && r is Some)), a, s); }
pub proof fn lemma_reconnected<C: ConnectionDef>(me: &ClientRef<C>, s: Seq<Ev>, c: Option<Connection>, its: Seq<Seq<Ev>>, t: Seq<Ev>)
    requires s.len() >= 2, s[0] matches Ev::Cl(ClEv::ConnSet(_, now)) && now == c, s.last() == Ev::Cl(ClEv::Release), attempts(me, its), last_attempt(me, c, t), s.subrange(1, s.len() - 1) == cat(its) + t
    ensures reconnected(me, s)
{}
#end
#source cdn-client/src/lib.rs
#item struct Client noderive
#item struct ClientRef noderive
#item struct Config noderive
#impl ClientRef
#fn ClientRef::connect
@effects
@ret r
@prop C12 C17 C23
@spec
    ensures final(w).grew(old(w)), connected(&**self, vx_ok(r), final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
    let ghost mut vx_wa = *w;
    let ghost mut vx_wb = *w;
    let ghost mut vx_v: (String, u64) = arbitrary();
    let ghost mut vx_at_broker = false;
@after ^let connection =
    proof { if !vx_at_broker { vx_wa = *w; } }
@attry authenticate_with_marshal
    proof {
        let s = w.since(&vx_w0);
        let t = w.since(&vx_wa);
        assert(tail(tail(s, 1), 1) =~= t);
        assert(t.subrange(0, t.len() as int) =~= t);
        assert(tail(s, 1)[0] == s[1]);
        assert(s[0] == vx_wa.since(&vx_w0)[0] && s[1] == vx_wa.since(&vx_w0)[1]);
        if vx_try is Err { assert(via_marshal(&**self, connection, t.len(), None, None, tail(tail(s, 1), 1))); lemma_via(&**self, connection, t.len(), None, None, tail(s, 1)); }
    }
@after authenticate_with_marshal
    proof { vx_wb = *w; vx_v = (broker_endpoint, permit); vx_at_broker = true; }
@attry ::connect(
    proof {
        if vx_at_broker && vx_try is Err { assert(connected3(vx_v.0, vx_v.1, None, w.since(&vx_wb))); lemma_connected(&**self, None, vx_v, vx_w0, vx_wa, vx_wb, *w); }
        if !vx_at_broker { let s = w.since(&vx_w0); assert(s.len() == 2); assert(tail(s, 1)[0] == s[1]); }
    }
@attry authenticate_with_broker
    proof {
        let s = w.since(&vx_wb);
        assert(tail(s, 2) =~= tail(w.trace(), (vx_wb.trace().len() + 2) as nat));
        assert(s.len() >= 2);
        assert(s[0] == Ev::Connect(vx_v.0, Some(connection)));
        assert(s[1] is Cl);
        assert(broker_login(connection, permit, match s[1] { Ev::Cl(ClEv::Subs(t)) => t, _ => arbitrary() }, vx_try is Ok, tail(s, 2)));
        lemma_connected(&**self, if vx_try is Ok { Some(connection) } else { None }, vx_v, vx_w0, vx_wa, vx_wb, *w);
    }
#end
#impl Client
#fn Client::new
@ret r
@params config
@prop C17 C23
@spec
    ensures r.0.subscribed_topics.init() =~= config.subscribed_topics@.to_set(), r.0.connecting_guard.permits() == 1, r.0.endpoint == config.endpoint, r.0.keypair == config.keypair, no_conn(r.0.connection), no_task(r.0.reconnection_task),
#end
#fn Client::reconnect_if_needed
@effects
@ret r
@params possible_connection
@prop C23
@spawn 0 reconnecting(permit, self_clone)
@spec
    ensures final(w).grew(old(w)), needed(possible_connection, vx_ok(r), final(w).since(old(w))),
#end
#fn Client::reconnecting
@effects
@prop C23 C17
@sig
(permit: OwnedSemaphorePermit, self_clone: Arc<ClientRef<C>>)
@spec
    ensures final(w).grew(old(w)), reconnected(&*self_clone, final(w).since(old(w))),
@begin
    hide(connected);
    hide(attempt);
    hide(attempts);
    hide(cat);
    hide(reconnected);
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_p = *w;
    let ghost mut vx_first = true;
@after ^let mut connection
    let ghost vx_w1 = *w;
    proof { vx_p = *w; reveal(attempts); reveal(cat); assert(vx_p.since(&vx_w1) =~= cat(vx_its)); }
@loop 0
    invariant
        vx_p.grew(&vx_w1), vx_p.since(&vx_w1) == cat(vx_its), attempts(&*self_clone, vx_its),
        vx_first ==> w.trace() == vx_p.trace(),
        !vx_first ==> w.grew(&vx_p) && attempt(&*self_clone, w.since(&vx_p)),
@loopstart 0
    proof {
        if !vx_first {
            let s = w.since(&vx_p);
            lemma_attempts_push(&*self_clone, vx_its, s);
            lemma_join(vx_w1, vx_p, *w);
            vx_its = vx_its.push(s);
        }
        vx_p = *w;
        vx_first = false;
    }
@before ^sleep
    let ghost vx_s = w.since(&vx_p);
@after ^sleep
    proof {
        let s = w.since(&vx_p);
        assert(s.take(vx_s.len() as int) =~= vx_s);
        lemma_attempt_any(&*self_clone, vx_s, s);
    }
@before ^drop
    let ghost vx_w2 = *w;
    let ghost vx_c = *connection;
@end
    proof {
        let s = w.since(&vx_w0);
        let t = vx_w2.since(&vx_p);
        lemma_join(vx_w1, vx_p, vx_w2);
        assert(s.subrange(1, s.len() - 1) =~= vx_w2.since(&vx_w1));
        lemma_reconnected(&*self_clone, s, vx_c, vx_its, t);
    }
#end
#fn Client::get_connection
@effects
@ret r
@prop C23
@spec
    ensures final(w).grew(old(w)), got(vx_ok(r), final(w).since(old(w))),
#end
#fn Client::try_get_connection
@effects
@ret r
@prop C23
@spec
    ensures final(w).grew(old(w)), tried(vx_ok(r), final(w).since(old(w))),
#end
#fn Client::send_message
@effects
@ret r
@params message
@prop C17 C23
@spec
    ensures final(w).grew(old(w)), sent(message, r is Ok, final(w).since(old(w))),
@begin
    hide(tried);
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@after ^let connection =
    let ghost vx_w1 = *w;
    let ghost vx_c = connection;
@end
    proof {
        let s = w.since(&vx_w0); let n = vx_w1.since(&vx_w0).len();
        assert(s.subrange(0, n as int) =~= vx_w1.since(&vx_w0));
        let t = w.since(&vx_w1);
        assert(s[n as int] == t[0]);
        assert(tail(s, n + 1) =~= tail(t, 1));
    }
#end
#fn Client::receive_message
@effects
@ret r
@prop C23
@spec
    ensures final(w).grew(old(w)), received(vx_ok(r), final(w).since(old(w))),
@begin
    hide(got);
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@after ^let connection =
    let ghost vx_w1 = *w;
    let ghost vx_c = connection;
@end
    proof {
        let s = w.since(&vx_w0); let n = vx_w1.since(&vx_w0).len();
        assert(s.subrange(0, n as int) =~= vx_w1.since(&vx_w0));
        let t = w.since(&vx_w1);
        assert(s[n as int] == t[0]);
        assert(tail(s, n + 1) =~= tail(t, 1));
    }
#end
#fn Client::send_broadcast_message
@effects
@ret r
@params topics message
@prop C17 C23
@spec
    ensures final(w).grew(old(w)), sent(Message::Broadcast(Broadcast { topics, message }), r is Ok, final(w).since(old(w))),
#end
#fn Client::send_direct_message
@effects
@ret r
@params recipient message
@prop C17 C23
@spec
    ensures final(w).grew(old(w)),
        match recipient.ser() { None => r is Err && final(w).since(old(w)).len() == 0,
            Some(b) => exists|v: Vec<u8>| v@ == b && #[trigger] sent(Message::Direct(Direct { recipient: v, message }), r is Ok, final(w).since(old(w))) },
#end
#fn Client::ensure_initialized
@effects
@ret r
@prop C23
@spec
    ensures final(w).grew(old(w)), ({ let s = final(w).since(old(w)); s.len() >= 1 && (s[0] matches Ev::Cl(ClEv::IsClosed(b)) && if b { r is Err && s.len() == 1 } else {
        ||| r is Ok && exists|c: Option<Connection>| c is Some && #[trigger] tried(c, tail(s, 1))
        ||| s.len() >= 2 && tried(None, tail(s, 1).drop_last()) && s.last() == Ev::Cl(ClEv::Acquire(r is Ok)) }) }),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
    let ghost mut vx_w1 = *w;
    let ghost mut vx_on = false;
@before ^if self.try_get_connection
    proof { vx_w1 = *w; vx_on = true; }
@before ^return
    proof { if vx_on { assert(tail(w.since(&vx_w0), 1) =~= w.since(&vx_w1)); } }
@attry .acquire
    proof {
        let s = w.since(&vx_w0); let t = w.since(&vx_w1);
        assert(tail(s, 1) =~= t);
        assert(s[0] == Ev::Cl(ClEv::IsClosed(false)));
    }
#end
#fn Client::subscribe
@effects
@ret r
@params topics
@prop C17
@spec
    ensures final(w).grew(old(w)), resubscribed(true, topics@, r is Ok, final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@after ^let mut subscribed_guard
    let ghost vx_a = subscribed_guard@;
    let ghost vx_w1 = *w;
    proof { assert(vx_w1.since(&vx_w0).len() == 1); }
@after ^let topics_to_send
    let ghost vx_v = topics_to_send;
    proof {
        assert(changing(true, topics@, vx_a, vx_v@));
    }
@loopend 0
    proof { assert($it.done() =~= $it.all().subrange(0, $it.pos() - 1).push($it.all()[$it.pos() - 1])); lemma_push_set($it.all().subrange(0, $it.pos() - 1), $it.all()[$it.pos() - 1]); }
@before ^return
    proof { assert(match w.since(&vx_w0)[0] { Ev::Cl(ClEv::SubsSet(a, b)) => b == a, _ => false }); }
@attry self.send_message
    proof {
        let s = w.since(&vx_w0);
        assert(tail(s, 1) =~= w.since(&vx_w1));
        assert(match s[0] { Ev::Cl(ClEv::SubsSet(a, b)) => a == vx_a, _ => false });
        assert(sent(asks(true, vx_v), vx_try is Ok, tail(s, 1)));
    }
@loop 0
    invariant subscribed_guard@ =~= changed(true, vx_a, $it.done()),
@end
    proof {
        let s = w.since(&vx_w0);
        assert(tail(s, 1) =~= w.since(&vx_w1));
        assert($it0.done() =~= vx_v@);
        assert(match s[0] { Ev::Cl(ClEv::SubsSet(a, b)) => a == vx_a && b =~= changed(true, a, vx_v@), _ => false });
        assert(sent(asks(true, vx_v), true, tail(s, 1)));
    }
#end
#fn Client::unsubscribe
@effects
@ret r
@params topics
@prop C17
@spec
    ensures final(w).grew(old(w)), resubscribed(false, topics@, r is Ok, final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@after ^let mut subscribed_guard
    let ghost vx_a = subscribed_guard@;
    let ghost vx_w1 = *w;
    proof { assert(vx_w1.since(&vx_w0).len() == 1); }
@after ^let topics_to_send
    let ghost vx_v = topics_to_send;
    proof {
        assert(changing(false, topics@, vx_a, vx_v@));
    }
@loopend 0
    proof { assert($it.done() =~= $it.all().subrange(0, $it.pos() - 1).push($it.all()[$it.pos() - 1])); lemma_push_set($it.all().subrange(0, $it.pos() - 1), $it.all()[$it.pos() - 1]); }
@before ^return
    proof { assert(match w.since(&vx_w0)[0] { Ev::Cl(ClEv::SubsSet(a, b)) => b == a, _ => false }); }
@attry self.send_message
    proof {
        let s = w.since(&vx_w0);
        assert(tail(s, 1) =~= w.since(&vx_w1));
        assert(match s[0] { Ev::Cl(ClEv::SubsSet(a, b)) => a == vx_a, _ => false });
        assert(sent(asks(false, vx_v), vx_try is Ok, tail(s, 1)));
    }
@loop 0
    invariant subscribed_guard@ =~= changed(false, vx_a, $it.done()),
@end
    proof {
        let s = w.since(&vx_w0);
        assert(tail(s, 1) =~= w.since(&vx_w1));
        assert($it0.done() =~= vx_v@);
        assert(match s[0] { Ev::Cl(ClEv::SubsSet(a, b)) => a == vx_a && b =~= changed(false, a, vx_v@), _ => false });
        assert(sent(asks(false, vx_v), true, tail(s, 1)));
    }
#end
#fn Client::soft_close
@effects
@ret r
@prop C23
@spec
    ensures final(w).grew(old(w)),
#end
#fn Client::close
@effects
@prop C23
@spec
    ensures final(w).grew(old(w)), ({ let s = final(w).since(old(w)); s.len() >= 3 && s[0] == Ev::Cl(ClEv::Close) && (s[1] matches Ev::Cl(ClEv::Task(was, now)) && !now
        && if was { s.len() == 4 && s[2] == Ev::Cl(ClEv::Stop) } else { s.len() == 3 }) && (s.last() matches Ev::Cl(ClEv::ConnSet(_, now)) && now is None) }),
#end
#fn Client::is_closed
@effects
@ret r
@prop C23
@spec
    ensures final(w).did(old(w), Ev::Cl(ClEv::IsClosed(r))),
#end
