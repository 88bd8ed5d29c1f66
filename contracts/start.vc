A broker's own tasks: all of them run, and the broker ends when one of them does (C29)
#include ident.vc
#droppaths proto_metrics
#effects spawn vx_select2 vx_select3 vx_select4 vx_select5 vx_select6 abort
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier
#raw
/// the tasks a broker consists of; the last two with the listener they serve
pub enum Part { Heartbeat, Sync, Whitelist, Users(int), Brokers(int) }
/// a task: which it is (a number no other task has)
#[verifier::external_body]
pub struct JoinHandle { x: () }
impl JoinHandle {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn abort(&self, Tracked(w): Tracked<&mut World>) ensures final(w).did(old(w), Ev::Abort(self.id())) { unimplemented!() }
}
/// `Ended(of, stopped)`: one of these tasks ended, and the others were stopped
pub enum Ev { Spawn(Part, int), Ended(Seq<int>, bool), Abort(int) }
#[verifier::external_body]
pub struct World { x: () }
pub open spec fn tail(s: Seq<Ev>, n: nat) -> Seq<Ev> { s.subrange(n as int, s.len() as int) }
impl World {
    pub uninterp spec fn trace(&self) -> Seq<Ev>;
    pub open spec fn did(&self, o: &World, e: Ev) -> bool { self.trace() == o.trace().push(e) && self.grew(o) && self.since(o) == Seq::<Ev>::empty().push(e) }
    pub open spec fn grew(&self, o: &World) -> bool { o.trace().len() <= self.trace().len() && self.trace() =~= o.trace() + tail(self.trace(), o.trace().len()) }
    pub open spec fn since(&self, o: &World) -> Seq<Ev> { tail(self.trace(), o.trace().len()) }
}
pub broadcast proof fn lemma_tail_push(s: Seq<Ev>, e: Ev, n: nat)
    requires n <= s.len()
    ensures #[trigger] tail(s.push(e), n) == tail(s, n).push(e)
{ assert(tail(s.push(e), n) =~= tail(s, n).push(e)); }
pub trait ListenerT: Sized { spec fn lid(&self) -> int; }
pub trait ProtocolType: Sized { type Listener: ListenerT; }
pub trait ConnectionDef: Sized { type Protocol: ProtocolType; }
pub trait RunDef: Sized { type Broker: ConnectionDef; type User: ConnectionDef; }
/// what a future will do once it runs
#[verifier::external_body]
pub struct VxFuture { x: () }
impl VxFuture { pub uninterp spec fn part(&self) -> Part; }
#[verifier::external_body]
#[verifier::accept_recursive_types(Def)]
pub struct Inner<Def> { x: PhantomData<Def> }
impl<Def: RunDef> Inner<Def> {
    #[verifier::external_body]
    pub fn run_heartbeat_task(self: Arc<Self>) -> (r: VxFuture) ensures r.part() == Part::Heartbeat { unimplemented!() }
    #[verifier::external_body]
    pub fn run_sync_task(self: Arc<Self>) -> (r: VxFuture) ensures r.part() == Part::Sync { unimplemented!() }
    #[verifier::external_body]
    pub fn run_whitelist_task(self: Arc<Self>) -> (r: VxFuture) ensures r.part() == Part::Whitelist { unimplemented!() }
    #[verifier::external_body]
    pub fn run_user_listener_task(self: Arc<Self>, l: Listener<Def::User>) -> (r: VxFuture) ensures r.part() == Part::Users(l.lid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn run_broker_listener_task(self: Arc<Self>, l: Listener<Def::Broker>) -> (r: VxFuture) ensures r.part() == Part::Brokers(l.lid()) { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn(f: VxFuture, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle) ensures final(w).did(old(w), Ev::Spawn(f.part(), r.id())) { unimplemented!() }
pub struct SocketAddr {}
/// tokio's select!: waits until one of them ends, whichever it is; the others are dropped, which stops them if they are handles of that kind
pub struct Gone {}
pub trait Awaited: Sized { spec fn wid(&self) -> int; spec fn stops(&self) -> bool; }
impl Awaited for JoinHandle { open spec fn wid(&self) -> int { self.id() } open spec fn stops(&self) -> bool { false } }
impl Awaited for AbortOnDropHandle { open spec fn wid(&self) -> int { self.0.id() } open spec fn stops(&self) -> bool { true } }
pub enum VxSel2 { S0(Gone), S1(Gone) }
#[verifier::external_body]
pub fn vx_select2<A: Awaited, B: Awaited>(a: A, b: B, Tracked(w): Tracked<&mut World>) -> (r: VxSel2)
    ensures final(w).did(old(w), Ev::Ended(Seq::<int>::empty().push(a.wid()).push(b.wid()), a.stops() && b.stops())) { unimplemented!() }
pub enum VxSel3 { S0(Gone), S1(Gone), S2(Gone) }
#[verifier::external_body]
pub fn vx_select3<A: Awaited, B: Awaited, C: Awaited>(a: A, b: B, c: C, Tracked(w): Tracked<&mut World>) -> (r: VxSel3)
    ensures final(w).did(old(w), Ev::Ended(Seq::<int>::empty().push(a.wid()).push(b.wid()).push(c.wid()), a.stops() && b.stops() && c.stops())) { unimplemented!() }
pub enum VxSel4 { S0(Gone), S1(Gone), S2(Gone), S3(Gone) }
#[verifier::external_body]
pub fn vx_select4<A: Awaited, B: Awaited, C: Awaited, D: Awaited>(a: A, b: B, c: C, d: D, Tracked(w): Tracked<&mut World>) -> (r: VxSel4)
    ensures final(w).did(old(w), Ev::Ended(Seq::<int>::empty().push(a.wid()).push(b.wid()).push(c.wid()).push(d.wid()), a.stops() && b.stops() && c.stops() && d.stops())) { unimplemented!() }
pub enum VxSel5 { S0(Gone), S1(Gone), S2(Gone), S3(Gone), S4(Gone) }
#[verifier::external_body]
pub fn vx_select5<A: Awaited, B: Awaited, C: Awaited, D: Awaited, E: Awaited>(a: A, b: B, c: C, d: D, e: E, Tracked(w): Tracked<&mut World>) -> (r: VxSel5)
    ensures final(w).did(old(w), Ev::Ended(Seq::<int>::empty().push(a.wid()).push(b.wid()).push(c.wid()).push(d.wid()).push(e.wid()), a.stops() && b.stops() && c.stops() && d.stops() && e.stops())) { unimplemented!() }
pub enum VxSel6 { S0(Gone), S1(Gone), S2(Gone), S3(Gone), S4(Gone), S5(Gone) }
#[verifier::external_body]
pub fn vx_select6<A: Awaited, B: Awaited, C: Awaited, D: Awaited, E: Awaited, F: Awaited>(a: A, b: B, c: C, d: D, e: E, f: F, Tracked(w): Tracked<&mut World>) -> (r: VxSel6)
    ensures final(w).did(old(w), Ev::Ended(Seq::<int>::empty().push(a.wid()).push(b.wid()).push(c.wid()).push(d.wid()).push(e.wid()).push(f.wid()), a.stops() && b.stops() && c.stops() && d.stops() && e.stops() && f.stops())) { unimplemented!() }
pub struct AbortOnDropHandle(pub JoinHandle);
pub open spec fn is_part(e: Ev, p: Part) -> bool { e matches Ev::Spawn(q, _) && q == p }
pub open spec fn runs(s: Seq<Ev>, p: Part) -> bool { exists|i: int| 0 <= i < s.len() && is_part(#[trigger] s[i], p) }
pub broadcast proof fn lemma_contains_push(s: Seq<int>, x: int, y: int)
    ensures #[trigger] s.push(x).contains(y) == (s.contains(y) || x == y)
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    assert(s.push(x)[s.len() as int] == x);
}
/// a task that was spawned is one of those waited for
pub open spec fn waits(e: Ev, of: Seq<int>) -> bool { e matches Ev::Spawn(_, h) && of.contains(h) }
/// all five run, and nothing else; the broker waits for whichever of them ends first, and stops the others
pub open spec fn started(users: int, brokers: int, s: Seq<Ev>) -> bool {
    s.len() == 6 && runs(s, Part::Heartbeat) && runs(s, Part::Sync) && runs(s, Part::Whitelist) && runs(s, Part::Users(users)) && runs(s, Part::Brokers(brokers))
    && (s[5] matches Ev::Ended(of, stopped) && stopped && forall|i: int| 0 <= i < 5 ==> waits(#[trigger] s[i], of))
}
#end
#source cdn-proto/src/def.rs
#item type Protocol
#item type Listener
#source cdn-proto/src/util.rs
#impl AbortOnDropHandle trait=Drop header=impl~AbortOnDropHandle
#fn AbortOnDropHandle::drop
@effects
@prop C29
@spec
    ensures final(w).did(old(w), Ev::Abort(old(self).0.id())),
#end
#source cdn-broker/src/lib.rs
#item struct Broker noderive
#impl Broker only=start
#fn Broker::start
@effects
@ret r
@prop C29
@spec
    ensures final(w).grew(old(w)), started(self.user_listener.lid(), self.broker_listener.lid(), final(w).since(old(w))), r is Err,
@begin
    broadcast use lemma_tail_push, lemma_contains_push;
    let ghost vx_w0 = *w;
@end
    proof {
        let s = w.since(&vx_w0);
        assert(s.len() == 6);
        assert(s[0] is Spawn && s[1] is Spawn && s[2] is Spawn && s[3] is Spawn && s[4] is Spawn);
    }
#end
