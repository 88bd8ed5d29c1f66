Environment of the tasks: connections that send and receive, the discovery service, hooks, the lock, time, and the trace of what was done.
#include connections.vc assume
#include topics.vc
#effects read write send_message send_message_raw recv_message recv_message_raw soft_close on_message_received set_identifier
#effects check_whitelist perform_heartbeat get_other_brokers validate_permit issue_permit get_with_least_connections sleep now connect timeout accept finalize
#droppaths metrics
#source cdn-proto/src/message.rs
#item struct AuthenticateWithKey
#item struct AuthenticateWithPermit
#item struct AuthenticateResponse
#item struct Direct
#item struct Broadcast
#item enum Message
#source cdn-proto/src/def.rs
#item enum HookResult
#item type MessageHook
#item type Scheme
#item type PublicKey
#item type Protocol
#item type Listener
#raw
pub type AnyhowResult<T> = core::result::Result<T, AnyErr>;
#[verifier::external_body]
pub struct AnyErr { x: () }

// ---------- what the tasks did, in order
pub enum Task { UserSession(UserPublicKey, Connection), BrokerSession(BrokerIdentifier, Connection), Dial(String), Admit(int), Login(int, Limiter) }
pub enum Ev {
    Join(AbortHandle),
    /// the table as seen under the read lock
    Read(Connections),
    /// the table before and after a section under the write lock
    Write(Connections, Connections),
    Send(Connection, Seq<u8>, bool),
    SendMsg(Connection, Message, bool),
    Recv(Connection, Option<Bytes>),
    RecvMsg(Connection, Option<Message>),
    SoftClose(Connection, bool),
    /// the hook's state, the message, the verdict, what the hook made of the message, the hook's state afterwards
    Hook(HookSt, Message, Option<HookResult>, Message, HookSt),
    Whitelist(UserPublicKey, Option<bool>),
    Heartbeat(u64, bool),
    Others(Option<Set<BrokerIdentifier>>),
    Validate(BrokerIdentifier, u64, Option<Option<Seq<u8>>>),
    Issue(BrokerIdentifier, Seq<u8>, Option<u64>),
    Least(Option<BrokerIdentifier>),
    Now(Option<u64>),
    Sleep(u64),
    Spawn(Task, AbortHandle),
    Connect(String, Option<Connection>),
    /// a listener asked for the next connection; a connection set up, with the limiter it was given
    Accept(int, Option<int>),
    Finalize(int, Limiter, Option<Connection>),
    /// work that had to end within so many seconds, and whether it did
    Limit(u64, bool),
    /// a client's own state
    Cl(ClEv),
}
pub enum Permit { Got, Taken, Closed }
pub enum ClEv {
    /// the semaphore around reconnecting
    IsClosed(bool), Free(usize), TryAcquire(Permit), Acquire(bool), Release, Close,
    /// the reconnecting task: present before and after; started; stopped
    Task(bool, bool), Start, Stop,
    /// the connection, read; read without waiting; before and after a section under the write lock
    Conn(Option<Connection>), TryConn(Option<Option<Connection>>), ConnSet(Option<Connection>, Option<Connection>),
    /// the remembered subscriptions, read; before and after a section under the write lock
    Subs(Set<Topic>), SubsSet(Set<Topic>, Set<Topic>),
}
pub uninterp spec fn trace_of(r: Rest) -> Seq<Ev>;
pub open spec fn tail(s: Seq<Ev>, n: nat) -> Seq<Ev> { s.subrange(n as int, s.len() as int) }
impl World {
    pub open spec fn trace(&self) -> Seq<Ev> { trace_of(self.rest()) }
    /// one more event, and nothing else
    pub open spec fn did(&self, o: &World, e: Ev) -> bool { self.trace() == o.trace().push(e) && self.aborted() == o.aborted() }
    /// only new events
    pub open spec fn grew(&self, o: &World) -> bool { o.trace().len() <= self.trace().len() && self.trace() =~= o.trace() + tail(self.trace(), o.trace().len()) }
    /// the new events
    pub open spec fn since(&self, o: &World) -> Seq<Ev> { tail(self.trace(), o.trace().len()) }
}
pub open spec fn cat(ss: Seq<Seq<Ev>>) -> Seq<Ev> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { cat(ss.drop_last()) + ss.last() } }
pub proof fn lemma_cat_push(ss: Seq<Seq<Ev>>, s: Seq<Ev>) ensures cat(ss.push(s)) == cat(ss) + s { assert(ss.push(s).drop_last() =~= ss); }
pub broadcast proof fn lemma_tail_push(s: Seq<Ev>, e: Ev, n: nat)
    requires n <= s.len()
    ensures #[trigger] tail(s.push(e), n) == tail(s, n).push(e), tail(s, n).push(e).drop_last() == tail(s, n)
{ assert(tail(s.push(e), n) =~= tail(s, n).push(e)); assert(tail(s, n).push(e).drop_last() =~= tail(s, n)); }
/// what happened in two steps, taken apart again
pub broadcast proof fn lemma_since(w0: World, w1: World, w2: World)
    requires w1.grew(&w0), w2.grew(&w1)
    ensures ({ let s = w2.since(&w0); let n = w1.since(&w0).len(); &&& w2.grew(&w0) &&& s.subrange(0, n as int) == #[trigger] w1.since(&w0) &&& tail(s, n) == #[trigger] w2.since(&w1) &&& n <= s.len() &&& (n > 0 ==> s[0] == w1.since(&w0)[0]) })
{
    let s = w2.since(&w0); let n = w1.since(&w0).len();
    assert(w2.trace() =~= w0.trace() + s);
    assert(s.subrange(0, n as int) =~= w1.since(&w0));
    assert(tail(s, n) =~= w2.since(&w1));
    if n > 0 { assert(s.subrange(0, n as int)[0] == s[0]); }
}
pub broadcast proof fn lemma_kept(o: World, w: World, i: int)
    requires #[trigger] w.grew(&o), 0 <= i < o.trace().len()
    ensures #[trigger] w.trace()[i] == o.trace()[i]
{ assert(w.trace() =~= o.trace() + tail(w.trace(), o.trace().len())); assert((o.trace() + tail(w.trace(), o.trace().len()))[i] == o.trace()[i]); }
pub proof fn lemma_tail(s: Seq<Ev>, a: nat, b: nat) requires a + b <= s.len() ensures tail(tail(s, a), b) == tail(s, a + b) { assert(tail(tail(s, a), b) =~= tail(s, a + b)); }

// ---------- bytes, messages and their encoding (the codec's own contract is C14)
#[verifier::external_body]
pub struct Bytes { x: () }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_unchecked(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub uninterp spec fn decode(b: Seq<u8>) -> Option<Message>;
impl Message {
    #[verifier::external_body]
    pub fn deserialize(b: &Bytes) -> (r: Result<Message>) ensures vx_ok(r) == decode(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: Result<Vec<u8>>) ensures r matches Ok(v) ==> decode(v@) == Some(*self) { unimplemented!() }
}
/// rkyv's encoding of the replicated maps (trusted: decoding returns what was encoded)
pub trait VxBytes { spec fn bs(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl<'a, B: VxBytes + ?Sized> VxBytes for &'a B { open spec fn bs(&self) -> Seq<u8> { (**self).bs() } }
pub uninterp spec fn unarchive<T>(b: Seq<u8>) -> Option<T>;
pub trait VxRkyv: Sized { spec fn sane(&self) -> bool; }
impl VxRkyv for DirectMap { open spec fn sane(&self) -> bool { forall|k: UserPublicKey| #[trigger] self.m().contains_key(k) ==> self.m()[k].version < u64::MAX } }
impl VxRkyv for TopicSyncMap { open spec fn sane(&self) -> bool { true } }
#[verifier::external_body]
pub fn to_bytes<T: VxRkyv, const N: usize>(x: &T) -> (r: StdResult<Vec<u8>, AnyErr>) ensures r matches Ok(v) ==> unarchive::<T>(v@) == Some(*x) { unimplemented!() }
/// (assumption: no peer that holds the broker key sends a version counter of u64::MAX)
#[verifier::external_body]
pub fn from_bytes<T: VxRkyv>(b: &(impl VxBytes + ?Sized)) -> (r: StdResult<T, AnyErr>) ensures vx_ok(r) == unarchive::<T>(b.bs()), r matches Ok(x) ==> x.sane() { unimplemented!() }
pub assume_specification<T> [ <T as From<T>>::from ](t: T) -> (r: T) ensures r == t;
pub assume_specification<T> [ <Arc<T> as From<T>>::from ](t: T) -> (r: Arc<T>) ensures *r == t;

// ---------- connections
impl Connection {
    #[verifier::external_body]
    pub fn send_message_raw(&self, m: Bytes, Tracked(w): Tracked<&mut World>) -> (r: Result<()>) ensures final(w).did(old(w), Ev::Send(*self, m@, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn send_message(&self, m: Message, Tracked(w): Tracked<&mut World>) -> (r: Result<()>) ensures final(w).did(old(w), Ev::SendMsg(*self, m, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn recv_message_raw(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Bytes>) ensures final(w).did(old(w), Ev::Recv(*self, vx_ok(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn recv_message(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Message>) ensures final(w).did(old(w), Ev::RecvMsg(*self, vx_ok(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn soft_close(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<()>) ensures final(w).did(old(w), Ev::SoftClose(*self, r is Ok)) { unimplemented!() }
}

// ---------- the lock around the table: its invariant holds whenever the lock is free
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: PhantomData<T> }
impl RwLock<Connections> {
    #[verifier::external_body]
    pub fn read(&self, Tracked(w): Tracked<&mut World>) -> (r: &Connections) ensures r.inv(), r.roomy(), final(w).did(old(w), Ev::Read(*r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut Connections) ensures (*r).inv(), (*r).roomy(), final(w).did(old(w), Ev::Write(*r, *final(r))) { unimplemented!() }
}

// ---------- time
pub struct Duration { pub s: u64 }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Duration) ensures r.s == n { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.s { unimplemented!() }
}
#[verifier::external_body]
pub fn sleep(d: Duration, Tracked(w): Tracked<&mut World>) ensures final(w).did(old(w), Ev::Sleep(d.s)) { unimplemented!() }
#[verifier::external_body]
pub struct Elapsed { x: () }
/// the result of the work, or nothing because the time ran out first
#[verifier::external_body]
pub fn timeout<T>(d: Duration, x: T, Tracked(w): Tracked<&mut World>) -> (r: StdResult<T, Elapsed>) ensures final(w).did(old(w), Ev::Limit(d.s, r is Ok)), r matches Ok(v) ==> v == x { unimplemented!() }
#[verifier::external_body]
pub struct JoinHandle { x: () }
impl JoinHandle {
    pub uninterp spec fn ah(&self) -> AbortHandle;
    #[verifier::external_body]
    pub fn abort_handle(&self) -> (r: AbortHandle) ensures r == self.ah() { unimplemented!() }
}
/// waiting for a task to end
#[verifier::external_body]
pub fn vx_await(h: JoinHandle, Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), AnyErr>) ensures final(w).did(old(w), Ev::Join(h.ah())) { unimplemented!() }
#[verifier::external_body]
pub fn mnemonic<T: ?Sized>(x: &T) -> String { unimplemented!() }
#[verifier::external_body]
pub fn hash<T>(x: &T) -> (r: u64) ensures r == hash_of(x) { unimplemented!() }
/// the number a value is identified by (std's hasher: trusted)
pub uninterp spec fn hash_of<T>(x: &T) -> u64;
#[verifier::external_body]
pub struct Limiter { x: () }
impl Clone for Limiter { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------- what the deployment plugs in
/// what a hook remembers between messages
#[verifier::external_body]
pub struct HookSt { x: () }
impl HookSt { pub uninterp spec fn named(self, id: u64) -> HookSt; }
pub trait MessageHookDef: Sized + Clone {
    spec fn st(&self) -> HookSt;
    fn on_message_received(&mut self, m: &mut Message, Tracked(w): Tracked<&mut World>) -> (r: AnyhowResult<HookResult>)
        ensures final(w).did(old(w), Ev::Hook(old(self).st(), *old(m), vx_ok(r), *final(m), final(self).st()));
    fn set_identifier(&mut self, id: u64, Tracked(w): Tracked<&mut World>) ensures *final(w) == *old(w), final(self).st() == old(self).st().named(id);
}
/// a clone of a hook remembers what the original does (trusted of the deployment's hook)
pub broadcast axiom fn ax_hook_clone<H: MessageHookDef>(a: &H, b: H) ensures #[trigger] call_ensures(H::clone, (a,), b) ==> a.st() == b.st();
pub trait Serializable: Sized {
    spec fn ser(&self) -> Option<Seq<u8>>;
    spec fn de(b: Seq<u8>) -> Option<Self>;
    fn serialize(&self) -> (r: AnyhowResult<Vec<u8>>) ensures self.ser() == (match r { Ok(v) => Some(v@), Err(_) => None });
    fn deserialize(b: &[u8]) -> (r: AnyhowResult<Self>) ensures vx_ok(r) == Self::de(b@);
}
pub trait SignatureScheme: Sized {
    type PrivateKey: Clone;
    type PublicKey: Serializable + Eq + Clone;
    spec fn signs(sk: Self::PrivateKey, ns: Seq<char>, m: Seq<u8>) -> Option<Seq<u8>>;
    spec fn verifies(pk: Self::PublicKey, ns: Seq<char>, m: Seq<u8>, sig: Seq<u8>) -> bool;
    fn sign(sk: &Self::PrivateKey, ns: &'static str, m: &[u8]) -> (r: AnyhowResult<Vec<u8>>) ensures Self::signs(*sk, ns@, m@) == (match r { Ok(v) => Some(v@), Err(_) => None });
    fn verify(pk: &Self::PublicKey, ns: &'static str, m: &[u8], sig: &[u8]) -> (r: bool) ensures r == Self::verifies(*pk, ns@, m@, sig@);
}
/// a connection that arrived and is not set up yet
pub trait UnfinalizedT: Sized {
    spec fn uid(&self) -> int;
    fn finalize(self, l: Limiter, Tracked(w): Tracked<&mut World>) -> (r: Result<Connection>) ensures final(w).did(old(w), Ev::Finalize(self.uid(), l, vx_ok(r)));
}
pub trait ListenerT<U: UnfinalizedT>: Sized {
    spec fn lid(&self) -> int;
    fn accept(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<U>) ensures final(w).did(old(w), Ev::Accept(self.lid(), match r { Ok(u) => Some(u.uid()), Err(_) => None }));
}
pub trait ProtocolType: Sized {
    type UnfinalizedConnection: UnfinalizedT;
    type Listener: ListenerT<Self::UnfinalizedConnection>;
    fn connect(e: &String, use_local_authority: bool, l: Limiter, Tracked(w): Tracked<&mut World>) -> (r: Result<Connection>) ensures final(w).did(old(w), Ev::Connect(*e, vx_ok(r)));
}
pub trait ConnectionDef: Sized { type Scheme: SignatureScheme; type Protocol: ProtocolType; type MessageHook: MessageHookDef; }
pub trait DiscoveryClient: Sized + Clone {
    fn check_whitelist(&mut self, u: &UserPublicKey, Tracked(w): Tracked<&mut World>) -> (r: Result<bool>) ensures final(w).did(old(w), Ev::Whitelist(*u, vx_ok(r)));
    fn perform_heartbeat(&mut self, n: u64, d: Duration, Tracked(w): Tracked<&mut World>) -> (r: Result<()>) ensures final(w).did(old(w), Ev::Heartbeat(n, r is Ok));
    fn get_other_brokers(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<HashSet<BrokerIdentifier>>) ensures final(w).did(old(w), Ev::Others(match r { Ok(s) => Some(s@), Err(_) => None }));
    fn validate_permit(&mut self, b: &BrokerIdentifier, p: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<Vec<u8>>>)
        ensures final(w).did(old(w), Ev::Validate(*b, p, match r { Ok(Some(v)) => Some(Some(v@)), Ok(None) => Some(None), Err(_) => None }));
    fn issue_permit(&mut self, b: &BrokerIdentifier, d: Duration, pk: Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<u64>) ensures final(w).did(old(w), Ev::Issue(*b, pk@, vx_ok(r)));
    fn get_with_least_connections(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<BrokerIdentifier>) ensures final(w).did(old(w), Ev::Least(vx_ok(r)));
}
pub trait TopicDef: Sized {
    spec fn valid() -> spec_fn(u8) -> bool;
    /// what pruning makes of a list (C16)
    spec fn pruned(v: Seq<u8>) -> Seq<u8>;
    fn prune(topics: &mut Vec<u8>) -> (r: Result<()>)
        ensures final(topics)@ == Self::pruned(old(topics)@), pruned_to(old(topics)@, final(topics)@, Self::valid()), (r is Ok) == (final(topics)@.len() > 0);
}
pub trait RunDef: Sized { type Broker: ConnectionDef; type User: ConnectionDef; type DiscoveryClientType: DiscoveryClient; type Topic: TopicDef; }
#end
#source cdn-proto/src/crypto/signature.rs
#item struct KeyPair noderive
#item enum Namespace
#impl Namespace
#fn Namespace::as_str
@ret r
@prop C09 C11 C12
@spec
    ensures r@ == self.domain(),
#end
#raw
impl Namespace {
    pub open spec fn domain(&self) -> Seq<char> { match self { Namespace::UserMarshalAuth => "espresso-cdn-user-marshal-auth"@, Namespace::BrokerBrokerAuth => "espresso-cdn-broker-broker-auth"@ } }
}
pub proof fn lemma_domains_differ() ensures Namespace::UserMarshalAuth.domain() != Namespace::BrokerBrokerAuth.domain() {
    reveal_strlit("espresso-cdn-user-marshal-auth"); reveal_strlit("espresso-cdn-broker-broker-auth");
    assert(Namespace::UserMarshalAuth.domain().len() != Namespace::BrokerBrokerAuth.domain().len());
}
/// the wall clock
pub struct SystemTime { pub t: u64, pub ok: bool }
impl SystemTime {
    #[verifier::external_body]
    pub fn now(Tracked(w): Tracked<&mut World>) -> (r: SystemTime) ensures final(w).did(old(w), Ev::Now(if r.ok { Some(r.t) } else { None })) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(self, o: SystemTime) -> (r: StdResult<Duration, AnyErr>) ensures o == UNIX_EPOCH ==> if self.ok { r matches Ok(d) && d.s == self.t } else { r is Err } { unimplemented!() }
}
pub const UNIX_EPOCH: SystemTime = SystemTime { t: 0, ok: true };
/// eight bytes, least significant first
pub uninterp spec fn le8(n: u64) -> Seq<u8>;
pub trait VxLe { fn vx_to_le_bytes(&self) -> (r: [u8; 8]); }
impl VxLe for u64 { #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == le8(*self) { unimplemented!() } }
#end
#rename to_le_bytes=vx_to_le_bytes
#macros cdn-proto/src/connection/auth/mod.rs
#source cdn-broker/src/lib.rs
#item struct Inner
