Length-prefixed framing and the memory budget (C13)
#include ident.vc
#env
#[verifier::external_body]
pub struct AbortHandle { x: () }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: PhantomData<T> }
impl<T> Sender<T> { pub uninterp spec fn id(&self) -> int; pub uninterp spec fn cap(&self) -> Option<usize>; }
impl<T> Receiver<T> { pub uninterp spec fn id(&self) -> int; }
pub mod oneshot {
    #![allow(unused_imports)]
    use vstd::prelude::*;
    use core::marker::PhantomData;
    verus! {
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Sender<T> { x: PhantomData<T> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Receiver<T> { x: PhantomData<T> }
    impl<T> Sender<T> { pub uninterp spec fn id(&self) -> int; }
    impl<T> Receiver<T> { pub uninterp spec fn id(&self) -> int; }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id() { unimplemented!() }
    }
}
#end
#effects vx_await read_u32 read_exact write_u32 write_all flush acquire_many_owned alloc allocate_message_bytes soft_close recv send close abort read_length_delimited write_length_delimited send_message_raw recv_message_raw send_message recv_message
#droppaths metrics
#keepmods oneshot
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier noderive attr=derive(PartialEq,Eq)
#source cdn-proto/src/lib.rs
#item const MAX_MESSAGE_SIZE
#source cdn-proto/src/connection/limiter/pool.rs
#item struct MemoryPool noderive
#item struct AllocationPermit noderive
#item struct Allocation noderive
#source cdn-proto/src/connection/mod.rs
#item type Bytes
#source cdn-proto/src/connection/limiter/mod.rs
#item struct Limiter noderive
#source cdn-proto/src/connection/protocols/mod.rs
#item enum BytesOrSoftClose
#item struct ConnectionRef noderive
#item struct Connection noderive
#raw
global size_of usize == 8;
// ---------- what can be observed of a stream and its connection, in order
pub enum Ev {
    ReadLen(Option<u32>), Reserve(Semaphore, u32), ReadBody(nat, Option<Seq<u8>>),
    WriteLen(u32, bool), WriteBody(Seq<u8>, bool), Flush(bool),
    /// the stream was told to finish; the one who asked was told
    Finish, Ack(int),
    /// taken from the queue of messages to send; a queue was closed
    Took(int, Option<BytesOrSoftClose>), Closed(int),
    /// put into the queue of received messages
    Gave(int, Bytes, bool),
    /// put into the queue of messages to send; taken from the queue of received ones; waited for the answer
    Put(int, BytesOrSoftClose, bool), Got(int, Option<Bytes>), Answer(int, bool),
    SendPump(int, AbortHandle), RecvPump(int, Limiter, AbortHandle), Abort(AbortHandle),
}
#[verifier::external_body]
pub tracked struct World { x: () }
pub open spec fn tail(s: Seq<Ev>, n: nat) -> Seq<Ev> { s.subrange(n as int, s.len() as int) }
impl World {
    pub uninterp spec fn trace(&self) -> Seq<Ev>;
    pub open spec fn did(&self, o: &World, e: Ev) -> bool { self.trace() == o.trace().push(e) }
    pub open spec fn grew(&self, o: &World) -> bool { o.trace().len() <= self.trace().len() && self.trace() =~= o.trace() + tail(self.trace(), o.trace().len()) }
    pub open spec fn since(&self, o: &World) -> Seq<Ev> { tail(self.trace(), o.trace().len()) }
}
pub open spec fn cat(ss: Seq<Seq<Ev>>) -> Seq<Ev> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { cat(ss.drop_last()) + ss.last() } }
pub proof fn lemma_cat_push(ss: Seq<Seq<Ev>>, s: Seq<Ev>) ensures cat(ss.push(s)) == cat(ss) + s { assert(ss.push(s).drop_last() =~= ss); }
pub broadcast proof fn lemma_tail_push(s: Seq<Ev>, e: Ev, n: nat)
    requires n <= s.len()
    ensures #[trigger] tail(s.push(e), n) == tail(s, n).push(e), tail(s, n).push(e).drop_last() == tail(s, n)
{ assert(tail(s.push(e), n) =~= tail(s, n).push(e)); assert(tail(s, n).push(e).drop_last() =~= tail(s, n)); }
pub broadcast proof fn lemma_kept(o: World, w: World, i: int)
    requires #[trigger] w.grew(&o), 0 <= i < o.trace().len()
    ensures #[trigger] w.trace()[i] == o.trace()[i]
{ assert(w.trace() =~= o.trace() + tail(w.trace(), o.trace().len())); assert((o.trace() + tail(w.trace(), o.trace().len()))[i] == o.trace()[i]); }
pub broadcast proof fn lemma_since(w0: World, w1: World, w2: World)
    requires w1.grew(&w0), w2.grew(&w1)
    ensures ({ let s = w2.since(&w0); let n = w1.since(&w0).len(); &&& w2.grew(&w0) &&& s.subrange(0, n as int) == #[trigger] w1.since(&w0) &&& tail(s, n) == #[trigger] w2.since(&w1) &&& n <= s.len() &&& (n > 0 ==> s[0] == w1.since(&w0)[0]) })
{
    let s = w2.since(&w0); let n = w1.since(&w0).len();
    assert(w2.trace() =~= w0.trace() + s);
    assert(s.subrange(0, n as int) =~= w1.since(&w0));
    assert(tail(s, n) =~= w2.since(&w1));
    if n > 0 { assert(s.subrange(0, n as int)[0] == s[0]); }
}

// ---------- numbers on the wire: four bytes, most significant first
pub open spec fn be(n: u32) -> Seq<u8> { seq![(n >> 24u32) as u8, (n >> 16u32) as u8, (n >> 8u32) as u8, n as u8] }
pub proof fn lemma_be(a: u32, b: u32) requires be(a) == be(b) ensures a == b {
    assert(be(a)[0] == be(b)[0] && be(a)[1] == be(b)[1] && be(a)[2] == be(b)[2] && be(a)[3] == be(b)[3]);
    assert((a >> 24u32) as u8 == (b >> 24u32) as u8 && (a >> 16u32) as u8 == (b >> 16u32) as u8 && (a >> 8u32) as u8 == (b >> 8u32) as u8 && a as u8 == b as u8 ==> a == b) by (bit_vector);
}
/// s1 is s0 and then some (maybe all, maybe none) of x, from its beginning
pub open spec fn ext(s0: Seq<u8>, s1: Seq<u8>, x: Seq<u8>) -> bool { s0.len() <= s1.len() <= s0.len() + x.len() && s1 == s0 + x.take(s1.len() - s0.len()) }
pub broadcast proof fn lemma_ext_more(s0: Seq<u8>, s1: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] ext(s0, s1, a)
    ensures ext(s0, s1, #[trigger] (a + b))
{ assert((a + b).take(s1.len() - s0.len()) =~= a.take(s1.len() - s0.len())); }
pub broadcast proof fn lemma_ext_then(s0: Seq<u8>, s2: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] ext(s0 + a, s2, b)
    ensures ext(s0, s2, #[trigger] (a + b))
{ let k = s2.len() - s0.len(); assert((a + b).take(k) =~= a + b.take(k - a.len())); assert(s2 =~= s0 + (a + b).take(k)); }
pub broadcast proof fn lemma_ext_all(s0: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] ((s0 + a) + b) == s0 + (a + b)
{ assert((s0 + a) + b =~= s0 + (a + b)); }
pub broadcast proof fn lemma_skip_take(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{ assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast group vx_bytes { lemma_ext_more, lemma_ext_then, lemma_ext_all, lemma_skip_take, lemma_skip_skip }
/// one message on the wire
pub open spec fn frame(m: Seq<u8>) -> Seq<u8> { be(m.len() as u32) + m }
/// receiving what was sent gives the same bytes and leaves the stream at the next frame
pub proof fn lemma_there_and_back(m: Seq<u8>, n: u32, x: Seq<u8>, rest: Seq<u8>, ahead: Seq<u8>)
    requires m.len() <= u32::MAX, ahead == frame(m) + rest, took_frame(ahead, n, x)
    ensures x == m, ahead.skip(4 + x.len() as int) == rest
{
    assert(ahead.take(4) =~= be(m.len() as u32));
    lemma_be(n, m.len() as u32);
    assert(ahead.subrange(4, 4 + m.len() as int) =~= m);
    assert(ahead.skip(4 + m.len() as int) =~= rest);
}
/// the frame at the head of the stream
pub open spec fn took_frame(ahead: Seq<u8>, n: u32, x: Seq<u8>) -> bool {
    ahead.len() >= 4 + n && be(n) == ahead.take(4) && x.len() == n && x == ahead.subrange(4, 4 + n as int)
}

// ---------- streams (tokio's extension traits)
#[verifier::external_body]
pub struct IoError { x: () }
pub trait AsyncReadExt: Sized {
    /// the bytes still to come
    spec fn ahead(&self) -> Seq<u8>;
    fn read_u32(&mut self, Tracked(w): Tracked<&mut World>) -> (r: StdResult<u32, IoError>)
        ensures final(w).did(old(w), Ev::ReadLen(vx_ok(r))), r matches Ok(n) ==> old(self).ahead().len() >= 4 && be(n) == old(self).ahead().take(4) && final(self).ahead() == old(self).ahead().skip(4);
    fn read_exact(&mut self, buf: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: StdResult<usize, IoError>)
        ensures final(buf)@.len() == old(buf)@.len(), final(w).did(old(w), Ev::ReadBody(old(buf)@.len(), if r is Ok { Some(final(buf)@) } else { None })),
            r matches Ok(n) ==> n == old(buf)@.len() && old(self).ahead().len() >= n && final(buf)@ == old(self).ahead().take(n as int) && final(self).ahead() == old(self).ahead().skip(n as int);
}
pub trait AsBytes { spec fn bytes(&self) -> Seq<u8>; }
impl AsBytes for Bytes { open spec fn bytes(&self) -> Seq<u8> { self.ptr@ } }
impl AsBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
pub trait AsyncWriteExt: Sized {
    /// the bytes written so far
    spec fn sent(&self) -> Seq<u8>;
    fn write_u32(&mut self, n: u32, Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), IoError>)
        ensures final(w).did(old(w), Ev::WriteLen(n, r is Ok)), ext(old(self).sent(), final(self).sent(), be(n)), r is Ok ==> final(self).sent() == old(self).sent() + be(n);
    fn write_all<B: AsBytes + ?Sized>(&mut self, b: &B, Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), IoError>)
        ensures final(w).did(old(w), Ev::WriteBody(b.bytes(), r is Ok)), ext(old(self).sent(), final(self).sent(), b.bytes()), r is Ok ==> final(self).sent() == old(self).sent() + b.bytes();
    fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), IoError>)
        ensures final(w).did(old(w), Ev::Flush(r is Ok)), final(self).sent() == old(self).sent();
}
pub trait SoftClose: Sized {
    fn soft_close(&mut self, Tracked(w): Tracked<&mut World>) ensures final(w).did(old(w), Ev::Finish);
}
pub struct Duration { pub s: u64 }
impl Duration { #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) ensures r.s == n { unimplemented!() } }
#[verifier::external_body]
pub struct Elapsed { x: () }
#[verifier::external_body]
pub fn timeout<T>(d: Duration, x: T) -> (r: StdResult<T, Elapsed>) ensures r matches Ok(v) ==> v == x { unimplemented!() }

// ---------- the budget
#[verifier::external_body]
pub struct Semaphore { x: () }
#[verifier::external_body]
pub struct OwnedSemaphorePermit { x: () }
#[verifier::external_body]
pub struct AcquireError { x: () }
/// (the real function's error type is anyhow's; errors are not told apart here)
impl From<AcquireError> for Error { #[verifier::external_body] fn from(e: AcquireError) -> Error { unimplemented!() } }
impl OwnedSemaphorePermit { pub uninterp spec fn of(&self) -> Semaphore; pub uninterp spec fn held(&self) -> u32; }
pub trait VxAcquire { fn acquire_many_owned(self, n: u32, Tracked(w): Tracked<&mut World>) -> (r: StdResult<OwnedSemaphorePermit, AcquireError>); }
impl VxAcquire for Arc<Semaphore> {
    /// (never closed in this code base, so it does not fail)
    #[verifier::external_body]
    fn acquire_many_owned(self, n: u32, Tracked(w): Tracked<&mut World>) -> (r: StdResult<OwnedSemaphorePermit, AcquireError>)
        ensures r matches Ok(p) && p.held() == n && p.of() == *self, final(w).did(old(w), Ev::Reserve(*self, n)) { unimplemented!() }
}
impl Semaphore { pub uninterp spec fn size(&self) -> usize; #[verifier::external_body] pub fn const_new(n: usize) -> (r: Semaphore) ensures r.size() == n { unimplemented!() } }
pub assume_specification<T> [ <Arc<T> as From<T>>::from ](t: T) -> (r: Arc<T>) ensures *r == t;
impl Bytes { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.ptr@.len() { unimplemented!() } }
pub open spec fn reserve(l: &Limiter, n: u32) -> Seq<Ev> { match l.global_memory_pool { None => Seq::empty(), Some(m) => seq![Ev::Reserve(*m.0, n)] } }
/// a permit for exactly so many bytes of the budget, if there is one
pub open spec fn permit_ok(l: &Limiter, n: u32, p: Option<AllocationPermit>) -> bool {
    match l.global_memory_pool { None => p is None, Some(m) => p matches Some(x) && x.0.held() == n && x.0.of() == *m.0 }
}
/// the trace of receiving one message
pub open spec fn got_frame(l: &Limiter, r: Option<Bytes>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::ReadLen(n) && match n {
        None => r is None && s.len() == 1,
        Some(n) => if n > MAX_MESSAGE_SIZE { r is None && s.len() == 1 } else {
            (s.last() matches Ev::ReadBody(k, b) && k == n && s =~= seq![Ev::ReadLen(Some(n))] + reserve(l, n) + seq![s.last()]
            && (r matches Some(x) ==> b == Some(x.ptr@) && exists|p: Option<AllocationPermit>| #[trigger] permit_ok(l, n, p) && attached(p, x._permit)))
        },
    })
}
pub open spec fn attached(p: Option<AllocationPermit>, q: Option<Arc<AllocationPermit>>) -> bool { match q { None => p is None, Some(a) => p == Some(*a) } }
/// the trace of sending one message
pub open spec fn put_frame(m: Seq<u8>, ok: bool, s: Seq<Ev>) -> bool {
    if m.len() > u32::MAX { !ok && s.len() == 0 }
    else { s.len() >= 1 && (s[0] matches Ev::WriteLen(n, a) && n == m.len() && ((!ok && s.len() == 1) || (a && s.len() == 2 && (s[1] matches Ev::WriteBody(x, b) && x == m && (ok ==> b))))) }
}
#end
#source cdn-proto/src/connection/limiter/pool.rs
#impl MemoryPool
#fn MemoryPool::new
@ret r
@params n
@prop C13
@spec
    ensures r.0.size() == n
#end
#fn MemoryPool::alloc
@effects
@ret r
@params n
@prop C13
@spec
    ensures r matches Ok(p) && p.0.held() == n && p.0.of() == *self.0, final(w).did(old(w), Ev::Reserve(*self.0, n))
#end
#impl Allocation
#fn Allocation::from
@ret r
@params value permit
@prop C13
@spec
    ensures *r.ptr == value, attached(permit, r._permit)
#end
#fn Allocation::from_unchecked
@ret r
@params value
@prop C13
@spec
    ensures *r.ptr == value, r._permit is None
#end
#source cdn-proto/src/connection/limiter/mod.rs
#impl Limiter
#fn Limiter::new
@ret r
@params global_memory_pool_size connection_message_pool_size
@prop C13
@spec
    ensures r.connection_message_pool_size == connection_message_pool_size,
        match global_memory_pool_size { None => r.global_memory_pool is None, Some(n) => r.global_memory_pool matches Some(m) && m.0.size() == n }
#end
#fn Limiter::none
@ret r
@prop C13
@spec
    ensures r.connection_message_pool_size is None, r.global_memory_pool is None
#end
#fn Limiter::allocate_message_bytes
@effects
@ret r
@params num_bytes
@prop C13
@spec
    ensures final(w).trace() =~= old(w).trace() + reserve(self, num_bytes), permit_ok(self, num_bytes, r)
#end
#fn Limiter::connection_message_pool_size
@ret r
@prop C13
@spec
    ensures r == self.connection_message_pool_size
#end
#source cdn-proto/src/connection/protocols/mod.rs
#freefn read_length_delimited
#fn read_length_delimited
@effects
@ret r
@params stream limiter
@local message_size 0
@prop C13
@spec
    ensures final(w).grew(old(w)), got_frame(limiter, vx_ok(r), final(w).since(old(w))),
        r matches Ok(x) ==> took_frame(old(stream).ahead(), x.ptr@.len() as u32, x.ptr@) && final(stream).ahead() == old(stream).ahead().skip(4 + x.ptr@.len() as int),
        r matches Ok(x) ==> x.ptr@.len() <= MAX_MESSAGE_SIZE
@begin
    broadcast use {vx_bytes, lemma_tail_push};
    let ghost vx_w0 = *w;
@after ^let permit =
    proof { assert(w.since(&vx_w0) =~= seq![Ev::ReadLen(Some(message_size))] + reserve(limiter, message_size)); assert(w.grew(&vx_w0)); }
    let ghost vx_p = permit;
#end
#freefn write_length_delimited
#fn write_length_delimited
@effects
@ret r
@params stream message
@prop C13
@spec
    ensures final(w).grew(old(w)), put_frame(message.ptr@, r is Ok, final(w).since(old(w))),
        message.ptr@.len() > u32::MAX ==> r is Err && final(stream).sent() == old(stream).sent(),
        ext(old(stream).sent(), final(stream).sent(), frame(message.ptr@)), r is Ok ==> final(stream).sent() == old(stream).sent() + frame(message.ptr@),
@begin
    broadcast use {vx_bytes, lemma_tail_push};
#end
