The tasks that carry a connection over its streams, and its handle (C26)
#include framing.vc assume
#source cdn-proto/src/message.rs
#item struct AuthenticateWithKey
#item struct AuthenticateWithPermit
#item struct AuthenticateResponse
#item struct Direct
#item struct Broadcast
#item enum Message
#raw
pub type Topic = u8;
pub uninterp spec fn decode(b: Seq<u8>) -> Option<Message>;
impl Message {
    #[verifier::external_body]
    pub fn deserialize(b: &Bytes) -> (r: Result<Message>) ensures vx_ok(r) == decode(b.ptr@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: Result<Vec<u8>>) ensures r matches Ok(v) ==> decode(v@) == Some(*self) { unimplemented!() }
}
// ---------- queues (async_channel) and answers (oneshot)
#[verifier::external_body]
pub struct Refused { x: () }
impl<T> Receiver<T> { pub uninterp spec fn cap(&self) -> Option<usize>; }
#[verifier::external_body]
pub fn unbounded<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id(), r.0.cap() is None, r.1.cap() is None { unimplemented!() }
#[verifier::external_body]
pub fn bounded<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id(), r.0.cap() == Some(n), r.1.cap() == Some(n) { unimplemented!() }
impl Receiver<BytesOrSoftClose> {
    #[verifier::external_body]
    pub fn recv(&self, Tracked(w): Tracked<&mut World>) -> (r: StdResult<BytesOrSoftClose, Refused>) ensures final(w).did(old(w), Ev::Took(self.id(), vx_ok(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w).did(old(w), Ev::Closed(self.id())) { unimplemented!() }
}
impl Receiver<Bytes> {
    #[verifier::external_body]
    pub fn recv(&self, Tracked(w): Tracked<&mut World>) -> (r: StdResult<Bytes, Refused>) ensures final(w).did(old(w), Ev::Got(self.id(), vx_ok(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w).did(old(w), Ev::Closed(self.id())) { unimplemented!() }
}
impl Sender<BytesOrSoftClose> {
    #[verifier::external_body]
    pub fn send(&self, m: BytesOrSoftClose, Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), Refused>) ensures final(w).did(old(w), Ev::Put(self.id(), m, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w).did(old(w), Ev::Closed(self.id())) { unimplemented!() }
}
impl Sender<Bytes> {
    #[verifier::external_body]
    pub fn send(&self, m: Bytes, Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), Refused>) ensures final(w).did(old(w), Ev::Gave(self.id(), m, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w).did(old(w), Ev::Closed(self.id())) { unimplemented!() }
}
pub trait VxAnswer { spec fn aid(&self) -> int; fn send(self, x: (), Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), ()>) ensures final(w).did(old(w), Ev::Ack(self.aid())); }
impl VxAnswer for oneshot::Sender<()> { open spec fn aid(&self) -> int { self.id() } #[verifier::external_body] fn send(self, x: (), Tracked(w): Tracked<&mut World>) -> (r: StdResult<(), ()>) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_await(r: oneshot::Receiver<()>, Tracked(w): Tracked<&mut World>) -> (x: StdResult<(), Refused>) ensures final(w).did(old(w), Ev::Answer(r.id(), x is Ok)) { unimplemented!() }
impl AbortHandle {
    #[verifier::external_body]
    pub fn abort(&self, Tracked(w): Tracked<&mut World>) ensures final(w).did(old(w), Ev::Abort(*self)) { unimplemented!() }
}
#[verifier::external_body]
pub struct JoinHandle { x: () }
impl JoinHandle {
    pub uninterp spec fn ah(&self) -> AbortHandle;
    #[verifier::external_body]
    pub fn abort_handle(&self) -> (r: AbortHandle) ensures r == self.ah() { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn_send_pump<W>(rx: Receiver<BytesOrSoftClose>, writer: W, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle) ensures final(w).did(old(w), Ev::SendPump(rx.id(), r.ah())) { unimplemented!() }
#[verifier::external_body]
pub fn spawn_recv_pump<R>(tx: Sender<Bytes>, reader: R, l: Limiter, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle) ensures final(w).did(old(w), Ev::RecvPump(tx.id(), l, r.ah())) { unimplemented!() }

// ---------- the two tasks
/// one message or one soft close taken from the queue and dealt with
pub open spec fn send_turn(ch: int, ended: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Took(c, item) && c == ch && match item {
        None => ended && s.len() == 1,
        Some(BytesOrSoftClose::Bytes(m)) => {
            let t = tail(s, 1);
            if !ended { t.len() == 3 && put_frame(m.ptr@, true, t.take(2)) && t[2] == Ev::Flush(true) }
            else {
                s.len() >= 2 && t.last() == Ev::Closed(ch)
                && (put_frame(m.ptr@, false, t.drop_last()) || (t.len() == 4 && put_frame(m.ptr@, true, t.take(2)) && t[2] == Ev::Flush(false)))
            }
        },
        Some(BytesOrSoftClose::SoftClose(a)) => !ended && s.len() == 3 && s[1] == Ev::Finish && s[2] == Ev::Ack(a.id()),
    })
}
/// one message taken from the stream and put into the queue
pub open spec fn recv_turn(ch: int, l: &Limiter, ended: bool, s: Seq<Ev>) -> bool {
    if !ended { s.len() >= 1 && (s.last() matches Ev::Gave(c, b, ok) && c == ch && ok && got_frame(l, Some(b), s.drop_last())) }
    else {
        got_frame(l, None, s)
        || (s.len() >= 2 && s.last() == Ev::Closed(ch) && (s[s.len() - 2] matches Ev::Gave(c, b, ok) && c == ch && !ok && got_frame(l, Some(b), s.take(s.len() - 2))))
    }
}
pub open spec fn has(s: Seq<Ev>, e: Ev) -> bool { s.contains(e) }
pub broadcast proof fn lemma_has(s: Seq<Ev>, n: nat, e: Ev, x: Ev)
    requires n <= s.len()
    ensures #[trigger] has(tail(s.push(e), n), x) == (has(tail(s, n), x) || x == e)
{
    let a = tail(s, n); let b = tail(s.push(e), n);
    assert(b =~= a.push(e));
    if has(a, x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
    assert(b[a.len() as int] == e);
    if has(b, x) && x != e { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i] == x); }
}
pub open spec fn queues(q: ((Sender<Bytes>, Receiver<Bytes>), (Sender<BytesOrSoftClose>, Receiver<BytesOrSoftClose>)), n: Option<usize>) -> bool {
    q.0.0.id() == q.0.1.id() && q.1.0.id() == q.1.1.id() && q.0.0.cap() == n && q.0.1.cap() == n && q.1.0.cap() == n && q.1.1.cap() == n
}
pub open spec fn both(x: int, y: int, l: &Limiter, a: AbortHandle, b: AbortHandle, s: Seq<Ev>) -> bool { s.contains(Ev::SendPump(x, a)) && s.contains(Ev::RecvPump(y, *l, b)) }
/// a fresh connection: its two queues are the tasks' queues, of the size the limiter asks for, and both tasks stop with it
pub open spec fn carried(l: &Limiter, c: &Connection, s: Seq<Ev>) -> bool {
    s.len() == 2 && exists|a: AbortHandle, b: AbortHandle| #[trigger] both(c.0.sender.id(), c.0.receiver.id(), l, a, b, s) && c.0.tasks@.contains(a) && c.0.tasks@.contains(b)
        && c.0.sender.cap() == l.connection_message_pool_size && c.0.receiver.cap() == l.connection_message_pool_size
}
pub open spec fn trig(its: Seq<Seq<Ev>>) -> bool { true }
pub open spec fn send_turns(ch: int, its: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < its.len() ==> send_turn(ch, false, #[trigger] its[i]) }
pub open spec fn recv_turns(ch: int, l: &Limiter, its: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < its.len() ==> recv_turn(ch, l, false, #[trigger] its[i]) }
pub open spec fn split(w0: Seq<Ev>, its: Seq<Seq<Ev>>, t: Seq<Ev>, w1: Seq<Ev>) -> bool { w1 =~= w0 + cat(its) + t }
pub open spec fn send_ran(ch: int, w0: Seq<Ev>, w1: Seq<Ev>) -> bool {
    exists|its: Seq<Seq<Ev>>, t: Seq<Ev>| #[trigger] split(w0, its, t, w1) && send_turns(ch, its) && send_turn(ch, true, t)
}
pub open spec fn recv_ran(ch: int, l: &Limiter, w0: Seq<Ev>, w1: Seq<Ev>) -> bool {
    exists|its: Seq<Seq<Ev>>, t: Seq<Ev>| #[trigger] split(w0, its, t, w1) && recv_turns(ch, l, its) && recv_turn(ch, l, true, t)
}
pub proof fn lemma_step(p: Seq<Ev>, e: Ev) ensures tail(p.push(e), p.len()) =~= seq![e], p.push(e) =~= p + seq![e] {}
/// what was done in two steps, taken apart again
pub proof fn lemma_steps(p: Seq<Ev>, a: Seq<Ev>, b: Seq<Ev>)
    requires p.len() < a.len() <= b.len(), a == p + tail(a, p.len()), b == a + tail(b, a.len())
    ensures tail(b, p.len()) == tail(a, p.len()) + tail(b, a.len()), b == p + tail(b, p.len()), tail(b, p.len())[0] == a[p.len() as int], a.len() == p.len() + 1 ==> tail(tail(b, p.len()), 1) == tail(b, a.len()),
{
    assert(tail(b, p.len()) =~= tail(a, p.len()) + tail(b, a.len()));
    assert(b =~= p + tail(b, p.len()));
    assert((tail(a, p.len()) + tail(b, a.len()))[0] == tail(a, p.len())[0]);
    if a.len() == p.len() + 1 { assert(tail(tail(b, p.len()), 1) =~= tail(b, a.len())); }
}
#end
#source cdn-proto/src/connection/protocols/mod.rs
#impl ConnectionRef trait=Drop header=impl~ConnectionRef
#fn ConnectionRef::drop
@effects
@prop C26
@spec
    ensures final(w).grew(old(w)), has(final(w).since(old(w)), Ev::Closed(old(self).sender.id())), has(final(w).since(old(w)), Ev::Closed(old(self).receiver.id())),
        forall|i: int| 0 <= i < old(self).tasks@.len() ==> has(final(w).since(old(w)), Ev::Abort(#[trigger] old(self).tasks@[i])),
@begin
    broadcast use lemma_has;
    let ghost vx_w0 = *w;
@loop 0
    invariant w.grew(&vx_w0), has(w.since(&vx_w0), Ev::Closed(self.sender.id())), has(w.since(&vx_w0), Ev::Closed(self.receiver.id())), forall|i: int| 0 <= i < $it.pos() ==> has(w.since(&vx_w0), Ev::Abort(#[trigger] self.tasks@[i])),
        self.sender == old(self).sender, self.receiver == old(self).receiver, self.tasks == old(self).tasks,
#end
#impl Connection skip=new_test
#fn Connection::from_streams
@effects
@ret r
@params writer reader limiter
@prop C26
@end
    proof {
        let s = w.since(old(w));
        broadcast use lemma_has;
        assert(forall|x: Ev| has(s, x) == s.contains(x));
        let a = match s[0] { Ev::SendPump(_, a) => a, Ev::RecvPump(_, _, a) => a, _ => arbitrary() };
        let b = match s[1] { Ev::SendPump(_, a) => a, Ev::RecvPump(_, _, a) => a, _ => arbitrary() };
        let (a, b) = if s[0] is SendPump { (a, b) } else { (b, a) };
        assert(vx_result.0.tasks@[0] == a || vx_result.0.tasks@[1] == a);
        assert(vx_result.0.tasks@[0] == b || vx_result.0.tasks@[1] == b);
        assert(both(vx_result.0.sender.id(), vx_result.0.receiver.id(), &limiter, a, b, s));
    }
@closure 0
 -> (vx_r: ((Sender<Bytes>, Receiver<Bytes>), (Sender<BytesOrSoftClose>, Receiver<BytesOrSoftClose>))) ensures queues(vx_r, None)
@closure 1
 -> (vx_r: ((Sender<Bytes>, Receiver<Bytes>), (Sender<BytesOrSoftClose>, Receiver<BytesOrSoftClose>))) ensures queues(vx_r, Some(size))
@spawn 0 send_pump(receive_from_caller, writer)
@spawn 1 recv_pump(send_to_caller, reader, limiter)
@spec
    ensures final(w).grew(old(w)), carried(&limiter, &r, final(w).since(old(w)))
#end
#fn Connection::send_pump
@effects
@prop C26
@sig
<W: AsyncWriteExt + Unpin + Send + SoftClose>(receive_from_caller: Receiver<BytesOrSoftClose>, mut writer: W)
@spec
    ensures send_ran(receive_from_caller.id(), old(w).trace(), final(w).trace())
@begin
    broadcast use lemma_tail_push;
    let ghost vx_t0 = w.trace();
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_p = w.trace();
    let ghost vx_ch = receive_from_caller.id();
    proof { assert(w.trace() =~= vx_t0 + cat(vx_its)); }
@loop 0
    invariant w.trace() == vx_p, vx_p == vx_t0 + cat(vx_its), send_turns(vx_ch, vx_its), vx_ch == receive_from_caller.id(),
@loopstart 0
    let ghost vx_m = message;
    let ghost vx_w1 = *w;
    proof { lemma_step(vx_p, Ev::Took(vx_ch, Some(vx_m))); }
@before ^return
    proof { lemma_steps(vx_p, vx_w1.trace(), w.trace()); assert(send_turn(vx_ch, true, tail(w.trace(), vx_p.len()))) by { broadcast use lemma_tail_push; } assert(split(vx_t0, vx_its, tail(w.trace(), vx_p.len()), w.trace())); }
@loopend 0
    proof {
        assert(w.trace() =~= vx_w1.trace() + tail(w.trace(), vx_w1.trace().len()));
        lemma_steps(vx_p, vx_w1.trace(), w.trace());
        let s = tail(w.trace(), vx_p.len());
        assert(send_turn(vx_ch, false, s));
        lemma_cat_push(vx_its, s);
        assert(w.trace() =~= vx_t0 + (cat(vx_its) + s));
        vx_its = vx_its.push(s);
        vx_p = w.trace();
    }
@end
    proof { let t = seq![Ev::Took(vx_ch, None)]; assert(split(vx_t0, vx_its, t, w.trace())); assert(send_turn(vx_ch, true, t)); }
#end
#fn Connection::recv_pump
@effects
@prop C26
@sig
<R: AsyncReadExt + Unpin + Send>(send_to_caller: Sender<Bytes>, mut reader: R, limiter: Limiter)
@spec
    ensures recv_ran(send_to_caller.id(), &limiter, old(w).trace(), final(w).trace())
@begin
    broadcast use lemma_tail_push;
    let ghost vx_t0 = w.trace();
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_p = w.trace();
    let ghost vx_ch = send_to_caller.id();
    proof { assert(w.trace() =~= vx_t0 + cat(vx_its)); }
@loop 0
    invariant vx_p == vx_t0 + cat(vx_its), recv_turns(vx_ch, &limiter, vx_its), vx_ch == send_to_caller.id(), w.trace() == vx_p,
@before ^return
    proof { let t = tail(w.trace(), vx_p.len()); assert(recv_turn(vx_ch, &limiter, true, t)); assert(w.trace() =~= vx_p + t); assert(split(vx_t0, vx_its, t, w.trace())); }
@before ^break
    proof { let t = tail(w.trace(), vx_p.len()); assert(recv_turn(vx_ch, &limiter, true, t)); assert(w.trace() =~= vx_p + t); assert(split(vx_t0, vx_its, t, w.trace())); }
@loopend 0
    proof {
        let s = tail(w.trace(), vx_p.len());
        assert(recv_turn(vx_ch, &limiter, false, s));
        lemma_cat_push(vx_its, s);
        assert(w.trace() =~= vx_t0 + (cat(vx_its) + s));
        vx_its = vx_its.push(s);
        vx_p = w.trace();
    }
#end
#fn Connection::send_message
@effects
@ret r
@params message
@prop C26
@spec
    ensures final(w).grew(old(w)), ({ let s = final(w).since(old(w));
        (r is Err && s.len() == 0) || (s.len() == 1 && (s[0] matches Ev::Put(c, BytesOrSoftClose::Bytes(b), ok) && c == self.0.sender.id() && ok == (r is Ok) && decode(b.ptr@) == Some(message))) })
#end
#fn Connection::send_message_raw
@effects
@ret r
@params raw_message
@prop C26
@spec
    ensures final(w).did(old(w), Ev::Put(self.0.sender.id(), BytesOrSoftClose::Bytes(raw_message), r is Ok))
#end
#fn Connection::recv_message
@effects
@ret r
@prop C26
@spec
    ensures final(w).grew(old(w)), ({ let s = final(w).since(old(w));
        s.len() == 1 && (s[0] matches Ev::Got(c, b) && c == self.0.receiver.id() && vx_ok(r) == (match b { None => None, Some(b) => decode(b.ptr@) })) })
#end
#fn Connection::recv_message_raw
@effects
@ret r
@prop C26
@spec
    ensures final(w).did(old(w), Ev::Got(self.0.receiver.id(), vx_ok(r)))
#end
#fn Connection::soft_close
@effects
@ret r
@prop C26
@spec
    ensures final(w).grew(old(w)), ({ let s = final(w).since(old(w));
        s.len() >= 1 && (s[0] matches Ev::Put(c, BytesOrSoftClose::SoftClose(a), ok) && c == self.0.sender.id() && if ok { s.len() == 2 && s[1] == Ev::Answer(a.id(), r is Ok) } else { r is Err && s.len() == 1 }) })
#end
