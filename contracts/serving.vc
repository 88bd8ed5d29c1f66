The listeners: every connection that arrives is served, each in a task of its own (C29)
#include session.vc assume
#raw
impl Limiter { #[verifier::external_body] pub fn new(a: Option<usize>, b: Option<usize>) -> Limiter { unimplemented!() } }
pub open spec fn is_accept(e: Ev, l: int, u: int) -> bool { e matches Ev::Accept(x, Some(y)) && x == l && y == u }
pub open spec fn is_admit(e: Ev, u: int) -> bool { e matches Ev::Spawn(t, _) && t == Task::Admit(u) }
/// nothing is done but accept, and for each connection accepted, at once, a task for it
pub open spec fn serves(l: int, s: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        Ev::Accept(x, Some(u)) => x == l && i + 1 < s.len() && is_admit(s[i + 1], u),
        Ev::Accept(x, None) => x == l,
        Ev::Spawn(Task::Admit(u), _) => i > 0 && is_accept(s[i - 1], l, u),
        _ => false,
    }
}
/// ... until the listener fails
pub open spec fn served(l: int, s: Seq<Ev>) -> bool { serves(l, s) && s.len() > 0 && s.last() == Ev::Accept(l, None) }
/// one connection: set up within the shared memory limit, then admitted, by nobody else's leave
pub open spec fn user_arrived<R: RunDef>(i: &Inner<R>, u: int, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Finalize(x, l, r) && x == u && l == i.limiter && match r { None => s.len() == 1, Some(c) => user_admission::<R>(i.identity, c, tail(s, 1)) })
}
pub open spec fn broker_arrived<R: RunDef>(i: &Inner<R>, u: int, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Finalize(x, l, r) && x == u && l == i.limiter && match r { None => s.len() == 1, Some(c) => broker_admission::<R>(i, c, false, tail(s, 1)) })
}
#[verifier::external_body]
pub fn spawn_admit_user<Def: RunDef>(unfinalized_connection: <Protocol<Def::User> as ProtocolType>::UnfinalizedConnection, inner: Arc<Inner<Def>>, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Spawn(Task::Admit(unfinalized_connection.uid()), r.ah())) { unimplemented!() }
#[verifier::external_body]
pub fn spawn_admit_broker<Def: RunDef>(unfinalized_connection: <Protocol<Def::Broker> as ProtocolType>::UnfinalizedConnection, inner: Arc<Inner<Def>>, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Spawn(Task::Admit(unfinalized_connection.uid()), r.ah())) { unimplemented!() }
pub broadcast proof fn lemma_first(w0: World, w1: World, w2: World, e: Ev)
    requires #[trigger] w1.did(&w0, e), w2.grew(&w1)
    ensures tail(w2.since(&w0), 1) == #[trigger] w2.since(&w1), w2.since(&w0).len() >= 1, w2.since(&w0)[0] == e, w2.grew(&w0)
{
    lemma_since(w0, w1, w2);
    assert(w1.since(&w0).len() == 1);
}
pub proof fn lemma_serves(l: int, a: Seq<Ev>, b: Seq<Ev>, u: int)
    requires serves(l, a), b.len() == a.len() + 2, b.take(a.len() as int) == a, is_accept(b[a.len() as int], l, u), is_admit(b[a.len() as int + 1], u)
    ensures serves(l, b)
{
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < b.len() implies match #[trigger] b[i] {
        Ev::Accept(x, Some(u)) => x == l && i + 1 < b.len() && is_admit(b[i + 1], u),
        Ev::Accept(x, None) => x == l,
        Ev::Spawn(Task::Admit(u), _) => i > 0 && is_accept(b[i - 1], l, u),
        _ => false,
    } by {
        if i < n {
            assert(a[i] == b[i]);
            if i + 1 < n { assert(a[i + 1] == b[i + 1]); }
            if i > 0 { assert(a[i - 1] == b[i - 1]); }
        }
    }
}
#end
#source cdn-broker/src/tasks/user/listener.rs
#impl Inner
#fn Inner::run_user_listener_task
@effects
@params listener
@diverges
@prop C29
@spawn 0 admit_user(unfinalized_connection, inner)
@spec
    ensures final(w).grew(old(w)), served(listener.lid(), final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@loop 0
    invariant w.grew(&vx_w0), serves(listener.lid(), w.since(&vx_w0)),
@loopstart 0
    let ghost vx_p = *w;
@loopend 0
    proof {
        let (a, b) = (vx_p.since(&vx_w0), w.since(&vx_w0));
        if b.len() == a.len() + 2 {
            let u = match b[a.len() as int] { Ev::Accept(_, Some(u)) => u, _ => arbitrary() };
            assert(b.take(a.len() as int) =~= a);
            lemma_serves(listener.lid(), a, b, u);
        }
    }
#end
#fn Inner::admit_user
@effects
@prop C29
@sig
(unfinalized_connection: <Protocol<Def::User> as ProtocolType>::UnfinalizedConnection, inner: Arc<Self>)
@spec
    ensures final(w).grew(old(w)), user_arrived::<Def>(&*inner, unfinalized_connection.uid(), final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push, lemma_first;
#end
#source cdn-broker/src/tasks/broker/listener.rs
#impl Inner
#fn Inner::run_broker_listener_task
@effects
@params listener
@diverges
@prop C29
@spawn 0 admit_broker(unfinalized_connection, inner)
@spec
    ensures final(w).grew(old(w)), served(listener.lid(), final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@loop 0
    invariant w.grew(&vx_w0), serves(listener.lid(), w.since(&vx_w0)),
@loopstart 0
    let ghost vx_p = *w;
@loopend 0
    proof {
        let (a, b) = (vx_p.since(&vx_w0), w.since(&vx_w0));
        if b.len() == a.len() + 2 {
            let u = match b[a.len() as int] { Ev::Accept(_, Some(u)) => u, _ => arbitrary() };
            assert(b.take(a.len() as int) =~= a);
            lemma_serves(listener.lid(), a, b, u);
        }
    }
#end
#fn Inner::admit_broker
@effects
@prop C29
@sig
(unfinalized_connection: <Protocol<Def::Broker> as ProtocolType>::UnfinalizedConnection, inner: Arc<Self>)
@spec
    ensures final(w).grew(old(w)), broker_arrived::<Def>(&*inner, unfinalized_connection.uid(), final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push, lemma_first;
#end
