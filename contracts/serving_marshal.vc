The marshal's listener: every connection that arrives is served, each in a task of its own (C29)
#include auth_marshal.vc assume
#droppaths proto_metrics
#raw
impl Limiter { #[verifier::external_body] pub fn new(a: Option<usize>, b: Option<usize>) -> Limiter { unimplemented!() } }
pub open spec fn is_accept(e: Ev, l: int, u: int) -> bool { e matches Ev::Accept(x, Some(y)) && x == l && y == u }
pub open spec fn is_login(e: Ev, u: int, m: Limiter) -> bool { e matches Ev::Spawn(t, _) && t == Task::Login(u, m) }
/// nothing is done but accept, and for each connection accepted, at once, a task for it, within the shared memory limit
pub open spec fn serves(l: int, m: Limiter, s: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] {
        Ev::Accept(x, Some(u)) => x == l && i + 1 < s.len() && is_login(s[i + 1], u, m),
        Ev::Accept(x, None) => x == l,
        Ev::Spawn(Task::Login(u, k), _) => i > 0 && is_accept(s[i - 1], l, u) && k == m,
        _ => false,
    }
}
/// ... until the listener fails
pub open spec fn served(l: int, m: Limiter, s: Seq<Ev>) -> bool { serves(l, m, s) && s.len() > 0 && s.last() == Ev::Accept(l, None) }
/// one connection: set up, then handled
pub open spec fn arrived<R: RunDef>(u: int, m: Limiter, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Finalize(x, l, r) && x == u && l == m && match r { None => s.len() == 1, Some(c) => handled::<<R::User as ConnectionDef>::Scheme>(c, tail(s, 1)) })
}
#[verifier::external_body]
pub fn spawn_login<U: UnfinalizedT, D>(unfinalized_connection: U, limiter: Limiter, discovery_client: D, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Spawn(Task::Login(unfinalized_connection.uid(), limiter), r.ah())) { unimplemented!() }
pub broadcast proof fn lemma_first(w0: World, w1: World, w2: World, e: Ev)
    requires #[trigger] w1.did(&w0, e), w2.grew(&w1)
    ensures tail(w2.since(&w0), 1) == #[trigger] w2.since(&w1), w2.since(&w0).len() >= 1, w2.since(&w0)[0] == e, w2.grew(&w0)
{
    lemma_since(w0, w1, w2);
    assert(w1.since(&w0).len() == 1);
}
pub proof fn lemma_serves(l: int, m: Limiter, a: Seq<Ev>, b: Seq<Ev>, u: int)
    requires serves(l, m, a), b.len() == a.len() + 2, b.take(a.len() as int) == a, is_accept(b[a.len() as int], l, u), is_login(b[a.len() as int + 1], u, m)
    ensures serves(l, m, b)
{
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < b.len() implies match #[trigger] b[i] {
        Ev::Accept(x, Some(u)) => x == l && i + 1 < b.len() && is_login(b[i + 1], u, m),
        Ev::Accept(x, None) => x == l,
        Ev::Spawn(Task::Login(u, k), _) => i > 0 && is_accept(b[i - 1], l, u) && k == m,
        _ => false,
    } by {
        if i < n {
            assert(a[i] == b[i]);
            if i + 1 < n { assert(a[i + 1] == b[i + 1]); }
            if i > 0 { assert(a[i - 1] == b[i - 1]); }
        }
    }
}
#end
#source cdn-marshal/src/lib.rs
#impl Marshal only=start
#fn Marshal::start
@effects
@ret r
@diverges
@prop C29
@spawn 0 login(unfinalized_connection, limiter, discovery_client)
@spec
    ensures final(w).grew(old(w)), served(self.listener.lid(), self.limiter, final(w).since(old(w))), r is Err,
@begin
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@loop 0
    invariant w.grew(&vx_w0), serves(self.listener.lid(), self.limiter, w.since(&vx_w0)),
@loopstart 0
    let ghost vx_p = *w;
@loopend 0
    proof {
        let (a, b) = (vx_p.since(&vx_w0), w.since(&vx_w0));
        if b.len() == a.len() + 2 {
            let u = match b[a.len() as int] { Ev::Accept(_, Some(u)) => u, _ => arbitrary() };
            assert(b.take(a.len() as int) =~= a);
            lemma_serves(self.listener.lid(), self.limiter, a, b, u);
        }
    }
#end
#fn Marshal::login
@effects
@prop C29
@sig
(unfinalized_connection: <Protocol<R::User> as ProtocolType>::UnfinalizedConnection, limiter: Limiter, discovery_client: R::DiscoveryClientType)
@spec
    ensures final(w).grew(old(w)), arrived::<R>(unfinalized_connection.uid(), limiter, final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push, lemma_first;
#end
