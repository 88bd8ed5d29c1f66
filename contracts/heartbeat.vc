The heartbeat: who is dialled (C18)
#feature strong-consistency
#include session.vc assume
#raw
/// the brokers this one dials: registered, not connected, and not smaller than itself
pub open spec fn to_dial<R: RunDef>(i: &Inner<R>, others: Set<BrokerIdentifier>, c: &Connections, ps: Seq<BrokerIdentifier>) -> bool {
    ps.no_duplicates() && (forall|b: BrokerIdentifier| #[trigger] ps.contains(b) <==> others.contains(b) && !c.brokers@.contains_key(b) && not_less(b, i.identity))
}
pub open spec fn not_less(a: BrokerIdentifier, b: BrokerIdentifier) -> bool { vx_ge(a, b) }
pub open spec fn dials(ps: Seq<BrokerIdentifier>, s: Seq<Ev>) -> bool {
    s.len() == ps.len() && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] s[i] matches Ev::Spawn(t, _) && t == Task::Dial(ps[i].private_advertise_endpoint)))
}
pub open spec fn beat<R: RunDef>(i: &Inner<R>, s: Seq<Ev>) -> bool {
    s.len() >= 5 && (s[0] matches Ev::Read(c) && (s[1] matches Ev::Heartbeat(n, _) && n == c.users@.dom().len())) && s[2] is Limit
        && (s[3] matches Ev::Others(o) && (s[4] matches Ev::Limit(_, in_time) && match o {
            Some(o) => if in_time { s.len() >= 7 && s.last() is Sleep && (s[5] matches Ev::Read(c2) && exists|ps: Seq<BrokerIdentifier>| #[trigger] to_dial(i, o, &c2, ps) && dials(ps, s.subrange(6, s.len() - 1))) } else { s.len() == 5 },
            None => s.len() == 5,
        }))
}
pub open spec fn beats<R: RunDef>(i: &Inner<R>, ss: Seq<Seq<Ev>>) -> bool { forall|k: int| 0 <= k < ss.len() ==> beat(i, #[trigger] ss[k]) }
/// a dialled broker: connected to at the endpoint, then admitted as one we dialled
pub open spec fn dialled<R: RunDef>(i: &Inner<R>, e: String, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Connect(x, r) && x == e && match r { None => s.len() == 1, Some(c) => broker_admission(i, c, true, tail(s, 1)) })
}
#[verifier::external_body]
pub fn spawn_dial<Def: RunDef>(inner: Arc<Inner<Def>>, to_connect_endpoint: String, Tracked(w): Tracked<&mut World>) -> (r: JoinHandle)
    ensures final(w).did(old(w), Ev::Spawn(Task::Dial(to_connect_endpoint), r.ah())) { unimplemented!() }
/// a random order
#[verifier::external_body]
pub struct StdRng { x: () }
impl StdRng { #[verifier::external_body] pub fn from_entropy() -> StdRng { unimplemented!() } }
pub trait VxShuffle { spec fn shuffled(&self, o: &Self) -> bool; fn shuffle(&mut self, r: &mut StdRng) ensures final(self).shuffled(old(self)); }
impl<T> VxShuffle for Vec<T> { open spec fn shuffled(&self, o: &Self) -> bool { self@.len() == o@.len() && self@.to_multiset() == o@.to_multiset() && (forall|x: T| #[trigger] self@.contains(x) <==> o@.contains(x)) && (o@.no_duplicates() ==> self@.no_duplicates()) }
    #[verifier::external_body] fn shuffle(&mut self, r: &mut StdRng) { unimplemented!() } }
#end
#source cdn-broker/src/tasks/broker/heartbeat.rs
#impl Inner
#fn Inner::run_heartbeat_task
@effects
@diverges
@prop C18
@spawn 0 dial(inner, to_connect_endpoint)
@begin
    broadcast use {lemma_tail_push, ax_ord_ref};
    let ghost vx_w0 = *w;
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    let ghost mut vx_p = *w;
    let ghost mut vx_first = true;
    proof { assert(w.since(&vx_w0) =~= cat(vx_its)); }
@loop 0
    invariant
        vx_p.grew(&vx_w0), vx_p.since(&vx_w0) == cat(vx_its), beats(&*self, vx_its),
        vx_first ==> w.trace() == vx_p.trace(),
        !vx_first ==> w.grew(&vx_p) && beat(&*self, w.since(&vx_p)),
@loopstart 0
    proof {
        if !vx_first {
            let s = w.since(&vx_p);
            lemma_cat_push(vx_its, s);
            assert(w.since(&vx_w0) =~= cat(vx_its) + s);
            vx_its = vx_its.push(s);
        }
        vx_p = *w;
        vx_first = false;
    }
@after ^brokers_to_connect_to.shuffle
    let ghost vx_w2 = *w;
    let ghost vx_o = other_brokers@;
    let ghost vx_c = match w.since(&vx_p)[5] { Ev::Read(c) => c, _ => arbitrary() };
    let ghost vx_ps = brokers_to_connect_to@;
    proof {
        assert(w.since(&vx_p).len() == 6);
        assert(to_dial(&*self, vx_o, &vx_c, vx_ps));
    }
@loop 1
    invariant w.grew(&vx_w2), vx_w2.grew(&vx_p), w.since(&vx_w2).len() == $it.pos(),
        forall|i: int| 0 <= i < $it.pos() ==> (#[trigger] w.since(&vx_w2)[i] matches Ev::Spawn(t, _) && t == Task::Dial(vx_ps[i].private_advertise_endpoint)),
@afterloop 1
    proof {
        assert(dials(vx_ps, w.since(&vx_w2)));
        let s = w.since(&vx_p);
        assert(s.subrange(6, s.len() as int) =~= w.since(&vx_w2));
    }
    let ghost vx_w3 = *w;
@nocontinue 0
@loopend 0
    proof {
        let s = w.since(&vx_p);
        assert(s.subrange(6, s.len() - 1) =~= vx_w3.since(&vx_w2));
        assert(s.subrange(0, 6) =~= vx_w2.since(&vx_p));
        assert(forall|i: int| 0 <= i < 6 ==> s[i] == s.subrange(0, 6)[i]);
        assert(s.last() is Sleep);
        assert(match s[5] { Ev::Read(c) => c == vx_c, _ => false });
        assert(match s[3] { Ev::Others(Some(o)) => o == vx_o, _ => false });
        assert(match s[4] { Ev::Limit(_, t) => t, _ => false });
        assert(dials(vx_ps, s.subrange(6, s.len() - 1)));
    }
#end
#fn Inner::dial
@effects
@prop C18
@sig
(inner: Arc<Self>, to_connect_endpoint: String)
@spec
    ensures final(w).grew(old(w)), dialled::<Def>(&*inner, to_connect_endpoint, final(w).since(old(w))),
@begin
    hide(broker_admission);
    broadcast use lemma_tail_push;
    let ghost vx_w0 = *w;
@after ^let connection =
    let ghost vx_w1 = *w;
@end
    proof {
        assert(tail(w.since(&vx_w0), 1) =~= w.since(&vx_w1));
        assert(w.since(&vx_w0)[0] == vx_w1.since(&vx_w0)[0]);
    }
#end
