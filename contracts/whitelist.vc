The whitelist sweep (C19)
#include tasks_env.vc
#raw
/// user u was asked about, and leaves if the answer is no
pub open spec fn swept(u: UserPublicKey, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Whitelist(x, a) && x == u
        && if a == Some(false) { s.len() == 2 && (s[1] matches Ev::Write(p, q) && q.inv() && q.user_removed(&p, u)) } else { s.len() == 1 })
}
pub open spec fn sweeps(us: Seq<UserPublicKey>, parts: Seq<Seq<Ev>>) -> bool { parts.len() == us.len() && (forall|i: int| 0 <= i < us.len() ==> swept(us[i], #[trigger] parts[i])) }
pub open spec fn users_of(c: &Connections, us: Seq<UserPublicKey>) -> bool { us.no_duplicates() && (forall|u: UserPublicKey| #[trigger] us.contains(u) <==> c.has_user(u)) }
pub open spec fn sweep_round(s: Seq<Ev>) -> bool {
    s.len() >= 2 && s[0] is Sleep && (s[1] matches Ev::Read(c)
        && exists|us: Seq<UserPublicKey>, parts: Seq<Seq<Ev>>| #[trigger] users_of(&c, us) && #[trigger] sweeps(us, parts) && tail(s, 2) == cat(parts))
}
pub open spec fn sweep_rounds(ss: Seq<Seq<Ev>>) -> bool { forall|i: int| 0 <= i < ss.len() ==> sweep_round(#[trigger] ss[i]) }
#end
#source cdn-broker/src/tasks/broker/whitelist.rs
#impl Inner
#fn Inner::run_whitelist_task
@effects
@diverges
@prop C19
@begin
    let ghost vx_w0 = *w;
    let ghost mut vx_its = Seq::<Seq<Ev>>::empty();
    proof { assert(w.since(&vx_w0) =~= cat(vx_its)); }
@loop 0
    invariant w.grew(&vx_w0), w.since(&vx_w0) == cat(vx_its), sweep_rounds(vx_its),
@loopstart 0
    let ghost vx_w1 = *w;
@beforeloop 1
    let ghost vx_w2 = *w;
    let ghost mut vx_parts = Seq::<Seq<Ev>>::empty();
    proof { assert(w.since(&vx_w2) =~= cat(vx_parts)); }
@loop 1
    invariant
        forall|i: int| 0 <= i < $it.pos() ==> swept($it.all()[i], #[trigger] vx_parts[i]),
        vx_parts.len() == $it.pos(), w.grew(&vx_w2), w.since(&vx_w2) == cat(vx_parts),
@loopstart 1
    let ghost vx_w3 = *w;
@loopend 1
    proof {
        lemma_cat_push(vx_parts, w.since(&vx_w3));
        assert(w.since(&vx_w2) =~= cat(vx_parts) + w.since(&vx_w3));
        vx_parts = vx_parts.push(w.since(&vx_w3));
    }
@afterloop 1
    proof {
        let s = w.since(&vx_w1);
        let us = $it1.all();
        let c = match s[1] { Ev::Read(c) => c, _ => arbitrary() };
        assert(vx_w2.since(&vx_w1).len() == 2 && s[0] == vx_w2.since(&vx_w1)[0] && s[1] == vx_w2.since(&vx_w1)[1]);
        assert(users_of(&c, us));
        assert(sweeps(us, vx_parts));
        assert(tail(s, 2) =~= w.since(&vx_w2));
        assert(sweep_round(s));
        lemma_cat_push(vx_its, s);
        assert(w.since(&vx_w0) =~= cat(vx_its) + s);
        vx_its = vx_its.push(s);
    }
#end
