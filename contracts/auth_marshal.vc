Marshal-side authentication (C09)
#include tasks_env.vc
#raw
pub open spec fn refused(c: Connection, s: Seq<Ev>) -> bool {
    s.len() == 1 && (s[0] matches Ev::SendMsg(x, m, ok) && x == c && (m matches Message::AuthenticateResponse(a) && a.permit == 0))
}
/// what makes a user's first message acceptable, but for its age
pub open spec fn proven<S: SignatureScheme>(a: AuthenticateWithKey, k: S::PublicKey) -> bool {
    S::PublicKey::de(a.public_key@) == Some(k) && S::verifies(k, Namespace::UserMarshalAuth.domain(), le8(a.timestamp), a.signature@)
}
pub open spec fn fresh(ts: u64, t: Option<u64>) -> bool { t matches Some(t) && ts <= t && t - ts <= 5 }
/// no permit is given out in these events
pub open spec fn no_permit(s: Seq<Ev>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Issue) }
/// a turned-down login: nothing but questions to the clock and the discovery service, then permit 0
pub open spec fn turned_down<S: SignatureScheme>(c: Connection, a: AuthenticateWithKey, s: Seq<Ev>) -> bool {
    s.len() >= 1 && refused(c, tail(s, (s.len() - 1) as nat))
    && (forall|i: int| 0 <= i < s.len() - 1 ==> match #[trigger] s[i] { Ev::Now(_) | Ev::Whitelist(..) | Ev::Least(_) => true, Ev::Issue(_, _, p) => i == 3 && p is None, _ => false })
    // a permit is asked for only when every check passed
    && (s.len() >= 5 && s[3] is Issue ==> checked::<S>(a, s))
}
pub open spec fn checked<S: SignatureScheme>(a: AuthenticateWithKey, s: Seq<Ev>) -> bool {
    s.len() >= 4 && (s[0] matches Ev::Now(t) && fresh(a.timestamp, t)) && (S::PublicKey::de(a.public_key@) matches Some(k) && proven::<S>(a, k) && k.ser() is Some)
    && (s[1] matches Ev::Whitelist(_, Some(true))) && (s[2] matches Ev::Least(Some(_)))
}
/// the checks after the first message, when all of them passed
pub open spec fn granted<S: SignatureScheme>(c: Connection, a: AuthenticateWithKey, key: UserPublicKey, s: Seq<Ev>) -> bool {
    s.len() == 5
    && (s[0] matches Ev::Now(t) && fresh(a.timestamp, t))
    && (S::PublicKey::de(a.public_key@) matches Some(k) && proven::<S>(a, k) && k.ser() == Some((*key)@))
    && (s[1] matches Ev::Whitelist(u, ok) && u == key && ok == Some(true))
    && (s[2] matches Ev::Least(Some(b)) && (s[3] matches Ev::Issue(x, pk, Some(permit)) && x == b && pk == a.public_key@
        && (s[4] matches Ev::SendMsg(y, Message::AuthenticateResponse(z), _) && y == c && z.permit == permit && z.context@ == b.public_advertise_endpoint@)))
}
/// whether every check the events recorded has passed
pub open spec fn all_good<S: SignatureScheme>(a: AuthenticateWithKey, s: Seq<Ev>) -> bool {
    checked::<S>(a, s) && (s[3] matches Ev::Issue(_, _, Some(_)))
}
pub open spec fn login<S: SignatureScheme>(c: Connection, r: Option<UserPublicKey>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::RecvMsg(x, m) && x == c && match m {
        Some(Message::AuthenticateWithKey(a)) => match r {
            Some(key) => granted::<S>(c, a, key, tail(s, 1)),
            None => turned_down::<S>(c, a, tail(s, 1)) && !all_good::<S>(a, tail(s, 1)),
        },
        Some(_) => r is None && refused(c, tail(s, 1)),
        None => r is None && s.len() == 1 })
}
/// one connection at the marshal: login, time limit, close
pub open spec fn handled<S: SignatureScheme>(c: Connection, s: Seq<Ev>) -> bool {
    s.len() >= 2 && (s.last() matches Ev::SoftClose(x, _) && x == c) && s[s.len() - 2] is Limit
    && exists|r: Option<UserPublicKey>| #[trigger] login::<S>(c, r, s.subrange(0, s.len() - 2))
}
#end
#source cdn-proto/src/connection/auth/marshal.rs
#item struct MarshalAuth
#impl MarshalAuth
#fn MarshalAuth::verify_user
@effects
@ret r
@params connection discovery_client
@prop C09
@spec
    ensures final(w).grew(old(w)), login::<<R::User as ConnectionDef>::Scheme>(*connection, vx_ok(r), final(w).since(old(w))),
#end
#raw
pub struct SocketAddr {}
#end
#source cdn-marshal/src/lib.rs
#item struct Marshal noderive
#source cdn-marshal/src/handlers.rs
#impl Marshal
#fn Marshal::handle_connection
@effects
@params connection discovery_client
@prop C09
@spec
    ensures final(w).grew(old(w)), handled::<<R::User as ConnectionDef>::Scheme>(connection, final(w).since(old(w))),
@begin
    broadcast use lemma_tail_push;
@before soft_close
    let ghost vx_w1 = *w;
    proof { let s = w.since(old(w)); assert(s.last() is Limit); assert(exists|r: Option<UserPublicKey>| #[trigger] login::<<R::User as ConnectionDef>::Scheme>(connection, r, s.drop_last())); }
@end
    proof { assert(w.since(old(w)).subrange(0, w.since(old(w)).len() - 2) =~= vx_w1.since(old(w)).drop_last()); assert(w.since(old(w))[w.since(old(w)).len() - 2] == vx_w1.since(old(w)).last()); }
#end
