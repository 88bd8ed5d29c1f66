Client-side authentication (C12)
#include tasks_env.vc
#raw
/// the client's login at the marshal
pub open spec fn marshal_login<S: SignatureScheme>(c: Connection, kp: KeyPair<S>, r: Option<(String, u64)>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Now(t) && match t {
        None => r is None && s.len() == 1,
        Some(t) => match (S::signs(kp.private_key, Namespace::UserMarshalAuth.domain(), le8(t)), kp.public_key.ser()) {
            (Some(sig), Some(pk)) => s.len() >= 2 && (s[1] matches Ev::SendMsg(x, m, ok) && x == c
                && (m matches Message::AuthenticateWithKey(a) && a.timestamp == t && a.public_key@ == pk && a.signature@ == sig)
                && if !ok { r is None && s.len() == 2 } else { s.len() == 3 && (s[2] matches Ev::RecvMsg(y, n) && y == c
                    && match n { Some(Message::AuthenticateResponse(z)) => if z.permit > 1 { r matches Some(v) && v.0@ == z.context@ && v.1 == z.permit } else { r is None }, _ => r is None }) }),
            _ => r is None && s.len() == 1 } })
}
/// the client's login at a broker
pub open spec fn broker_login(c: Connection, permit: u64, topics: Set<Topic>, good: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::SendMsg(x, m, ok) && x == c && (m matches Message::AuthenticateWithPermit(p) && p.permit == permit)
        && if !ok { !good && s.len() == 1 } else { s.len() >= 2 && (s[1] matches Ev::RecvMsg(y, n) && y == c && match n {
            Some(Message::AuthenticateResponse(z)) => if z.permit != 1 { !good && s.len() == 2 } else {
                s.len() == 3 && (s[2] matches Ev::SendMsg(q, k, sent) && q == c && sent == good && (k matches Message::Subscribe(v) && v@.to_set() =~= topics && v@.no_duplicates())) },
            _ => !good && s.len() == 2 }) })
}
#end
#source cdn-proto/src/connection/auth/user.rs
#item struct UserAuth
#impl UserAuth
#fn UserAuth::authenticate_with_marshal
@effects
@ret r
@params connection keypair
@prop C12
@spec
    ensures final(w).grew(old(w)), marshal_login(*connection, *keypair, vx_ok(r), final(w).since(old(w))),
#end
#fn UserAuth::authenticate_with_broker
@effects
@ret r
@params connection permit subscribed_topics
@prop C12
@spec
    ensures final(w).grew(old(w)), broker_login(*connection, permit, subscribed_topics@, r is Ok, final(w).since(old(w))),
#end
