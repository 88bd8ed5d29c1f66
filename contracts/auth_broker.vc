Broker-side authentication (C10, C11)
#include tasks_env.vc
#raw
/// permit 0 was sent, and nothing else happened
pub open spec fn refused(c: Connection, s: Seq<Ev>) -> bool {
    s.len() == 1 && (s[0] matches Ev::SendMsg(x, m, ok) && x == c && (m matches Message::AuthenticateResponse(a) && a.permit == 0))
}
/// at most one message to c
pub open spec fn at_most_a_reply(c: Connection, s: Seq<Ev>) -> bool {
    s.len() == 0 || (s.len() == 1 && (s[0] matches Ev::SendMsg(x, m, ok) && x == c))
}
/// permit 1 was sent
pub open spec fn welcomed(c: Connection, e: Ev) -> bool { e matches Ev::SendMsg(x, m, ok) && x == c && (m matches Message::AuthenticateResponse(a) && a.permit == 1) }
/// the login of a user at this broker
pub open spec fn user_verified<R: RunDef>(c: Connection, me: BrokerIdentifier, r: Option<(UserPublicKey, Vec<Topic>)>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::RecvMsg(x, m) && x == c && match m {
        Some(Message::AuthenticateWithPermit(p)) => s.len() >= 2 && (s[1] matches Ev::Validate(b, permit, v) && b == me && permit == p.permit && match v {
            Some(Some(key)) => s.len() >= 3 && welcomed(c, s[2]) && match <<R::User as ConnectionDef>::Scheme as SignatureScheme>::PublicKey::de(key) {
                None => r is None && at_most_a_reply(c, tail(s, 3)),
                Some(_) => s.len() >= 4 && (s[3] matches Ev::RecvMsg(y, n) && y == c && match n {
                    Some(Message::Subscribe(topics)) => s.len() == 4 && (r matches Some(u) && (*u.0)@ == key && u.1@ == topics@),
                    Some(_) => r is None && refused(c, tail(s, 4)),
                    None => r is None && s.len() == 4 }) },
            _ => r is None && refused(c, tail(s, 2)) }),
        Some(_) => r is None && refused(c, tail(s, 1)),
        None => r is None && s.len() == 1 })
}
/// proving to another broker who we are
pub open spec fn authed_with_broker<S: SignatureScheme>(c: Connection, kp: KeyPair<S>, r: Option<BrokerIdentifier>, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::Now(t) && match t {
        None => r is None && s.len() == 1,
        Some(t) => match (S::signs(kp.private_key, Namespace::BrokerBrokerAuth.domain(), le8(t)), kp.public_key.ser()) {
            (Some(sig), Some(pk)) => s.len() >= 2 && (s[1] matches Ev::SendMsg(x, m, ok) && x == c
                && (m matches Message::AuthenticateWithKey(a) && a.timestamp == t && a.public_key@ == pk && a.signature@ == sig)
                && if !ok { r is None && s.len() == 2 } else { s.len() == 3 && (s[2] matches Ev::RecvMsg(y, n) && y == c
                    && match n { Some(Message::AuthenticateResponse(z)) => if z.permit == 1 { parsed(z.context@, r) } else { r is None }, _ => r is None }) }),
            _ => r is None && s.len() == 1 } })
}
/// what makes a peer broker acceptable at time t
pub open spec fn genuine<S: SignatureScheme>(a: AuthenticateWithKey, ours: S::PublicKey) -> bool {
    S::PublicKey::de(a.public_key@) matches Some(k) && S::verifies(k, Namespace::BrokerBrokerAuth.domain(), le8(a.timestamp), a.signature@) && k == ours
}
pub open spec fn fresh(ts: u64, t: Option<u64>) -> bool { t matches Some(t) && ts <= t && t - ts <= 5 }
pub open spec fn broker_verified<S: SignatureScheme>(c: Connection, me: BrokerIdentifier, ours: S::PublicKey, good: bool, s: Seq<Ev>) -> bool {
    s.len() >= 1 && (s[0] matches Ev::RecvMsg(x, m) && x == c && match m {
        Some(Message::AuthenticateWithKey(a)) => {
            ||| !good && !genuine::<S>(a, ours) && refused(c, tail(s, 1))
            ||| s.len() == 3 && (s[1] matches Ev::Now(t) && good == (genuine::<S>(a, ours) && fresh(a.timestamp, t))
                && if good { welcomed(c, s[2]) && (s[2] matches Ev::SendMsg(_, Message::AuthenticateResponse(z), _) && z.context@ == ident_text(me)) } else { refused(c, tail(s, 2)) })
        },
        Some(_) => !good && refused(c, tail(s, 1)),
        None => !good && s.len() == 1 })
}
#end
#source cdn-proto/src/connection/auth/broker.rs
#item struct BrokerAuth
#impl BrokerAuth
#fn BrokerAuth::verify_user
@effects
@ret r
@params connection broker_identifier discovery_client
@prop C10
@spec
    ensures final(w).grew(old(w)), user_verified::<R>(*connection, *broker_identifier, vx_ok(r), final(w).since(old(w))),
#end
#fn BrokerAuth::authenticate_with_broker
@effects
@ret r
@params connection keypair
@prop C11
@spec
    ensures final(w).grew(old(w)), authed_with_broker(*connection, *keypair, vx_ok(r), final(w).since(old(w))),
#end
#fn BrokerAuth::verify_broker
@effects
@ret r
@params connection our_identifier our_public_key
@prop C11
@spec
    ensures final(w).grew(old(w)), broker_verified::<<R::Broker as ConnectionDef>::Scheme>(*connection, *our_identifier, *our_public_key, r is Ok, final(w).since(old(w))),
#end
