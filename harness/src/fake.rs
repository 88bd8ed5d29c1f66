//! Stand-ins for the outside world: a signature scheme, a discovery service, a network and a message hook that record
//! what is asked of them and answer as the case says.
use crate::connection::limiter::Limiter;
use crate::connection::protocols::{Connection, Listener, Protocol, UnfinalizedConnection};
use crate::connection::UserPublicKey;
use crate::crypto::signature::{KeyPair, Serializable, SignatureScheme};
use crate::def::{ConnectionDef, HookResult, MessageHookDef, RunDef, Topic};
use crate::discovery::{BrokerIdentifier, DiscoveryClient};
use crate::error::{Error, Result};
use crate::message::Message;
use crate::verif_conn::{self as conn, Far};
use async_trait::async_trait;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------- signatures
pub struct FakeScheme;
/// a public key; 250 does not serialize
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pk(pub u8);
/// what a signature over a message in a domain looks like
pub fn sig(key: u8, domain: &str, m: &[u8]) -> Vec<u8> { let mut v = vec![b'S', key]; v.extend_from_slice(domain.as_bytes()); v.push(0); v.extend_from_slice(m); v }
/// keys 200..240 are long ones
pub fn ser(key: u8) -> Vec<u8> { let mut v = vec![0xAA, key]; if (200..240).contains(&key) { v.resize(130, key); } v }
pub fn is_key(b: &[u8]) -> bool { b.len() >= 2 && b == ser(b[1]) }
pub const USER: &str = "espresso-cdn-user-marshal-auth";
pub const BROKER: &str = "espresso-cdn-broker-broker-auth";
impl Serializable for Pk {
    fn serialize(&self) -> anyhow::Result<Vec<u8>> { if self.0 == 250 { anyhow::bail!("no") } Ok(ser(self.0)) }
    fn deserialize(b: &[u8]) -> anyhow::Result<Self> { if is_key(b) { Ok(Pk(b[1])) } else { anyhow::bail!("not a key") } }
}
impl SignatureScheme for FakeScheme {
    /// 240 and above cannot sign
    type PrivateKey = u8;
    type PublicKey = Pk;
    fn sign(k: &u8, domain: &'static str, m: &[u8]) -> anyhow::Result<Vec<u8>> { if *k >= 240 { anyhow::bail!("no") } Ok(sig(*k, domain, m)) }
    fn verify(k: &Pk, domain: &'static str, m: &[u8], s: &[u8]) -> bool { s == sig(k.0, domain, m) }
}
pub fn keys(k: u8) -> KeyPair<FakeScheme> { KeyPair { public_key: Pk(k), private_key: k } }

// ---------- discovery
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call { Heartbeat(u64, Duration), Least, Others, Issue(Option<BrokerIdentifier>, Duration, Vec<u8>), Validate(Option<BrokerIdentifier>, u64), White(Vec<u8>), SetWhite }
#[derive(Clone, Debug)]
pub enum Answer<T> { Is(T), Fails, Never, Dies }
impl<T> Answer<T> {
    async fn give(self) -> Result<T> { match self { Answer::Is(x) => Ok(x), Answer::Fails => Err(Error::Connection("the service failed".into())), Answer::Never => std::future::pending().await, Answer::Dies => panic!("the caller dies") } }
}
#[derive(Default)]
pub struct Disc {
    pub log: Vec<Call>,
    pub white: BTreeMap<Vec<u8>, Answer<bool>>,
    pub least: Option<Answer<BrokerIdentifier>>,
    pub issue: Option<Answer<u64>>,
    pub validate: BTreeMap<u64, Answer<Option<Vec<u8>>>>,
    /// one answer per round; nothing left: never answers
    pub others: VecDeque<Answer<HashSet<BrokerIdentifier>>>,
    pub beats: VecDeque<Answer<()>>,
}
#[derive(Clone, Default)]
pub struct FakeDisc(pub Arc<Mutex<Disc>>);
impl FakeDisc {
    pub fn with<T>(&self, f: impl FnOnce(&mut Disc) -> T) -> T { f(&mut self.0.lock().unwrap()) }
    pub fn log(&self) -> Vec<Call> { self.with(|d| d.log.clone()) }
}
#[async_trait]
impl DiscoveryClient for FakeDisc {
    async fn new(_path: String, _identity: Option<BrokerIdentifier>) -> Result<Self> { Ok(FakeDisc::default()) }
    async fn perform_heartbeat(&mut self, n: u64, e: Duration) -> Result<()> {
        let a = self.with(|d| { d.log.push(Call::Heartbeat(n, e)); d.beats.pop_front().unwrap_or(Answer::Is(())) });
        tokio::task::yield_now().await;
        a.give().await
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        let a = self.with(|d| { d.log.push(Call::Least); d.least.clone().unwrap_or(Answer::Fails) });
        a.give().await
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        let a = self.with(|d| { d.log.push(Call::Others); d.others.pop_front().unwrap_or(Answer::Never) });
        tokio::task::yield_now().await;
        a.give().await
    }
    async fn issue_permit(&mut self, #[cfg(not(feature = "global-permits"))] b: &BrokerIdentifier, e: Duration, k: Vec<u8>) -> Result<u64> {
        #[cfg(not(feature = "global-permits"))]
        let b = Some(b.clone());
        #[cfg(feature = "global-permits")]
        let b = None;
        let a = self.with(|d| { d.log.push(Call::Issue(b, e, k)); d.issue.clone().unwrap_or(Answer::Fails) });
        a.give().await
    }
    async fn validate_permit(&mut self, #[cfg(not(feature = "global-permits"))] b: &BrokerIdentifier, p: u64) -> Result<Option<Vec<u8>>> {
        #[cfg(not(feature = "global-permits"))]
        let b = Some(b.clone());
        #[cfg(feature = "global-permits")]
        let b = None;
        // redeeming takes the permit
        let a = self.with(|d| { d.log.push(Call::Validate(b, p)); d.validate.remove(&p).unwrap_or(Answer::Is(None)) });
        a.give().await
    }
    async fn set_whitelist(&mut self, _u: Vec<UserPublicKey>) -> Result<()> { self.with(|d| d.log.push(Call::SetWhite)); Ok(()) }
    async fn check_whitelist(&mut self, u: &UserPublicKey) -> Result<bool> {
        let a = self.with(|d| { d.log.push(Call::White(u.to_vec())); d.white.get(&**u).cloned().unwrap_or(Answer::Is(true)) });
        a.give().await
    }
}

// ---------- the network: what a dial of an endpoint leads to, in order (nothing left: refused)
pub enum Dial { Refuse, Hang, Give(Connection) }
thread_local! {
    static NET: RefCell<(BTreeMap<String, VecDeque<Dial>>, Vec<String>)> = RefCell::new(Default::default());
}
pub fn net_clear() { NET.with(|n| *n.borrow_mut() = Default::default()); }
pub fn net_dials() -> Vec<String> { NET.with(|n| n.borrow().1.clone()) }
pub fn net_put(e: &str, d: Dial) { NET.with(|n| n.borrow_mut().0.entry(e.into()).or_default().push_back(d)); }
pub fn net_pair(e: &str) -> Far { let (c, f) = conn::pair(); net_put(e, Dial::Give(c)); f }
pub struct FakeProto;
/// what setting up a connection that arrived leads to
pub enum Setup { Give(Connection), Fail, Hang, Slow(u64, Connection), Panic }
/// where connections arrive: what comes next at the listener (None: its accept fails), and the limiters connections were set up with
#[derive(Clone)]
pub struct Door { queue: async_channel::Sender<Option<Setup>>, pub limiters: Arc<Mutex<Vec<Limiter>>> }
impl Door {
    pub fn arrive(&self, s: Setup) { let _ = self.queue.try_send(Some(s)); }
    pub fn fail(&self) { let _ = self.queue.try_send(None); }
}
pub fn door() -> (Door, FakeListener) {
    let (queue, q) = async_channel::unbounded();
    let limiters = Arc::new(Mutex::new(vec![]));
    (Door { queue: queue.clone(), limiters: limiters.clone() }, FakeListener(q, queue, limiters))
}
pub struct FakeArrived(Setup, Arc<Mutex<Vec<Limiter>>>);
pub struct FakeListener(async_channel::Receiver<Option<Setup>>, async_channel::Sender<Option<Setup>>, Arc<Mutex<Vec<Limiter>>>);
#[async_trait]
impl UnfinalizedConnection for FakeArrived {
    async fn finalize(self, l: Limiter) -> Result<Connection> {
        self.1.lock().unwrap().push(l);
        match self.0 {
            Setup::Give(c) => Ok(c),
            Setup::Fail => Err(Error::Connection("the set-up failed".into())),
            Setup::Hang => std::future::pending().await,
            Setup::Slow(s, c) => { tokio::time::sleep(Duration::from_secs(s)).await; Ok(c) }
            Setup::Panic => panic!("the set-up panicked"),
        }
    }
}
#[async_trait]
impl Listener<FakeArrived> for FakeListener {
    async fn accept(&self) -> Result<FakeArrived> {
        match self.0.recv().await { Ok(Some(s)) => Ok(FakeArrived(s, self.2.clone())), Ok(None) => { tokio::task::yield_now().await; Err(Error::Connection("accept failed".into())) } Err(_) => std::future::pending().await }
    }
}
#[async_trait]
impl Protocol for FakeProto {
    type UnfinalizedConnection = FakeArrived;
    type Listener = FakeListener;
    async fn connect(e: &str, _local: bool, _l: Limiter) -> Result<Connection> {
        let d = NET.with(|n| { let mut n = n.borrow_mut(); n.1.push(e.to_string()); n.0.get_mut(e).and_then(|q| q.pop_front()).unwrap_or(Dial::Refuse) });
        match d { Dial::Refuse => Err(Error::Connection("refused".into())), Dial::Hang => std::future::pending().await, Dial::Give(c) => Ok(c) }
    }
    async fn bind(_e: &str, _c: CertificateDer<'static>, _k: PrivateKeyDer<'static>) -> Result<FakeListener> { Ok(door().1) }
}

// ---------- the hook: verdicts by turn (then: process), what it saw, and which session asked
#[derive(Clone, Debug)]
pub enum Verdict { Process, Skip, Fail, Replace(Message) }
#[derive(Default)]
pub struct HookState { pub verdicts: VecDeque<Verdict>, pub seen: Vec<Message>, pub ids: Vec<u64>, pub who: Vec<(Option<u64>, usize)> }
/// shared: what all clones saw and are to say; own: what this one was told it is, and how many messages it saw
#[derive(Clone, Default)]
pub struct FakeHook(pub Arc<Mutex<HookState>>, pub Option<u64>, pub usize);
impl MessageHookDef for FakeHook {
    fn on_message_received(&mut self, m: &mut Message) -> anyhow::Result<HookResult> {
        let mut s = self.0.lock().unwrap();
        s.seen.push(m.clone());
        s.who.push((self.1, self.2));
        self.2 += 1;
        match s.verdicts.pop_front().unwrap_or(Verdict::Process) {
            Verdict::Process => Ok(HookResult::ProcessMessage),
            Verdict::Skip => Ok(HookResult::SkipMessage),
            Verdict::Fail => anyhow::bail!("the hook says no"),
            Verdict::Replace(n) => { *m = n; Ok(HookResult::ProcessMessage) }
        }
    }
    fn set_identifier(&mut self, i: u64) { self.1 = Some(i); self.0.lock().unwrap().ids.push(i); }
}

// ---------- topics and the whole deployment
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FakeTopic(u8);
pub fn valid(t: u8) -> bool { matches!(t, 0 | 1 | 2 | 3 | 5 | 20..=200) }
impl From<FakeTopic> for u8 { fn from(t: FakeTopic) -> u8 { t.0 } }
impl TryFrom<u8> for FakeTopic { type Error = (); fn try_from(t: u8) -> std::result::Result<Self, ()> { if valid(t) { Ok(FakeTopic(t)) } else { Err(()) } } }
impl Topic for FakeTopic {}
#[derive(Clone)]
pub struct FakeConn;
impl ConnectionDef for FakeConn { type Scheme = FakeScheme; type Protocol = FakeProto; type MessageHook = FakeHook; }
pub struct FakeRun;
impl RunDef for FakeRun { type Broker = FakeConn; type User = FakeConn; type DiscoveryClientType = FakeDisc; type Topic = FakeTopic; }
pub fn broker_id(n: usize) -> BrokerIdentifier { BrokerIdentifier { public_advertise_endpoint: format!("pub{n}:17"), private_advertise_endpoint: format!("priv{n}:18") } }
/// the message a connection's far end got, decoded
pub fn msg(b: &[u8]) -> std::result::Result<Message, String> { Message::deserialize(b).map_err(|e| format!("undecodable bytes were sent: {e}")) }
