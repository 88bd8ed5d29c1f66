The discovery store in Redis: permits, registered brokers, the whitelist (C24, C27, C28)
#include ident.vc
#format
#builder arg cmd atomic
#rename try_into=vx_try_into as_ref=vx_as_ref
#effects query_async
#source cdn-proto/src/connection/mod.rs
#item type UserPublicKey
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier
#raw
pub broadcast axiom fn ax_str(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b;

// ---------- texts, bytes and numbers
pub type Bs = Seq<u8>;
pub uninterp spec fn utf8(s: Seq<char>) -> Bs;
pub uninterp spec fn un8(b: Bs) -> Seq<char>;
pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures un8(#[trigger] utf8(s)) == s;
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn undigit(c: char) -> nat { if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else { 9 } }
/// a number's decimal text
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { Seq::empty().push(digit(n)) } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn undec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { undec(s.drop_last()) * 10 + undigit(s.last()) } }
pub broadcast proof fn lemma_dec(n: nat)
    ensures undec(#[trigger] dec(n)) == n, dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> dec(n)[i] != '/', dec(n).last() == digit(n % 10)
    decreases n
{
    if n < 10 { let e = Seq::<char>::empty(); assert(e.push(digit(n)).drop_last() =~= e); assert(undec(e) == 0); assert(e.push(digit(n)).last() == digit(n)); }
    else { lemma_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(n).last() == digit(n % 10)); }
}
impl VxToString for u64 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for u32 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: VxToString + ?Sized> VxToString for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_cat_lit(a: String, l: &str) -> (r: String) ensures r@ == a@ + l@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat<T: VxToString + ?Sized>(a: String, x: &T) -> (r: String) ensures r@ == a@ + x.text() { unimplemented!() }

// ---------- what the server holds
pub ghost enum Ent {
    /// a value, and when it is forgotten
    Str(Bs, Option<int>),
    /// members, and when each is forgotten
    Set(Map<Bs, Option<int>>),
}
pub type Db = Map<Bs, Ent>;
pub type Cm = Seq<Bs>;
pub spec const NANO: int = 1_000_000_000;
pub open spec fn good(u: Option<int>, t: int) -> bool { u matches Some(x) ==> t < x }
/// the value at k that is still good at t
pub open spec fn value(d: Db, k: Bs, t: int) -> Option<Bs> { if d.contains_key(k) && d[k] is Str && good(d[k]->Str_1, t) { Some(d[k]->Str_0) } else { None } }
pub open spec fn members_of(d: Db, k: Bs) -> Map<Bs, Option<int>> { if d.contains_key(k) && d[k] is Set { d[k]->Set_0 } else { Map::empty() } }
pub open spec fn member(d: Db, k: Bs, m: Bs, t: int) -> bool { members_of(d, k).contains_key(m) && good(members_of(d, k)[m], t) }
pub open spec fn members(d: Db, k: Bs, t: int) -> Set<Bs> { members_of(d, k).dom().filter(|m: Bs| member(d, k, m, t)) }
pub broadcast proof fn lemma_members(d: Db, k: Bs, t: int)
    ensures #![trigger members(d, k, t).len()] (members(d, k, t).len() == 0) == (forall|m: Bs| !#[trigger] member(d, k, m, t))
{
    let h = members(d, k, t);
    if h.len() == 0 { assert(h =~= Set::<Bs>::empty()); assert forall|m: Bs| !#[trigger] member(d, k, m, t) by { assert(!h.contains(m)); } }
    if forall|m: Bs| !#[trigger] member(d, k, m, t) { assert(h =~= Set::<Bs>::empty()); }
}
/// a value where a set is asked for
pub open spec fn clash(d: Db, k: Bs, t: int) -> bool { value(d, k, t) is Some }

// ---------- commands
pub ghost enum Nm { Set, GetDel, Get, SAdd, SRem, ExpireMember, SMembers, SCard, SIsMember, Del, Other }
pub open spec fn nm(b: Bs) -> Nm {
    if b == utf8("SET"@) { Nm::Set } else if b == utf8("GETDEL"@) { Nm::GetDel } else if b == utf8("GET"@) { Nm::Get } else if b == utf8("SADD"@) { Nm::SAdd } else if b == utf8("SREM"@) { Nm::SRem }
    else if b == utf8("EXPIREMEMBER"@) { Nm::ExpireMember } else if b == utf8("SMEMBERS"@) { Nm::SMembers } else if b == utf8("SCARD"@) { Nm::SCard } else if b == utf8("SISMEMBER"@) { Nm::SIsMember } else if b == utf8("DEL"@) { Nm::Del } else { Nm::Other }
}
pub open spec fn same_start(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }
pub proof fn lemma_names()
    ensures nm(utf8("SET"@)) == Nm::Set, nm(utf8("GETDEL"@)) == Nm::GetDel, nm(utf8("GET"@)) == Nm::Get, nm(utf8("SADD"@)) == Nm::SAdd, nm(utf8("SREM"@)) == Nm::SRem, nm(utf8("EXPIREMEMBER"@)) == Nm::ExpireMember,
        nm(utf8("SMEMBERS"@)) == Nm::SMembers, nm(utf8("SCARD"@)) == Nm::SCard, nm(utf8("SISMEMBER"@)) == Nm::SIsMember, nm(utf8("DEL"@)) == Nm::Del,
        "brokers"@ != "whitelist"@, "brokers"@.last() == 's', "whitelist"@.last() == 't', "/num_connections"@.last() == 's', "/num_connections"@.len() == 16, "brokers"@.len() == 7, "whitelist"@.len() == 9, "/permits/"@.len() == 9, "/permits/"@.last() == '/', "/permits"@.len() == 8, "/permits"@.last() == 's',
        !"brokers"@.contains('/'), !"whitelist"@.contains('/')
{
    broadcast use ax_utf8;
    reveal_strlit("SET"); reveal_strlit("GETDEL"); reveal_strlit("GET"); reveal_strlit("SADD"); reveal_strlit("SREM"); reveal_strlit("EXPIREMEMBER"); reveal_strlit("SMEMBERS"); reveal_strlit("SCARD"); reveal_strlit("SISMEMBER"); reveal_strlit("DEL");
    reveal_strlit("brokers"); reveal_strlit("whitelist"); reveal_strlit("/num_connections"); reveal_strlit("/permits/"); reveal_strlit("/permits");
    assert("SET"@[0] != "GET"@[0] && "DEL"@[0] != "GET"@[0] && "DEL"@[0] != "SET"@[0]);
    assert("SADD"@[1] != "SREM"@[1]);
    assert("brokers"@.len() == 7 && "whitelist"@.len() == 9);
    assert("SET"@.len() == 3 && "GET"@.len() == 3 && "DEL"@.len() == 3 && "GETDEL"@.len() == 6 && "SADD"@.len() == 4 && "SREM"@.len() == 4 && "EXPIREMEMBER"@.len() == 12 && "SMEMBERS"@.len() == 8 && "SCARD"@.len() == 5 && "SISMEMBER"@.len() == 9);
    assert(un8(utf8("SET"@)) == "SET"@ && un8(utf8("GET"@)) == "GET"@ && un8(utf8("DEL"@)) == "DEL"@ && un8(utf8("SADD"@)) == "SADD"@ && un8(utf8("SREM"@)) == "SREM"@);
}
pub open spec fn lasts(b: Bs) -> int { undec(un8(b)) * NANO }
/// SADD k m...: the members that are new
pub open spec fn added(s: Map<Bs, Option<int>>, c: Cm, n: nat, t: int) -> Map<Bs, Option<int>> decreases n {
    if n <= 2 { s } else { let a = added(s, c, (n - 1) as nat, t); let m = c[n - 1]; if a.contains_key(m) && good(a[m], t) { a } else { a.insert(m, None) } }
}
/// does the server carry it out
pub open spec fn fine(c: Cm, d: Db, t: int) -> bool {
    match nm(c[0]) {
        Nm::Set => c.len() == 3 || c.len() == 5 && c[3] == utf8("EX"@),
        Nm::GetDel | Nm::Get => c.len() == 2 && !(d.contains_key(c[1]) && d[c[1]] is Set),
        Nm::Del => c.len() == 2,
        Nm::SAdd => c.len() >= 3 && !clash(d, c[1], t),
        Nm::ExpireMember => c.len() == 4 && !clash(d, c[1], t),
        Nm::SMembers | Nm::SCard => c.len() == 2 && !clash(d, c[1], t),
        Nm::SIsMember => c.len() == 3 && !clash(d, c[1], t),
        _ => false,
    }
}
/// what it leaves
pub open spec fn act(c: Cm, d: Db, t: int) -> Db {
    if !fine(c, d, t) { d } else {
        match nm(c[0]) {
            Nm::Set => d.insert(c[1], Ent::Str(c[2], if c.len() == 5 { Some(t + lasts(c[4])) } else { None })),
            Nm::GetDel | Nm::Del => d.remove(c[1]),
            Nm::SAdd => d.insert(c[1], Ent::Set(added(members_of(d, c[1]), c, c.len(), t))),
            Nm::ExpireMember => if member(d, c[1], c[2], t) { d.insert(c[1], Ent::Set(members_of(d, c[1]).insert(c[2], Some(t + lasts(c[3]))))) } else { d },
            _ => d,
        }
    }
}
pub ghost enum Reply { Nil, Int(int), Bulk(Bs), Many(Set<Bs>), Done }
/// what it says
pub open spec fn says(c: Cm, d: Db, t: int) -> Reply {
    match nm(c[0]) {
        Nm::GetDel | Nm::Get => match value(d, c[1], t) { Some(v) => Reply::Bulk(v), None => Reply::Nil },
        Nm::SMembers => Reply::Many(members(d, c[1], t)),
        Nm::SCard => Reply::Int(members(d, c[1], t).len() as int),
        Nm::SIsMember => Reply::Int(if member(d, c[1], c[2], t) { 1 } else { 0 }),
        _ => Reply::Done,
    }
}
pub open spec fn acts(q: Seq<Cm>, d: Db, t: int) -> Db decreases q.len() { if q.len() == 0 { d } else { act(q.last(), acts(q.drop_last(), d, t), t) } }
pub open spec fn all_fine(q: Seq<Cm>, d: Db, t: int) -> bool decreases q.len() { q.len() == 0 || all_fine(q.drop_last(), d, t) && fine(q.last(), acts(q.drop_last(), d, t), t) }
pub broadcast proof fn lemma_acts(q: Seq<Cm>, c: Cm, d: Db, t: int)
    ensures #[trigger] acts(q.push(c), d, t) == act(c, acts(q, d, t), t)
{ assert(q.push(c).drop_last() =~= q); }
pub broadcast proof fn lemma_all_fine(q: Seq<Cm>, c: Cm, d: Db, t: int)
    ensures #[trigger] all_fine(q.push(c), d, t) == (all_fine(q, d, t) && fine(c, acts(q, d, t), t))
{ assert(q.push(c).drop_last() =~= q); }
/// every registered broker's name is an identifier's text
pub open spec fn named(d: Db) -> bool { forall|m: Bs| #[trigger] members_of(d, utf8("brokers"@)).contains_key(m) ==> plain(who(m)) && m == utf8(ident_text(who(m))) }
pub open spec fn plain(b: BrokerIdentifier) -> bool { !b.public_advertise_endpoint@.contains('/') && !b.private_advertise_endpoint@.contains('/') }
pub open spec fn who(m: Bs) -> BrokerIdentifier { choose|b: BrokerIdentifier| #[trigger] plain(b) && m == utf8(ident_text(b)) }
pub open spec fn keeps(c: Cm) -> bool { nm(c[0]) is SAdd && c.len() >= 3 && c[1] == utf8("brokers"@) ==> c.len() == 3 && plain(who(c[2])) && c[2] == utf8(ident_text(who(c[2]))) }
pub broadcast proof fn lemma_who(b: BrokerIdentifier)
    requires #[trigger] plain(b)
    ensures who(utf8(ident_text(b))) == b
{
    broadcast use ax_utf8;
    let c = who(utf8(ident_text(b)));
    assert(plain(c) && utf8(ident_text(b)) == utf8(ident_text(c)));
    assert(un8(utf8(ident_text(b))) == ident_text(b) && un8(utf8(ident_text(c))) == ident_text(c));
    lemma_text(b, c);
}
pub broadcast proof fn lemma_named(b: BrokerIdentifier, r: Option<BrokerIdentifier>)
    requires #[trigger] plain(b), #[trigger] parsed(ident_text(b), r)
    ensures r == Some(b)
{ lemma_roundtrip(b, r); ax_str(r->0.public_advertise_endpoint, b.public_advertise_endpoint); ax_str(r->0.private_advertise_endpoint, b.private_advertise_endpoint); }
pub broadcast proof fn lemma_no_name(s: Seq<char>, r: Option<BrokerIdentifier>) requires #[trigger] parsed(s, r), s.len() == 0 ensures r is None { assert(pieces(s, '/').len() == 1); }
pub proof fn lemma_text(a: BrokerIdentifier, b: BrokerIdentifier)
    requires plain(a), plain(b), ident_text(a) == ident_text(b)
    ensures a == b
{
    lemma_pieces_two(a.public_advertise_endpoint@, a.private_advertise_endpoint@, '/'); lemma_pieces_two(b.public_advertise_endpoint@, b.private_advertise_endpoint@, '/');
    assert(pieces(ident_text(a), '/')[0] == a.public_advertise_endpoint@ && pieces(ident_text(b), '/')[0] == b.public_advertise_endpoint@);
    assert(pieces(ident_text(a), '/')[1] == a.private_advertise_endpoint@ && pieces(ident_text(b), '/')[1] == b.private_advertise_endpoint@);
    ax_str(a.public_advertise_endpoint, b.public_advertise_endpoint); ax_str(a.private_advertise_endpoint, b.private_advertise_endpoint);
}

// ---------- what was done, in order
/// one request, which the server carries out as a whole: on what, what it left, when, and whether an answer came that could be read
pub ghost struct Ev { pub q: Seq<Cm>, pub pre: Db, pub post: Db, pub at: int, pub ok: bool }
#[verifier::external_body]
pub struct World { x: () }
pub open spec fn tail(s: Seq<Ev>, n: nat) -> Seq<Ev> { s.subrange(n as int, s.len() as int) }
impl World {
    pub uninterp spec fn trace(&self) -> Seq<Ev>;
    /// the server's clock, in nanoseconds
    pub uninterp spec fn time(&self) -> int;
    pub open spec fn since(&self, o: &World) -> Seq<Ev> { tail(self.trace(), o.trace().len()) }
    pub open spec fn grew(&self, o: &World) -> bool { o.trace().len() <= self.trace().len() && self.trace() =~= o.trace() + self.since(o) && o.time() <= self.time() }
    pub open spec fn ran(&self, o: &World, q: Seq<Cm>, ok: bool) -> bool {
        let e = self.trace().last();
        &&& self.trace() == o.trace().push(e) && self.grew(o) && self.since(o) == Seq::<Ev>::empty().push(e) && e.q == q && e.ok == ok && o.time() <= e.at <= self.time() && named(e.pre)
        &&& ok ==> all_fine(q, e.pre, e.at) && e.post == acts(q, e.pre, e.at)
        &&& !ok ==> e.post == e.pre || e.post == acts(q, e.pre, e.at)
    }
}
pub broadcast proof fn lemma_tail_self(w: World) ensures #[trigger] w.since(&w) == Seq::<Ev>::empty() { }
pub broadcast proof fn lemma_since(w0: World, w1: World, w2: World)
    requires #[trigger] w1.grew(&w0), #[trigger] w2.grew(&w1)
    ensures w2.grew(&w0), w2.since(&w0) == w1.since(&w0) + w2.since(&w1)
{ assert(w2.since(&w0) =~= w1.since(&w0) + w2.since(&w1)); assert(w2.trace() =~= w0.trace() + w2.since(&w0)); }
pub broadcast proof fn lemma_cat_one(a: Seq<Ev>, e: Ev) ensures #[trigger] (a + Seq::<Ev>::empty().push(e)) == a.push(e), a.push(e).drop_last() == a, a.push(e).last() == e { assert(a + Seq::<Ev>::empty().push(e) =~= a.push(e)); assert(a.push(e).drop_last() =~= a); }

// ---------- the client (redis)
#[verifier::external_body]
pub struct ConnectionManager { x: () }
impl Clone for ConnectionManager { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct RedisError { x: () }
impl VxToString for RedisError { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub type RedisResult<T> = core::result::Result<T, RedisError>;
pub trait VxArg { spec fn bytes(&self) -> Bs; }
impl VxArg for str { open spec fn bytes(&self) -> Bs { utf8(self@) } }
impl VxArg for String { open spec fn bytes(&self) -> Bs { utf8(self@) } }
impl VxArg for u64 { open spec fn bytes(&self) -> Bs { utf8(dec(*self as nat)) } }
impl VxArg for u32 { open spec fn bytes(&self) -> Bs { utf8(dec(*self as nat)) } }
impl VxArg for Vec<u8> { open spec fn bytes(&self) -> Bs { self@ } }
impl VxArg for [u8] { open spec fn bytes(&self) -> Bs { self@ } }
impl<'a, T: VxArg + ?Sized> VxArg for &'a T { open spec fn bytes(&self) -> Bs { (**self).bytes() } }
pub trait VxAsRef { type T: ?Sized; spec fn vx_is(&self) -> &Self::T; fn vx_as_ref(&self) -> (r: &Self::T) ensures r == self.vx_is(); }
impl VxAsRef for Arc<Vec<u8>> { type T = Vec<u8>; open spec fn vx_is(&self) -> &Vec<u8> { &**self } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &Vec<u8>) { unimplemented!() } }
/// how a reply is read
pub trait VxReply: Sized { spec fn reads(v: Reply, x: Self) -> bool; }
impl VxReply for () { open spec fn reads(v: Reply, x: ()) -> bool { true } }
impl VxReply for bool { open spec fn reads(v: Reply, x: bool) -> bool { match v { Reply::Int(n) => x == (n != 0), Reply::Nil => !x, _ => true } } }
/// the number that a text stands for
pub uninterp spec fn numeral(b: Bs) -> Option<nat>;
pub broadcast axiom fn ax_numeral(n: nat) ensures numeral(utf8(#[trigger] dec(n))) == Some(n);
/// (numbers of connections and of members are below 2^63)
impl VxReply for u64 { open spec fn reads(v: Reply, x: u64) -> bool { x < 0x8000_0000_0000_0000 && match v { Reply::Int(n) => x == n, Reply::Bulk(b) => numeral(b) == Some(x as nat), _ => false } } }
impl VxReply for Option<Vec<u8>> { open spec fn reads(v: Reply, x: Option<Vec<u8>>) -> bool { match v { Reply::Nil => x is None, Reply::Bulk(b) => x matches Some(y) && y@ == b, _ => false } } }
impl VxReply for HashSet<String> { open spec fn reads(v: Reply, x: HashSet<String>) -> bool { v matches Reply::Many(s) && (forall|t: String| #[trigger] x@.contains(t) ==> s.contains(utf8(t@))) && (forall|m: Bs| #[trigger] s.contains(m) ==> exists|t: String| #[trigger] x@.contains(t) && utf8(t@) == m) } }
#[verifier::external_body]
pub struct Cmd { x: () }
#[verifier::external_body]
pub fn cmd(n: &str) -> (r: Cmd) ensures r.cm() == Seq::<Bs>::empty().push(utf8(n@)) { unimplemented!() }
impl Cmd {
    pub uninterp spec fn cm(&self) -> Cm;
    #[verifier::external_body]
    pub fn arg<T: VxArg>(self, x: T) -> (r: Cmd) ensures r.cm() == self.cm().push(x.bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn query_async<T: VxReply>(self, c: &mut ConnectionManager, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<T>)
        requires keeps(self.cm())
        ensures final(w).ran(old(w), Seq::<Cm>::empty().push(self.cm()), r is Ok), r matches Ok(x) ==> T::reads(says(self.cm(), final(w).trace().last().pre, final(w).trace().last().at), x)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Pipe { x: () }
#[verifier::external_body]
pub fn pipe() -> (r: Pipe) ensures r.cms() == Seq::<Cm>::empty(), !r.whole() { unimplemented!() }
/// the last command with one more argument
pub open spec fn more(q: Seq<Cm>, b: Bs) -> Seq<Cm> { q.drop_last().push(q.last().push(b)) }
pub broadcast proof fn lemma_more(q: Seq<Cm>, c: Cm, b: Bs) ensures #[trigger] more(q.push(c), b) == q.push(c.push(b)) { assert(q.push(c).drop_last() =~= q); }
pub broadcast proof fn lemma_no_acts(d: Db, t: int) ensures #[trigger] acts(Seq::<Cm>::empty(), d, t) == d, all_fine(Seq::<Cm>::empty(), d, t) { }
pub broadcast proof fn lemma_added(s: Map<Bs, Option<int>>, c: Cm, t: int) ensures #[trigger] added(s, c, 3, t) == (if s.contains_key(c[2]) && good(s[c[2]], t) { s } else { s.insert(c[2], None) }) { assert(added(s, c, 2, t) == s); }
pub broadcast proof fn lemma_kept(q: Seq<Cm>, c: Cm) ensures #[trigger] kept(q.push(c)) == (kept(q) && keeps(c)) {
    assert(q.push(c)[q.len() as int] == c);
    if kept(q.push(c)) { assert forall|i: int| 0 <= i < q.len() implies keeps(#[trigger] q[i]) by { assert(q.push(c)[i] == q[i]); } }
    if kept(q) && keeps(c) { assert forall|i: int| 0 <= i < q.push(c).len() implies keeps(#[trigger] q.push(c)[i]) by { if i < q.len() { assert(q.push(c)[i] == q[i]); } } }
}
pub open spec fn kept(q: Seq<Cm>) -> bool { forall|i: int| 0 <= i < q.len() ==> keeps(#[trigger] q[i]) }
impl Pipe {
    pub uninterp spec fn cms(&self) -> Seq<Cm>;
    /// as one transaction
    pub uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body]
    pub fn atomic(self) -> (r: Pipe) ensures r.cms() == self.cms(), r.whole() { unimplemented!() }
    #[verifier::external_body]
    pub fn cmd(self, n: &str) -> (r: Pipe) ensures r.cms() == self.cms().push(Seq::<Bs>::empty().push(utf8(n@))), r.whole() == self.whole() { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: VxArg>(self, x: T) -> (r: Pipe) ensures r.cms() == more(self.cms(), x.bytes()), r.whole() == self.whole() { unimplemented!() }
    #[verifier::external_body]
    pub fn query_async<T: VxReply>(self, c: &mut ConnectionManager, Tracked(w): Tracked<&mut World>) -> (r: RedisResult<T>)
        requires kept(self.cms())
        ensures final(w).grew(old(w)), self.whole() ==> final(w).ran(old(w), self.cms(), r is Ok)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { x: () }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
impl Duration {
    pub uninterp spec fn nanos(&self) -> nat;
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == secs(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.nanos() / 1_000_000 { unimplemented!() }
}
/// whole seconds
pub open spec fn secs(d: Duration) -> nat { (d.nanos() / (NANO as nat)) as nat }
/// randomness: any number
#[verifier::external_body]
pub struct StdRng { x: () }
impl StdRng {
    #[verifier::external_body] pub fn from_entropy() -> StdRng { unimplemented!() }
    #[verifier::external_body] pub fn next_u32(&mut self) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn next_u64(&mut self) -> u64 { unimplemented!() }
}

// ---------- permits (C24)
pub open spec fn permit_text(b: BrokerIdentifier, n: u64) -> Seq<char> { ident_text(b) + "/permits/"@ + dec(n as nat) }
pub open spec fn permit_at(b: BrokerIdentifier, n: u64) -> Bs { utf8(permit_text(b, n)) }
/// one request stores this permit, and touches nothing else
pub open spec fn stores(e: Ev, b: BrokerIdentifier, n: u64, key: Bs, life: nat) -> bool { e.post == e.pre.insert(permit_at(b, n), Ent::Str(key, Some(e.at + life * NANO))) }
pub open spec fn stores_some(e: Ev, b: BrokerIdentifier, key: Bs, life: nat) -> bool { exists|p: u64| e.post == e.pre.insert(#[trigger] permit_at(b, p), Ent::Str(key, Some(e.at + life * NANO))) }
/// one request takes this permit, and touches nothing else
pub open spec fn takes(e: Ev, b: BrokerIdentifier, n: u64, key: Bs) -> bool { value(e.pre, permit_at(b, n), e.at) == Some(key) && e.post == e.pre.remove(permit_at(b, n)) }
pub open spec fn one(s: Seq<Ev>) -> bool { s.len() == 1 }
/// different permits lie at different places
pub proof fn lemma_permit_at(a: BrokerIdentifier, m: u64, b: BrokerIdentifier, n: u64)
    requires permit_at(a, m) == permit_at(b, n), plain(a), plain(b)
    ensures a == b, m == n
{
    broadcast use ax_utf8;
    lemma_names();
    let (x, y) = (permit_text(a, m), permit_text(b, n));
    assert(un8(utf8(x)) == x && un8(utf8(y)) == y);
    lemma_dec(m as nat); lemma_dec(n as nat);
    let p = "/permits/"@;
    let (u, v) = (ident_text(a) + p, ident_text(b) + p);
    assert(u.last() == p.last() && v.last() == p.last());
    lemma_last_part(u, dec(m as nat), v, dec(n as nat));
    assert(undec(dec(m as nat)) == undec(dec(n as nat)));
    assert(u.subrange(0, u.len() - p.len()) =~= ident_text(a) && v.subrange(0, v.len() - p.len()) =~= ident_text(b));
    lemma_text(a, b);
}
/// what stands after the last slash, and what stands before
pub proof fn lemma_last_part(u: Seq<char>, d: Seq<char>, v: Seq<char>, f: Seq<char>)
    requires u + d == v + f, u.len() > 0, v.len() > 0, u.last() == '/', v.last() == '/', forall|i: int| 0 <= i < d.len() ==> d[i] != '/', forall|i: int| 0 <= i < f.len() ==> f[i] != '/'
    ensures u == v, d == f
{
    let (x, y) = (u + d, v + f);
    assert(x.len() == u.len() + d.len() && y.len() == v.len() + f.len());
    if d.len() < f.len() { let i = u.len() - 1; assert(x[i] == '/'); assert(y[i] == f[i - v.len()]); }
    if d.len() > f.len() { let i = v.len() - 1; assert(y[i] == '/'); assert(x[i] == d[i - u.len()]); }
    assert(x.subrange(u.len() as int, x.len() as int) =~= d && y.subrange(v.len() as int, y.len() as int) =~= f);
    assert(x.subrange(0, u.len() as int) =~= u && y.subrange(0, v.len() as int) =~= v);
}
/// nothing else lies where permits lie
pub proof fn lemma_apart(b: BrokerIdentifier, n: u64, c: BrokerIdentifier)
    ensures permit_at(b, n) != utf8("brokers"@), permit_at(b, n) != utf8("whitelist"@), permit_at(b, n) != connections_at(utf8(ident_text(c))), connections_at(utf8(ident_text(c))) != utf8("brokers"@), connections_at(utf8(ident_text(c))) != utf8("whitelist"@), utf8("brokers"@) != utf8("whitelist"@)
{
    broadcast use ax_utf8;
    lemma_names(); lemma_dec(n as nat);
    let x = permit_text(b, n);
    assert(x.last() == dec(n as nat).last());
    let y = ident_text(c) + "/num_connections"@;
    assert(y.last() == "/num_connections"@.last());
    assert(y.contains('/')) by { assert(y[c.public_advertise_endpoint@.len() as int] == '/'); }
    assert(un8(utf8(x)) == x && un8(utf8("brokers"@)) == "brokers"@ && un8(utf8("whitelist"@)) == "whitelist"@ && un8(utf8(y)) == y && un8(utf8(ident_text(c))) == ident_text(c));
}
pub open spec fn holds(d: Db, k: Bs) -> bool { d.contains_key(k) }
/// permits appear only by being issued
pub open spec fn lawful(e: Ev) -> bool { forall|b: BrokerIdentifier, n: u64| holds(e.post, #[trigger] permit_at(b, n)) && (holds(e.pre, permit_at(b, n)) ==> e.pre[permit_at(b, n)] != e.post[permit_at(b, n)]) ==> issues(e, b, n) }
pub open spec fn issues(e: Ev, b: BrokerIdentifier, n: u64) -> bool { exists|c: BrokerIdentifier, m: u64, key: Bs, life: nat| permit_at(b, n) == permit_at(c, m) && #[trigger] stores(e, c, m, key, life) }
/// every request these functions make is lawful
pub proof fn lemma_lawful(e: Ev, b: BrokerIdentifier, n: u64, us: Seq<UserPublicKey>, k: u64, life: nat)
    requires e.pre == e.post || e.post == e.pre.remove(permit_at(b, n)) || (exists|key: Bs| stores(e, b, n, key, life)) || half_tends(e, b, k, life) || relists(e, us)
    ensures lawful(e)
{
    assert forall|c: BrokerIdentifier, m: u64| holds(e.post, #[trigger] permit_at(c, m)) && (holds(e.pre, permit_at(c, m)) ==> e.pre[permit_at(c, m)] != e.post[permit_at(c, m)]) implies issues(e, c, m) by {
        lemma_apart(c, m, b);
        if exists|key: Bs| stores(e, b, n, key, life) { let key = choose|key: Bs| stores(e, b, n, key, life); assert(stores(e, b, n, key, life)); assert(permit_at(c, m) == permit_at(b, n)); }
    }
}
/// a history of the server: what one request leaves, the next one finds
pub open spec fn linear(h: Seq<Ev>) -> bool { forall|i: int| 0 <= i < h.len() ==> lawful(#[trigger] h[i]) && (i > 0 ==> h[i].pre == h[i - 1].post) }
pub proof fn lemma_issued_between(h: Seq<Ev>, i: int, j: int, b: BrokerIdentifier, n: u64)
    requires linear(h), 0 <= i < j < h.len(), !holds(h[i].post, permit_at(b, n)), holds(h[j].pre, permit_at(b, n))
    ensures exists|k: int| i < k < j && issues(#[trigger] h[k], b, n)
    decreases j - i
{
    assert(lawful(h[j]) && h[j].pre == h[j - 1].post);
    if j - 1 != i {
        assert(lawful(h[j - 1]));
        if holds(h[j - 1].pre, permit_at(b, n)) { lemma_issued_between(h, i, j - 1, b, n); let k = choose|k: int| i < k < j - 1 && issues(#[trigger] h[k], b, n); assert(i < k < j && issues(h[k], b, n)); } else { assert(issues(h[j - 1], b, n)); }
    }
}
/// the guarantee over any history: a permit taken twice was issued again in between (so each issue is redeemed at most once)
pub proof fn lemma_once(h: Seq<Ev>, i: int, j: int, b: BrokerIdentifier, n: u64, x: Bs, y: Bs)
    requires linear(h), 0 <= i < j < h.len(), takes(h[i], b, n, x), takes(h[j], b, n, y)
    ensures exists|k: int| i < k < j && issues(#[trigger] h[k], b, n)
{ lemma_issued_between(h, i, j, b, n); }
/// ... and none is taken once it has run out
pub proof fn lemma_not_late(e: Ev, b: BrokerIdentifier, n: u64, key: Bs, until: int)
    requires takes(e, b, n, key), e.pre[permit_at(b, n)] == Ent::Str(key, Some(until))
    ensures e.at < until
{ }

// ---------- the register of brokers (C27)
pub open spec fn connections_at(m: Bs) -> Bs { utf8(un8(m) + "/num_connections"@) }
pub open spec fn permits_at(m: Bs) -> Bs { utf8(un8(m) + "/permits"@) }
pub open spec fn name_of(b: BrokerIdentifier) -> Bs { utf8(ident_text(b)) }
/// one request replaces this broker's entry, and no other
pub open spec fn tends(e: Ev, b: BrokerIdentifier, n: u64, life: nat) -> bool {
    e.post == beaten(e.pre, e.at, b, n, life)
}
pub open spec fn beat(b: BrokerIdentifier, n: u64, life: nat) -> Seq<Cm> {
    let e = Seq::<Bs>::empty();
    Seq::<Cm>::empty().push(e.push(utf8("SADD"@)).push(utf8("brokers"@)).push(name_of(b)))
        .push(e.push(utf8("EXPIREMEMBER"@)).push(utf8("brokers"@)).push(name_of(b)).push(utf8(dec(life))))
        .push(e.push(utf8("SET"@)).push(connections_at(name_of(b))).push(utf8(dec(n as nat))).push(utf8("EX"@)).push(utf8(dec(life))))
}
pub proof fn lemma_beat(d: Db, t: int, b: BrokerIdentifier, n: u64, life: nat)
    ensures !clash(d, utf8("brokers"@), t) ==> acts(beat(b, n, life), d, t) == beaten(d, t, b, n, life), clash(d, utf8("brokers"@), t) ==> acts(beat(b, n, life), d, t) == d.insert(connections_at(name_of(b)), Ent::Str(utf8(dec(n as nat)), Some(t + life * NANO))) && !all_fine(beat(b, n, life), d, t)
{
    broadcast use lemma_acts, lemma_all_fine, lemma_no_acts, lemma_added, ax_utf8, lemma_dec;
    lemma_names();
    let e = Seq::<Bs>::empty();
    let k = utf8("brokers"@);
    let m = name_of(b);
    let c1 = e.push(utf8("SADD"@)).push(k).push(m);
    let c2 = e.push(utf8("EXPIREMEMBER"@)).push(k).push(m).push(utf8(dec(life)));
    let q1 = Seq::<Cm>::empty().push(c1);
    let d1 = act(c1, d, t);
    let d2 = act(c2, d1, t);
    assert(acts(q1, d, t) == d1);
    assert(acts(q1.push(c2), d, t) == d2);
    if !clash(d, k, t) {
        assert(members_of(d1, k) == added(members_of(d, k), c1, 3, t));
        assert(member(d1, k, m, t));
        assert(d2 =~= d.insert(k, Ent::Set(members_of(d, k).insert(m, Some(t + life * NANO))))) by { assert(members_of(d1, k).insert(m, Some(t + life * NANO)) =~= members_of(d, k).insert(m, Some(t + life * NANO))); }
    } else { assert(!fine(c1, d, t)); assert(all_fine(q1, d, t) == false); assert(d2 == d); assert(!all_fine(q1.push(c2), d, t)); }
}
pub open spec fn beaten(d: Db, t: int, b: BrokerIdentifier, n: u64, life: nat) -> Db {
    let end = Some(t + life * NANO);
    d.insert(utf8("brokers"@), Ent::Set(members_of(d, utf8("brokers"@)).insert(name_of(b), end))).insert(connections_at(name_of(b)), Ent::Str(utf8(dec(n as nat)), end))
}
/// no more than that, if the server refused a part of it
pub open spec fn half_tends(e: Ev, b: BrokerIdentifier, n: u64, life: nat) -> bool { e.post == e.pre || tends(e, b, n, life) || e.post == e.pre.insert(connections_at(name_of(b)), Ent::Str(utf8(dec(n as nat)), Some(e.at + life * NANO))) }
pub broadcast proof fn lemma_keeps_push(s: Seq<Ev>, e: Ev) ensures #[trigger] keeps_all(s.push(e)) == (keeps_all(s) && e.pre == e.post), s.push(e).last() == e, s.push(e)[s.len() as int] == e {
    if keeps_all(s.push(e)) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).pre == s[i].post by { assert(s.push(e)[i] == s[i]); } assert(s.push(e)[s.len() as int] == e); }
    if keeps_all(s) && e.pre == e.post { assert forall|i: int| 0 <= i < s.push(e).len() implies (#[trigger] s.push(e)[i]).pre == s.push(e)[i].post by { if i < s.len() { assert(s.push(e)[i] == s[i]); } } }
}
pub broadcast proof fn lemma_keeps_none() ensures #[trigger] keeps_all(Seq::<Ev>::empty()) { }
pub broadcast proof fn lemma_member(d: Db, k: Bs, m: Bs, t: int) ensures #[trigger] member(d, k, m, t) == members(d, k, t).contains(m) { }
pub open spec fn keeps_all(s: Seq<Ev>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).pre == s[i].post }
pub open spec fn failed(s: Seq<Ev>) -> bool { s.len() > 0 && !s.last().ok }
pub open spec fn listed(d: Db, b: BrokerIdentifier, t: int) -> bool { member(d, utf8("brokers"@), name_of(b), t) }
pub open spec fn others(s: Seq<Ev>, me: BrokerIdentifier, bs: Set<BrokerIdentifier>) -> bool {
    one(s) && keeps_all(s) && forall|b: BrokerIdentifier| #[trigger] bs.contains(b) <==> plain(b) && b != me && listed(s[0].pre, b, s[0].at)
}
/// what broker m weighs: the connections it reported and its permits, as asked for at i and i + 1
pub open spec fn weighed(s: Seq<Ev>, i: int, m: Bs, l: int) -> bool {
    0 <= i < s.len() - 1 && value(s[i].pre, connections_at(m), s[i].at) is Some && numeral(value(s[i].pre, connections_at(m), s[i].at)->0) is Some && l == numeral(value(s[i].pre, connections_at(m), s[i].at)->0)->0 + members(s[i + 1].pre, permits_at(m), s[i + 1].at).len()
}
pub open spec fn load(s: Seq<Ev>, m: Bs, l: int) -> bool { exists|i: int| #[trigger] weighed(s, i, m, l) }
pub open spec fn chosen(s: Seq<Ev>, b: BrokerIdentifier) -> bool {
    &&& keeps_all(s) && s.len() > 0 && plain(b) && listed(s[0].pre, b, s[0].at)
    &&& exists|l: int| #[trigger] load(s, name_of(b), l) && lightest(s, l)
}
pub open spec fn lightest(s: Seq<Ev>, l: int) -> bool { forall|m: Bs| #[trigger] member(s[0].pre, utf8("brokers"@), m, s[0].at) ==> exists|x: int| #[trigger] load(s, m, x) && l <= x }
pub open spec fn nobody(s: Seq<Ev>) -> bool { keeps_all(s) && s.len() > 0 && (failed(s) || forall|m: Bs| !#[trigger] member(s[0].pre, utf8("brokers"@), m, s[0].at)) }
pub broadcast proof fn lemma_load_more(s: Seq<Ev>, r: Seq<Ev>, m: Bs, l: int)
    requires #[trigger] load(s, m, l)
    ensures #[trigger] load(s + r, m, l)
{ let i = choose|i: int| #[trigger] weighed(s, i, m, l); assert(weighed(s + r, i, m, l)); }

// ---------- the whitelist (C28)
pub open spec fn user_set(us: Seq<UserPublicKey>) -> Map<Bs, Option<int>> decreases us.len() { if us.len() == 0 { Map::empty() } else { user_set(us.drop_last()).insert(us.last()@, None) } }
pub open spec fn relisted(d: Db, us: Seq<UserPublicKey>) -> Db { if us.len() == 0 { d.remove(utf8("whitelist"@)) } else { d.insert(utf8("whitelist"@), Ent::Set(user_set(us))) } }
/// one request makes these users the list, and touches nothing else
pub open spec fn relists(e: Ev, us: Seq<UserPublicKey>) -> bool { e.post == relisted(e.pre, us) }
pub open spec fn on_list(e: Ev, u: Bs) -> bool { member(e.pre, utf8("whitelist"@), u, e.at) }
pub open spec fn no_list(e: Ev) -> bool { forall|m: Bs| !#[trigger] member(e.pre, utf8("whitelist"@), m, e.at) }
pub open spec fn verdict(s: Seq<Ev>, u: Bs, ok: bool) -> bool { s.len() > 0 && keeps_all(s) && if ok { no_list(s.last()) || on_list(s.last(), u) } else { !on_list(s.last(), u) && exists|i: int| 0 <= i < s.len() && !no_list(#[trigger] s[i]) } }
pub proof fn lemma_user_set(us: Seq<UserPublicKey>, m: Bs)
    ensures user_set(us).contains_key(m) <==> exists|i: int| 0 <= i < us.len() && (#[trigger] us[i])@ == m, user_set(us).contains_key(m) ==> user_set(us)[m] is None
    decreases us.len()
{
    if us.len() > 0 {
        lemma_user_set(us.drop_last(), m);
        if user_set(us).contains_key(m) { if us.last()@ == m { assert(us[us.len() - 1]@ == m); } else { let i = choose|i: int| 0 <= i < us.drop_last().len() && (#[trigger] us.drop_last()[i])@ == m; assert(us[i]@ == m); } }
        if exists|i: int| 0 <= i < us.len() && (#[trigger] us[i])@ == m { let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i])@ == m; if i < us.len() - 1 { assert(us.drop_last()[i]@ == m); } }
    }
}
pub open spec fn keeps_list(e: Ev) -> bool { members_of(e.pre, utf8("whitelist"@)) == members_of(e.post, utf8("whitelist"@)) }
pub proof fn lemma_keeps_list(e: Ev, b: BrokerIdentifier, n: u64, key: Bs, k: u64, life: nat)
    requires e.pre == e.post || e.post == e.pre.remove(permit_at(b, n)) || stores(e, b, n, key, life) || half_tends(e, b, k, life)
    ensures keeps_list(e)
{ lemma_apart(b, n, b); }
pub proof fn lemma_list_kept(h: Seq<Ev>, i: int, j: int)
    requires linear(h), 0 <= i < j < h.len(), forall|k: int| i < k < j ==> keeps_list(#[trigger] h[k])
    ensures members_of(h[j].pre, utf8("whitelist"@)) == members_of(h[i].post, utf8("whitelist"@))
    decreases j - i
{ assert(lawful(h[j]) && h[j].pre == h[j - 1].post); if j - 1 > i { lemma_list_kept(h, i, j - 1); assert(keeps_list(h[j - 1])); } }
/// the guarantee over any history: set_whitelist at i, check_whitelist's two looks at j and k: it says whether the user is on that list
pub proof fn lemma_list(h: Seq<Ev>, i: int, j: int, k: int, us: Seq<UserPublicKey>, u: Bs, ok: bool)
    requires linear(h), 0 <= i < j <= k < h.len(), us.len() > 0, relists(h[i], us), forall|x: int| i < x < k ==> keeps_list(#[trigger] h[x]),
        ok ==> (j == k && no_list(h[j])) || on_list(h[k], u), !ok ==> !on_list(h[k], u)
    ensures ok <==> exists|x: int| 0 <= x < us.len() && (#[trigger] us[x])@ == u
{
    lemma_list_kept(h, i, j); lemma_list_kept(h, i, k);
    lemma_user_set(us, u); lemma_user_set(us, us[0]@);
    assert(members_of(h[i].post, utf8("whitelist"@)) == user_set(us));
    assert(us[0]@ == us[0]@ && member(h[j].pre, utf8("whitelist"@), us[0]@, h[j].at));
}
pub open spec fn whitelist_cmd(u: UserPublicKey) -> Cm { Seq::<Bs>::empty().push(utf8("SADD"@)).push(utf8("whitelist"@)).push(u@) }
pub proof fn lemma_set_step(d: Db, us: Seq<UserPublicKey>, u: UserPublicKey, c: Cm, t: int)
    requires c == whitelist_cmd(u)
    ensures fine(c, relisted(d, us), t), act(c, relisted(d, us), t) == relisted(d, us.push(u))
{
    lemma_names();
    let w = utf8("whitelist"@);
    let r = relisted(d, us);
    assert(us.push(u).drop_last() =~= us && us.push(u).last() == u);
    assert(members_of(r, w) == user_set(us));
    lemma_user_set(us, u@);
    assert(added(user_set(us), c, 2, t) == user_set(us));
    assert(added(user_set(us), c, 3, t) =~= user_set(us).insert(u@, None));
    assert(act(c, r, t) =~= relisted(d, us.push(u)));
}
/// a question leaves everything as it is
pub broadcast proof fn lemma_looks(c: Cm, d: Db, t: int)
    requires nm(c[0]) is Get || nm(c[0]) is SMembers || nm(c[0]) is SCard || nm(c[0]) is SIsMember
    ensures #[trigger] acts(Seq::<Cm>::empty().push(c), d, t) == d
{ lemma_acts(Seq::<Cm>::empty(), c, d, t); lemma_no_acts(d, t); }
/// the lightest so far, with one broker more
pub proof fn lemma_weighed(s0: Seq<Ev>, s1: Seq<Ev>, r: Seq<Ev>, m: Bs, l: int)
    requires s1 == s0 + r, r.len() == 2, weighed(r, 0, m, l)
    ensures load(s1, m, l)
{ assert(s1[s0.len() as int] == r[0] && s1[s0.len() as int + 1] == r[1]); assert(weighed(s1, s0.len() as int, m, l)); }
pub proof fn lemma_loads(s0: Seq<Ev>, s1: Seq<Ev>, r: Seq<Ev>, names: Seq<String>, l: Seq<int>, n: int)
    requires s1 == s0 + r, 0 <= n <= names.len(), n <= l.len(), forall|i: int| 0 <= i < n ==> load(s0, utf8((#[trigger] names[i])@), l[i])
    ensures forall|i: int| 0 <= i < n ==> load(s1, utf8((#[trigger] names[i])@), l[i])
{ assert forall|i: int| 0 <= i < n implies load(s1, utf8((#[trigger] names[i])@), l[i]) by { lemma_load_more(s0, r, utf8(names[i]@), l[i]); } }
/// the first look saw exactly these names, each then weighed l[i], and none less than the one at j
pub proof fn lemma_chosen(s: Seq<Ev>, names: Seq<String>, l: Seq<int>, j: int, text: Seq<char>) -> (b: BrokerIdentifier)
    requires s.len() > 0, keeps_all(s), named(s[0].pre), l.len() == names.len(), 0 <= j < names.len(), text == names[j]@,
        forall|i: int| 0 <= i < names.len() ==> load(s, utf8((#[trigger] names[i])@), l[i]) && l[j] <= l[i],
        forall|m: Bs| #[trigger] member(s[0].pre, utf8("brokers"@), m, s[0].at) ==> exists|i: int| 0 <= i < names.len() && utf8((#[trigger] names[i])@) == m,
        forall|i: int| 0 <= i < names.len() ==> member(s[0].pre, utf8("brokers"@), utf8((#[trigger] names[i])@), s[0].at),
    ensures plain(b), text == ident_text(b), chosen(s, b)
{
    broadcast use ax_utf8;
    let m = utf8(names[j]@);
    let b = who(m);
    assert(member(s[0].pre, utf8("brokers"@), m, s[0].at));
    assert(un8(m) == names[j]@ && un8(name_of(b)) == ident_text(b));
    assert(load(s, name_of(b), l[j]));
    assert forall|m: Bs| #[trigger] member(s[0].pre, utf8("brokers"@), m, s[0].at) implies exists|x: int| #[trigger] load(s, m, x) && l[j] <= x by {
        let i = choose|i: int| 0 <= i < names.len() && utf8((#[trigger] names[i])@) == m;
        assert(load(s, utf8(names[i]@), l[i]));
    }
    assert(lightest(s, l[j]));
    b
}
pub broadcast group vx_look { ax_str, ax_utf8, lemma_members, lemma_who, lemma_named, lemma_no_name, lemma_tail_self, lemma_since, lemma_cat_one, lemma_keeps_push, lemma_keeps_none, lemma_looks }
pub broadcast group vx_redis { ax_str, ax_utf8, lemma_dec, ax_numeral, lemma_members, lemma_acts, lemma_all_fine, lemma_who, lemma_named, lemma_no_name, lemma_tail_self, lemma_since, lemma_cat_one, lemma_load_more, lemma_more, lemma_no_acts, lemma_added, lemma_kept, lemma_keeps_push, lemma_keeps_none }
#end
#source cdn-proto/src/discovery/redis.rs
#item struct Redis
#impl Redis trait=DiscoveryClient skip=new header=impl~Redis
#fn Redis::issue_permit
@ret r
@params for_broker expiry public_key
@effects
@prop C24
@local permit 1
@after let permit
    let ghost vx_place = permit_at(*for_broker, permit);
    let ghost vx_c = Seq::<Bs>::empty().push(utf8("SET"@)).push(vx_place).push(public_key@).push(utf8("EX"@)).push(utf8(dec(secs(expiry))));
    proof { assert forall|d: Db, t: int| #[trigger] act(vx_c, d, t) == d.insert(vx_place, Ent::Str(public_key@, Some(t + secs(expiry) * NANO))) by { } }
@spec
    ensures
        final(w).grew(old(w)), one(final(w).since(old(w))),
        r matches Ok(p) ==> stores(final(w).since(old(w))[0], *for_broker, p, public_key@, secs(expiry)),
        r is Err ==> failed(final(w).since(old(w))) && (keeps_all(final(w).since(old(w))) || stores_some(final(w).since(old(w))[0], *for_broker, public_key@, secs(expiry))),
@begin
    broadcast use vx_redis;
    proof { lemma_names(); }
#end
#fn Redis::validate_permit
@ret r
@params for_broker permit
@effects
@prop C24
@spec
    ensures
        final(w).grew(old(w)), one(final(w).since(old(w))),
        r matches Ok(Some(k)) ==> takes(final(w).since(old(w))[0], *for_broker, permit, k@),
        r matches Ok(None) ==> value(final(w).since(old(w))[0].pre, permit_at(*for_broker, permit), final(w).since(old(w))[0].at) is None && final(w).since(old(w))[0].post == final(w).since(old(w))[0].pre.remove(permit_at(*for_broker, permit)),
        r is Err ==> failed(final(w).since(old(w))) && (keeps_all(final(w).since(old(w))) || final(w).since(old(w))[0].post == final(w).since(old(w))[0].pre.remove(permit_at(*for_broker, permit))),
@begin
    broadcast use vx_redis;
    proof { lemma_names(); }
#end
#fn Redis::perform_heartbeat
@ret r
@params num_connections heartbeat_expiry
@effects
@prop C27
@spec
    requires plain(old(self).identifier)
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier, one(final(w).since(old(w))),
        r is Ok ==> tends(final(w).since(old(w))[0], old(self).identifier, num_connections, secs(heartbeat_expiry)),
        r is Err ==> failed(final(w).since(old(w))) && half_tends(final(w).since(old(w))[0], old(self).identifier, num_connections, secs(heartbeat_expiry)),
@begin
    broadcast use vx_redis;
    proof {
        lemma_names();
        let (b, n, life) = (self.identifier, num_connections, secs(heartbeat_expiry));
        assert(un8(name_of(b)) == ident_text(b));
        assert forall|d: Db, t: int| true implies (!clash(d, utf8("brokers"@), t) ==> #[trigger] acts(beat(b, n, life), d, t) == beaten(d, t, b, n, life)) && (clash(d, utf8("brokers"@), t) ==> acts(beat(b, n, life), d, t) == d.insert(connections_at(name_of(b)), Ent::Str(utf8(dec(n as nat)), Some(t + life * NANO))) && !all_fine(beat(b, n, life), d, t)) by { lemma_beat(d, t, b, n, life); }
    }
#end
#fn Redis::get_other_brokers
@ret r
@effects
@prop C27
@spec
    requires plain(old(self).identifier)
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier,
        r matches Ok(bs) ==> others(final(w).since(old(w)), old(self).identifier, bs@),
        r is Err ==> keeps_all(final(w).since(old(w))) && failed(final(w).since(old(w))),
@local brokers_parsed 1
@after ^let mut brokers :
    let ghost vx_o = brokers@;
    let ghost vx_e = w.since(old(w))[0];
    let ghost vx_k = utf8("brokers"@);
    proof {
        assert(vx_e == w.trace().last());
        let c = Seq::<Bs>::empty().push(utf8("SMEMBERS"@)).push(vx_k);
        assert(c[0] == utf8("SMEMBERS"@) && c[1] == vx_k);
        assert(says(c, vx_e.pre, vx_e.at) == Reply::Many(members(vx_e.pre, vx_k, vx_e.at)));
        assert forall|m: Bs| #[trigger] member(vx_e.pre, vx_k, m, vx_e.at) implies exists|t: String| #[trigger] vx_o.contains(t) && utf8(t@) == m by { lemma_member(vx_e.pre, vx_k, m, vx_e.at); assert(says(c, vx_e.pre, vx_e.at)->Many_0.contains(m)); }
        assert forall|t: String| #[trigger] vx_o.contains(t) implies member(vx_e.pre, vx_k, utf8(t@), vx_e.at) by { lemma_member(vx_e.pre, vx_k, utf8(t@), vx_e.at); }
    }
@begin
    broadcast use vx_redis;
    proof { lemma_names(); }
@loopstart 0
    proof {
        let t = $it.all()[$it.pos() - 1];
        assert(member(vx_e.pre, vx_k, utf8(t@), vx_e.at));
        assert(un8(utf8(t@)) == t@ && un8(name_of(who(utf8(t@)))) == ident_text(who(utf8(t@))));
        assert(plain(who(utf8(t@))) && t@ == ident_text(who(utf8(t@))));
    }
@afterloop 0
    proof {
        let me = self.identifier;
        assert forall|b: BrokerIdentifier| #[trigger] brokers_parsed@.contains(b) implies plain(b) && b != me && listed(vx_e.pre, b, vx_e.at) by {
            let i = choose|i: int| 0 <= i < $it.pos() && b == who(utf8((#[trigger] $it.all()[i])@));
            let t = $it.all()[i];
            assert(member(vx_e.pre, vx_k, utf8(t@), vx_e.at));
            assert(un8(utf8(t@)) == t@ && un8(name_of(b)) == ident_text(b));
        }
        assert forall|b: BrokerIdentifier| plain(b) && b != me && listed(vx_e.pre, b, vx_e.at) implies #[trigger] brokers_parsed@.contains(b) by {
            let t = choose|t: String| #[trigger] vx_o.contains(t) && utf8(t@) == name_of(b);
            assert(un8(utf8(t@)) == t@ && un8(name_of(b)) == ident_text(b));
            if t@ == ident_text(me) { lemma_text(b, me); }
            assert(vx_all0.contains(t));
        }
    }
@loop 0
    invariant
        forall|i: int| 0 <= i < $it.all().len() ==> member(vx_e.pre, vx_k, utf8((#[trigger] $it.all()[i])@), vx_e.at) && $it.all()[i]@ != ident_text(self.identifier),
        forall|b: BrokerIdentifier| #[trigger] brokers_parsed@.contains(b) ==> exists|i: int| 0 <= i < $it.pos() && b == who(utf8((#[trigger] $it.all()[i])@)),
        forall|i: int| 0 <= i < $it.pos() ==> brokers_parsed@.contains(who(utf8((#[trigger] $it.all()[i])@))),
#end
#fn Redis::get_with_least_connections
@ret r
@effects
@prop C27
@spec
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier,
        r matches Ok(b) ==> chosen(final(w).since(old(w)), b),
        r is Err ==> nobody(final(w).since(old(w))),
@local least_connections 1
@local broker_with_least_connections 1
@local total_broker_connections 1
@after ^let brokers
    let ghost vx_e = w.since(old(w))[0];
    let ghost vx_k = utf8("brokers"@);
    proof {
        assert(vx_e == w.trace().last());
        let c = Seq::<Bs>::empty().push(utf8("SMEMBERS"@)).push(vx_k);
        assert(c[0] == utf8("SMEMBERS"@) && c[1] == vx_k);
        assert(says(c, vx_e.pre, vx_e.at) == Reply::Many(members(vx_e.pre, vx_k, vx_e.at)));
        assert forall|m: Bs| #[trigger] member(vx_e.pre, vx_k, m, vx_e.at) implies exists|t: String| #[trigger] brokers@.contains(t) && utf8(t@) == m by { lemma_member(vx_e.pre, vx_k, m, vx_e.at); assert(says(c, vx_e.pre, vx_e.at)->Many_0.contains(m)); }
        assert forall|t: String| #[trigger] brokers@.contains(t) implies member(vx_e.pre, vx_k, utf8(t@), vx_e.at) by { lemma_member(vx_e.pre, vx_k, utf8(t@), vx_e.at); }
    }
@begin
    hide(act); hide(acts); hide(all_fine); hide(fine); hide(keeps_all); hide(load); hide(named); hide(World::grew); hide(World::since); hide(parsed); hide(plain); hide(lightest); hide(chosen);
    broadcast use vx_look;
    proof { lemma_names(); }
@beforeloop 0
    let ghost mut vx_l: Seq<int> = Seq::empty();
    let ghost mut vx_m: int = 0;
@loopstart 0
    let ghost vx_w = *w;
    let ghost vx_b = $it.all()[$it.pos() - 1];
    proof { assert(un8(utf8(vx_b@)) == vx_b@); }
@loopend 0
    proof {
        let r = w.since(&vx_w);
        assert(r.len() == 2 && r[1] == w.trace().last());
        assert(weighed(r, 0, utf8(vx_b@), total_broker_connections as int));
        lemma_weighed(vx_w.since(old(w)), w.since(old(w)), r, utf8(vx_b@), total_broker_connections as int);
        lemma_loads(vx_w.since(old(w)), w.since(old(w)), r, $it.all(), vx_l, $it.pos() - 1);
        vx_l = vx_l.push(total_broker_connections as int);
        if least_connections == total_broker_connections && broker_with_least_connections@ == vx_b@ { vx_m = $it.pos() - 1; }
    }
@afterloop 0
    proof {
        let s = w.since(old(w));
        let names = $it.all();
        assert forall|m: Bs| #[trigger] member(s[0].pre, utf8("brokers"@), m, s[0].at) implies exists|i: int| 0 <= i < names.len() && utf8((#[trigger] names[i])@) == m by {
            let t = choose|t: String| #[trigger] vx_all0.contains(t) && utf8(t@) == m;
            let i = choose|i: int| 0 <= i < names.len() && names[i] == t;
            assert(utf8(names[i]@) == m);
        }
        assert forall|i: int| 0 <= i < names.len() implies member(s[0].pre, utf8("brokers"@), utf8((#[trigger] names[i])@), s[0].at) by { assert(vx_all0.contains(names[i])); }
        let b = lemma_chosen(s, names, vx_l, vx_m, broker_with_least_connections@);
    }
@loop 0
    invariant
        w.grew(old(w)), keeps_all(w.since(old(w))), w.since(old(w)).len() > 0, w.since(old(w))[0] == vx_e, self.identifier == old(self).identifier,
        vx_l.len() == $it.pos(),
        forall|i: int| 0 <= i < $it.pos() ==> load(w.since(old(w)), utf8((#[trigger] $it.all()[i])@), vx_l[i]) && least_connections <= vx_l[i],
        $it.pos() == 0 ==> least_connections == u64::MAX,
        $it.pos() > 0 ==> 0 <= vx_m < $it.pos() && least_connections == vx_l[vx_m] && broker_with_least_connections@ == $it.all()[vx_m]@,
#end
#fn Redis::set_whitelist
@ret r
@params users
@effects
@prop C28
@spec
    ensures
        final(w).grew(old(w)), one(final(w).since(old(w))), final(w).since(old(w))[0].ok == (r is Ok),
        relists(final(w).since(old(w))[0], users@) || r is Err && keeps_all(final(w).since(old(w))),
@local pipeline 1
@begin
    broadcast use vx_redis;
    proof { lemma_names(); }
@loopstart 0
    let ghost vx_q = pipeline.cms();
@loopend 0
    proof {
        let u = users@[$it.pos() - 1];
        assert(pipeline.cms() == vx_q.push(whitelist_cmd(u)));
        assert(users@.take($it.pos() as int) =~= users@.take($it.pos() - 1).push(u));
        assert forall|d: Db, t: int| #[trigger] all_fine(pipeline.cms(), d, t) by { lemma_set_step(d, users@.take($it.pos() - 1), u, whitelist_cmd(u), t); assert(acts(vx_q, d, t) == relisted(d, users@.take($it.pos() - 1))); assert(all_fine(vx_q, d, t)); }
        assert forall|d: Db, t: int| #[trigger] acts(pipeline.cms(), d, t) == relisted(d, users@.take($it.pos() as int)) by { lemma_set_step(d, users@.take($it.pos() - 1), u, whitelist_cmd(u), t); assert(acts(vx_q, d, t) == relisted(d, users@.take($it.pos() - 1))); }
    }
@afterloop 0
    proof { assert(users@.take(users@.len() as int) =~= users@); }
@loop 0
    invariant
        $it.all() == users@,
        pipeline.whole(), kept(pipeline.cms()), pipeline.cms().len() > 0,
        forall|d: Db, t: int| #[trigger] all_fine(pipeline.cms(), d, t),
        forall|d: Db, t: int| #[trigger] acts(pipeline.cms(), d, t) == relisted(d, users@.take($it.pos() as int)),
#end
#fn Redis::check_whitelist
@ret r
@params user
@effects
@prop C28
@spec
    ensures
        final(w).grew(old(w)),
        r matches Ok(v) ==> verdict(final(w).since(old(w)), user@, v),
        r is Err ==> keeps_all(final(w).since(old(w))) && failed(final(w).since(old(w))),
@begin
    broadcast use vx_redis;
    proof { lemma_names(); }
#end
