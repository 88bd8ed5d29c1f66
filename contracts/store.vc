The discovery store in SQLite: permits, registered brokers, the whitelist (C24, C27, C28)
#include ident.vc
#sql
#rename try_into=vx_try_into
#rename deref=vx_deref
#effects now execute execute_in commit begin begin_with fetch_one fetch_all fetch_optional
#source cdn-proto/src/connection/mod.rs
#item type UserPublicKey
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier
#ddl cdn-proto/local_db/migrations.sql
#raw
pub broadcast axiom fn ax_str(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b;

// ---------- what the database holds
pub enum Tbl { brokers, permits, whitelist, sqlite_master }
pub enum Col { identifier, num_connections, expiry, permit, user_pubkey, user_public_key, name, r#type, count }
pub enum Val { Num(int), Txt(Seq<char>), Blob(Seq<u8>) }
pub type Row = Map<Col, Val>;
/// numbers are in thousand-millionths
pub spec const NANO: int = 1_000_000_000;
pub open spec fn lt(a: Val, b: Val) -> bool { match (a, b) { (Val::Num(x), Val::Num(y)) => x < y, _ => false } }
pub open spec fn no_row() -> Row { Map::empty() }
pub open spec fn tbl(s: Seq<char>) -> Tbl { if s == "permits"@ { Tbl::permits } else if s == "brokers"@ { Tbl::brokers } else if s == "whitelist"@ { Tbl::whitelist } else { Tbl::sqlite_master } }
/// the tables, as sets of rows
pub proof fn lemma_tables() ensures tbl("permits"@) == Tbl::permits, tbl("brokers"@) == Tbl::brokers, tbl("whitelist"@) == Tbl::whitelist, "permits"@ != "brokers"@ { reveal_strlit("permits"); reveal_strlit("brokers"); reveal_strlit("whitelist"); assert("permits"@.len() == 7 && "brokers"@.len() == 7 && "whitelist"@.len() == 9); assert("permits"@[0] != "brokers"@[0]); }
pub ghost struct Db { pub t: Map<Tbl, Set<Row>> }
impl Db {
    pub open spec fn has(self, t: Tbl, r: Row) -> bool { self.t[t].contains(r) }
    /// what the primary keys of the schema keep
    pub open spec fn keyed(self) -> bool { forall|t: Tbl, r: Row, q: Row| #![trigger self.has(t, r), self.has(t, q)] self.has(t, r) && self.has(t, q) && pk(t) is Some && r[pk(t)->0] == q[pk(t)->0] ==> r == q }
    /// every registered broker's name is an identifier's text
    pub open spec fn named(self) -> bool { forall|r: Row| #[trigger] self.has(Tbl::brokers, r) ==> row_named(r) }
}
pub open spec fn plain(b: BrokerIdentifier) -> bool { !b.public_advertise_endpoint@.contains('/') && !b.private_advertise_endpoint@.contains('/') }
pub open spec fn row_of(r: Row, b: BrokerIdentifier) -> bool { r[Col::identifier] == Val::Txt(ident_text(b)) }
/// whose row it is
pub open spec fn who(r: Row) -> BrokerIdentifier { choose|b: BrokerIdentifier| #[trigger] plain(b) && row_of(r, b) }
pub open spec fn row_named(r: Row) -> bool { plain(who(r)) && row_of(r, who(r)) && (r[Col::num_connections] matches Val::Num(n) && 0 <= n) }
pub broadcast proof fn lemma_named(b: BrokerIdentifier, r: Option<BrokerIdentifier>)
    requires #[trigger] plain(b), #[trigger] parsed(ident_text(b), r)
    ensures r == Some(b)
{ lemma_roundtrip(b, r); ax_str(r->0.public_advertise_endpoint, b.public_advertise_endpoint); ax_str(r->0.private_advertise_endpoint, b.private_advertise_endpoint); }
pub broadcast proof fn lemma_no_name(s: Seq<char>, r: Option<BrokerIdentifier>) requires #[trigger] parsed(s, r), s.len() == 0 ensures r is None { assert(pieces(s, '/').len() == 1); }
pub broadcast proof fn lemma_text(a: BrokerIdentifier, b: BrokerIdentifier)
    requires #[trigger] plain(a), #[trigger] plain(b), ident_text(a) == ident_text(b)
    ensures a == b
{
    lemma_pieces_two(a.public_advertise_endpoint@, a.private_advertise_endpoint@, '/'); lemma_pieces_two(b.public_advertise_endpoint@, b.private_advertise_endpoint@, '/');
    assert(pieces(ident_text(a), '/')[0] == a.public_advertise_endpoint@ && pieces(ident_text(b), '/')[0] == b.public_advertise_endpoint@);
    assert(pieces(ident_text(a), '/')[1] == a.private_advertise_endpoint@ && pieces(ident_text(b), '/')[1] == b.private_advertise_endpoint@);
    ax_str(a.public_advertise_endpoint, b.public_advertise_endpoint); ax_str(a.private_advertise_endpoint, b.private_advertise_endpoint);
}

// ---------- statements
pub ghost enum Sql {
    Delete(Tbl, spec_fn(Row, Seq<Val>) -> bool, bool),
    Insert(Tbl, bool, spec_fn(Seq<Val>) -> Row),
    Select(Tbl, spec_fn(Row, Seq<Val>) -> bool),
    Count(Tbl, spec_fn(Row, Seq<Val>) -> bool),
    Drop(Tbl, Seq<char>),
    /// with this primary key
    Create(Tbl, Seq<char>, Option<Col>),
    /// several rows, one from each list of values
    Fill(Tbl, spec_fn(Seq<Val>) -> Row, Seq<Seq<Val>>),
    /// a whole transaction
    Whole,
}
/// the entry of a table in the catalogue
pub open spec fn is_table(r: Row, n: Seq<char>) -> bool { r[Col::r#type] == Val::Txt("table"@) && r[Col::name] == Val::Txt(n) }
pub open spec fn table_row(n: Seq<char>) -> Row { no_row().insert(Col::r#type, Val::Txt("table"@)).insert(Col::name, Val::Txt(n)) }
pub open spec fn hits(t: Tbl, c: spec_fn(Row, Seq<Val>) -> bool, b: Seq<Val>, d: Db) -> Set<Row> { d.t[t].filter(|r: Row| c(r, b)) }
pub open spec fn filled(f: spec_fn(Seq<Val>) -> Row, rows: Seq<Seq<Val>>, r: Row) -> bool { exists|i: int| 0 <= i < rows.len() && r == f(#[trigger] rows[i]) }
/// what a statement does to the database d
pub open spec fn effect(s: Sql, b: Seq<Val>, d: Db, e: Db) -> bool {
    match s {
        Sql::Delete(t, c, _) => forall|u: Tbl, r: Row| #![trigger e.has(u, r)] #![trigger d.has(u, r)] e.has(u, r) <==> d.has(u, r) && !(u == t && c(r, b)),
        Sql::Insert(t, rep, f) => {
            let n = f(b);
            let k = pk(t);
            &&& e.has(t, n)
            &&& forall|u: Tbl, r: Row| #![trigger e.has(u, r)] #![trigger d.has(u, r)] e.has(u, r) <==> u == t && r == n || d.has(u, r) && !(u == t && rep && k is Some && r[k->0] == n[k->0])
            &&& k is Some && !rep ==> forall|r: Row| #[trigger] d.has(t, r) ==> r[k->0] != n[k->0]
        }
        Sql::Select(_, _) | Sql::Count(_, _) => e == d,
        Sql::Drop(t, n) => forall|u: Tbl, r: Row| #![trigger e.has(u, r)] #![trigger d.has(u, r)] e.has(u, r) <==> d.has(u, r) && u != t && !(u == Tbl::sqlite_master && is_table(r, n)),
        Sql::Create(t, n, _) => (exists|r: Row| #[trigger] e.has(Tbl::sqlite_master, r) && is_table(r, n)) && forall|u: Tbl, r: Row| #![trigger e.has(u, r)] #![trigger d.has(u, r)] e.has(u, r) <==> d.has(u, r) || u == Tbl::sqlite_master && r == table_row(n) && e.has(u, r),
        Sql::Fill(t, f, rows) => forall|u: Tbl, r: Row| #![trigger e.has(u, r)] #![trigger d.has(u, r)] e.has(u, r) <==> d.has(u, r) || u == t && filled(f, rows, r),
        Sql::Whole => true,
    }
}
/// the rows a statement answers with
pub open spec fn answers(s: Sql, b: Seq<Val>, d: Db, r: Row) -> bool {
    match s {
        Sql::Delete(t, c, ret) => ret && d.has(t, r) && c(r, b),
        Sql::Select(t, c) => d.has(t, r) && c(r, b),
        Sql::Count(t, c) => r == no_row().insert(Col::count, Val::Num(hits(t, c, b, d).len() * NANO)),
        _ => false,
    }
}
pub open spec fn silent(s: Sql, b: Seq<Val>, d: Db) -> bool {
    match s {
        Sql::Delete(t, c, ret) => !ret || forall|r: Row| #[trigger] d.has(t, r) ==> !c(r, b),
        Sql::Select(t, c) => forall|r: Row| #[trigger] d.has(t, r) ==> !c(r, b),
        Sql::Count(_, _) => false,
        _ => true,
    }
}

// ---------- what was done, in order
pub ghost enum Ev {
    /// the clock was read
    Clock(int),
    /// one statement, which the database runs as a whole
    Stmt(Run),
}
/// what ran, on which database, what it left, when, and whether it worked
pub ghost struct Run { pub q: VxQ, pub pre: Db, pub post: Db, pub at: int, pub ok: bool }
pub open spec fn run(e: Ev) -> Run { match e { Ev::Stmt(r) => r, _ => arbitrary() } }
pub open spec fn bef(e: Ev, t: Tbl, r: Row) -> bool { run(e).pre.has(t, r) }
pub open spec fn aft(e: Ev, t: Tbl, r: Row) -> bool { run(e).post.has(t, r) }
#[verifier::external_body]
pub struct World { x: () }
pub open spec fn tail(s: Seq<Ev>, n: nat) -> Seq<Ev> { s.subrange(n as int, s.len() as int) }
impl World {
    pub uninterp spec fn trace(&self) -> Seq<Ev>;
    /// nanoseconds since the epoch
    pub uninterp spec fn time(&self) -> int;
    pub open spec fn did(&self, o: &World, e: Ev) -> bool { self.trace() == o.trace().push(e) && o.time() <= self.time() && self.grew(o) && self.since(o) == seq![e] }
    pub open spec fn grew(&self, o: &World) -> bool { o.trace().len() <= self.trace().len() && self.trace() =~= o.trace() + tail(self.trace(), o.trace().len()) && o.time() <= self.time() }
    pub open spec fn since(&self, o: &World) -> Seq<Ev> { tail(self.trace(), o.trace().len()) }
    pub open spec fn idled(&self, o: &World) -> bool { self.trace() == o.trace() && o.time() <= self.time() && self.grew(o) && self.since(o) == Seq::<Ev>::empty() }
    /// one more transaction
    pub open spec fn committed(&self, o: &World, q: Seq<VxQ>, ok: bool) -> bool {
        let e = self.trace().last();
        let r = run(e);
        &&& self.did(o, e) && e is Stmt && r.q.sql is Whole && r.ok == ok && o.time() <= r.at <= self.time() && r.pre.keyed() && r.pre.named()
        &&& ok ==> effects(q, r.pre, r.post)
        &&& !ok ==> r.pre == r.post || effects(q, r.pre, r.post)
    }
    /// one more statement
    pub open spec fn ran(&self, o: &World, q: VxQ, ok: bool) -> bool {
        let e = self.trace().last();
        let r = run(e);
        &&& self.did(o, e) && e is Stmt && r.q == q && r.ok == ok && o.time() <= r.at <= self.time() && r.pre.keyed() && r.pre.named()
        &&& ok ==> effect(q.sql, q.binds, r.pre, r.post)
        &&& !ok ==> r.pre == r.post || effect(q.sql, q.binds, r.pre, r.post)
    }
    pub open spec fn before(&self) -> Db { run(self.trace().last()).pre }
}
pub broadcast proof fn lemma_tail_push(s: Seq<Ev>, e: Ev, n: nat)
    requires n <= s.len()
    ensures #[trigger] tail(s.push(e), n) == tail(s, n).push(e)
{ assert(tail(s.push(e), n) =~= tail(s, n).push(e)); }
pub broadcast proof fn lemma_self(w: World) ensures #[trigger] w.since(&w) == Seq::<Ev>::empty() { }
pub broadcast proof fn lemma_cat_one(a: Seq<Ev>, e: Ev) ensures #[trigger] (a + seq![e]) == a.push(e), a.push(e).drop_last() == a, a.push(e).last() == e { assert(a + seq![e] =~= a.push(e)); assert(a.push(e).drop_last() =~= a); }
pub broadcast proof fn lemma_since(w0: World, w1: World, w2: World)
    requires #[trigger] w1.grew(&w0), #[trigger] w2.grew(&w1)
    ensures w2.grew(&w0), w2.since(&w0) == w1.since(&w0) + w2.since(&w1)
{ assert(w2.since(&w0) =~= w1.since(&w0) + w2.since(&w1)); assert(w2.trace() =~= w0.trace() + w2.since(&w0)); }

pub broadcast proof fn lemma_forget_push(s: Seq<Ev>, e: Ev)
    ensures #[trigger] all_forget(s.push(e)) == (all_forget(s) && forgets(e)), s.push(e).last() == e, s.push(e).drop_last() == s
{ assert(s.push(e).drop_last() =~= s); assert(s.push(e)[s.len() as int] == e); assert forall|i: int| 0 <= i < s.len() implies s.push(e)[i] == s[i] by {} if all_forget(s.push(e)) { assert forall|i: int| 0 <= i < s.len() implies forgets(#[trigger] s[i]) by { assert(forgets(s.push(e)[i])); } } }
pub broadcast proof fn lemma_forget_cat(a: Seq<Ev>, b: Seq<Ev>)
    ensures #[trigger] all_forget(a + b) == (all_forget(a) && all_forget(b))
{
    if all_forget(a + b) { assert forall|i: int| 0 <= i < a.len() implies forgets(#[trigger] a[i]) by { assert(forgets((a + b)[i])); } assert forall|i: int| 0 <= i < b.len() implies forgets(#[trigger] b[i]) by { assert(forgets((a + b)[i + a.len()])); } }
}

pub open spec fn step(q: VxQ, d: Db, e: Db) -> bool { effect(q.sql, q.binds, d, e) }
/// several statements, one after the other
pub open spec fn effects(q: Seq<VxQ>, d: Db, e: Db) -> bool decreases q.len() {
    if q.len() == 0 { e == d } else { exists|m: Db| effects(q.drop_last(), d, m) && #[trigger] step(q.last(), m, e) }
}
pub proof fn lemma_effects(q: Seq<VxQ>, d: Db, e: Db)
    requires effects(q, d, e), q.len() == 3
    ensures exists|m: Db, n: Db| #[trigger] step(q[0], d, m) && #[trigger] step(q[1], m, n) && step(q[2], n, e)
{
    let n = choose|n: Db| effects(q.drop_last(), d, n) && #[trigger] step(q.last(), n, e);
    let q2 = q.drop_last();
    let m = choose|m: Db| effects(q2.drop_last(), d, m) && #[trigger] step(q2.last(), m, n);
    let q1 = q2.drop_last();
    let o = choose|o: Db| effects(q1.drop_last(), d, o) && #[trigger] step(q1.last(), o, m);
    assert(q1.drop_last().len() == 0 && o == d);
    assert(step(q[0], d, m) && step(q[1], m, n) && step(q[2], n, e));
}

// ---------- the database client (sqlx)
#[verifier::external_body]
pub struct SqlitePool { x: () }
impl Clone for SqlitePool { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct SqlxError { x: () }
#[verifier::external_body]
pub struct SqliteQueryResult { x: () }
pub type SqlxResult<T> = core::result::Result<T, SqlxError>;
pub trait VxVal { spec fn val(&self) -> Val; }
impl VxVal for u32 { open spec fn val(&self) -> Val { Val::Num(*self as int * NANO) } }
impl VxVal for i64 { open spec fn val(&self) -> Val { Val::Num(*self as int * NANO) } }
impl VxVal for u64 { open spec fn val(&self) -> Val { Val::Num(*self as int * NANO) } }
impl VxVal for f64 { open spec fn val(&self) -> Val { Val::Num(f64_nanos(*self)) } }
impl VxVal for String { open spec fn val(&self) -> Val { Val::Txt(self@) } }
impl VxVal for str { open spec fn val(&self) -> Val { Val::Txt(self@) } }
impl VxVal for Vec<u8> { open spec fn val(&self) -> Val { Val::Blob(self@) } }
impl VxVal for [u8] { open spec fn val(&self) -> Val { Val::Blob(self@) } }
impl<'a, T: VxVal + ?Sized> VxVal for &'a T { open spec fn val(&self) -> Val { (**self).val() } }
pub open spec fn vx_val<T: VxVal>(x: T) -> Val { x.val() }
pub ghost struct VxQ { pub sql: Sql, pub binds: Seq<Val> }
#[verifier::external_body]
pub struct Query { x: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct QueryAs<T> { x: PhantomData<T> }
#[verifier::external_body]
pub struct SqliteRow { x: () }
impl SqliteRow {
    pub uninterp spec fn row(&self) -> Row;
    #[verifier::external_body]
    pub fn vx_get<T: VxVal>(&self, c: Ghost<Col>) -> (r: T) ensures r.val() == self.row()[c@] { unimplemented!() }
    /// by position: only the one column of a count has a position here
    #[verifier::external_body]
    pub fn vx_get_at<T: VxVal>(&self, c: Ghost<int>) -> (r: T) ensures c@ == 0 && self.row() =~= no_row().insert(Col::count, self.row()[Col::count]) ==> r.val() == self.row()[Col::count] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_query(s: Ghost<Sql>) -> (r: Query) ensures r.q() == (VxQ { sql: s@, binds: Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_query_as<T: FromRow>(s: Ghost<Sql>) -> (r: QueryAs<T>) ensures r.q() == (VxQ { sql: s@, binds: Seq::empty() }) { unimplemented!() }
/// what is written names brokers by identifiers' texts
pub open spec fn keeps(q: VxQ) -> bool { q.sql matches Sql::Insert(Tbl::brokers, _, f) ==> row_named(f(q.binds)) }
impl Query {
    pub uninterp spec fn q(&self) -> VxQ;
    #[verifier::external_body]
    pub fn bind<T: VxVal>(self, x: T) -> (r: Query) ensures r.q() == (VxQ { sql: self.q().sql, binds: self.q().binds.push(x.val()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn execute(self, p: &SqlitePool, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<SqliteQueryResult>) requires keeps(self.q()) ensures final(w).ran(old(w), self.q(), r is Ok) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_optional(self, p: &SqlitePool, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<Option<SqliteRow>>) requires keeps(self.q())
        ensures final(w).ran(old(w), self.q(), r is Ok),
            r matches Ok(Some(x)) ==> answers(self.q().sql, self.q().binds, run(final(w).trace().last()).pre, x.row()),
            r matches Ok(None) ==> silent(self.q().sql, self.q().binds, run(final(w).trace().last()).pre)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_one(self, p: &SqlitePool, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<SqliteRow>) requires keeps(self.q()), self.q().sql is Count
        ensures final(w).ran(old(w), self.q(), r is Ok),
            r matches Ok(x) ==> answers(self.q().sql, self.q().binds, run(final(w).trace().last()).pre, x.row()),
    { unimplemented!() }
}
/// a statement text of several statements, and the rows appended to its last
#[verifier::external_body]
pub struct QueryBuilder { x: () }
#[verifier::external_body]
pub struct VxTuple { x: () }
#[verifier::external_body]
pub struct Batch { x: () }
impl VxTuple {
    pub uninterp spec fn vals(&self) -> Seq<Val>;
    #[verifier::external_body]
    pub fn push_bind<T: VxVal>(&mut self, x: T) ensures final(self).vals() == old(self).vals().push(x.val()) { unimplemented!() }
}
pub open spec fn with_rows(q: Seq<Sql>, rows: Seq<Seq<Val>>) -> Seq<Sql> { match q.last() { Sql::Fill(t, f, _) => q.drop_last().push(Sql::Fill(t, f, rows)), _ => arbitrary() } }
#[verifier::external_body]
pub fn vx_query_builder(s: Ghost<Seq<Sql>>) -> (r: QueryBuilder) ensures r.sqls() == s@, r.rows() == Seq::<Seq<Val>>::empty() { unimplemented!() }
impl QueryBuilder {
    pub uninterp spec fn sqls(&self) -> Seq<Sql>;
    pub uninterp spec fn rows(&self) -> Seq<Seq<Val>>;
    #[verifier::external_body]
    pub fn vx_row(&self) -> (r: VxTuple) ensures r.vals() == Seq::<Val>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_row_done(&mut self, t: VxTuple) ensures final(self).sqls() == old(self).sqls(), final(self).rows() == old(self).rows().push(t.vals()) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(&mut self) -> (r: Batch) ensures r.sqls() == with_rows(old(self).sqls(), old(self).rows()), *final(self) == *old(self) { unimplemented!() }
}
pub open spec fn unbound(s: Seq<Sql>) -> Seq<VxQ> { Seq::new(s.len(), |i: int| VxQ { sql: s[i], binds: Seq::empty() }) }
impl Batch {
    pub uninterp spec fn sqls(&self) -> Seq<Sql>;
    /// outside of a transaction: each statement on its own, as far as they get
    #[verifier::external_body]
    pub fn execute(self, p: &SqlitePool, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<SqliteQueryResult>) ensures final(w).grew(old(w)), final(w).since(old(w)).len() <= self.sqls().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn execute_in(self, p: &mut Transaction, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<SqliteQueryResult>) ensures final(w).idled(old(w)), r is Ok ==> final(p).todo() == old(p).todo() + unbound(self.sqls()) { unimplemented!() }
}
/// what a transaction does is seen when it is committed, and not at all if it is dropped
#[verifier::external_body]
pub struct Transaction { x: () }
impl Transaction {
    pub uninterp spec fn todo(&self) -> Seq<VxQ>;
    #[verifier::external_body]
    pub fn commit(self, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<()>) ensures final(w).committed(old(w), self.todo(), r is Ok) { unimplemented!() }
    #[verifier::external_body]
    pub fn rollback(self) -> (r: SqlxResult<()>) { unimplemented!() }
}
impl SqlitePool {
    #[verifier::external_body]
    pub fn begin(&self, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<Transaction>) ensures final(w).idled(old(w)), r matches Ok(t) ==> t.todo() == Seq::<VxQ>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn begin_with(&self, s: &str, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<Transaction>) ensures final(w).idled(old(w)), r matches Ok(t) ==> t.todo() == Seq::<VxQ>::empty() { unimplemented!() }
}
/// how a struct is read from a row
pub trait FromRow: Sized { spec fn of(&self) -> Row; }
impl<T: FromRow> QueryAs<T> {
    pub uninterp spec fn q(&self) -> VxQ;
    #[verifier::external_body]
    pub fn bind<V: VxVal>(self, x: V) -> (r: QueryAs<T>) ensures r.q() == (VxQ { sql: self.q().sql, binds: self.q().binds.push(x.val()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_all(self, p: &SqlitePool, Tracked(w): Tracked<&mut World>) -> (r: SqlxResult<Vec<T>>) requires self.q().sql is Select
        ensures final(w).ran(old(w), self.q(), r is Ok),
            r matches Ok(v) ==> ({
                &&& forall|i: int| 0 <= i < v@.len() ==> answers(self.q().sql, self.q().binds, run(final(w).trace().last()).pre, (#[trigger] v@[i]).of())
                &&& self.q().sql matches Sql::Select(t, c) ==> forall|x: Row| #[trigger] run(final(w).trace().last()).pre.has(t, x) && c(x, self.q().binds) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).of() == x
                &&& forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() && i != j ==> (#[trigger] v@[i]).of() != (#[trigger] v@[j]).of() })
    { unimplemented!() }
}
// ---------- time
pub uninterp spec fn f64_nanos(x: f64) -> int;
#[verifier::external_body]
pub struct Duration { x: () }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
impl Duration {
    pub uninterp spec fn nanos(&self) -> int;
    #[verifier::external_body]
    pub fn as_secs_f64(&self) -> (r: f64) ensures f64_nanos(r) == self.nanos() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.nanos() / NANO { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.nanos() / 1_000_000 { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Duration {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Duration) -> bool { true }
    open spec fn add_spec(self, o: Duration) -> Duration { dur(self.nanos() + o.nanos()) }
}
pub uninterp spec fn dur(n: int) -> Duration;
pub broadcast axiom fn ax_dur(n: int) ensures (#[trigger] dur(n)).nanos() == n;
impl core::ops::Add<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn add(self, o: Duration) -> (r: Duration) { unimplemented!() } }
#[verifier::external_body]
pub struct SystemTime { x: () }
#[verifier::external_body]
pub struct SystemTimeError { x: () }
impl Clone for SystemTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for SystemTime {}
impl SystemTime {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn now(Tracked(w): Tracked<&mut World>) -> (r: SystemTime) ensures final(w).did(old(w), Ev::Clock(r.at())), old(w).time() <= r.at() <= final(w).time(), 0 <= r.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: SystemTime) -> (r: core::result::Result<Duration, SystemTimeError>) ensures self.at() >= o.at() ==> r is Ok, r matches Ok(d) ==> d.nanos() == self.at() - o.at() { unimplemented!() }
}
#[verifier::external_body]
pub exec const UNIX_EPOCH: SystemTime ensures UNIX_EPOCH.at() == 0 { SystemTime { x: () } }
/// randomness: any number
#[verifier::external_body]
pub struct StdRng { x: () }
impl StdRng {
    #[verifier::external_body] pub fn from_entropy() -> StdRng { unimplemented!() }
    #[verifier::external_body] pub fn next_u32(&mut self) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn next_u64(&mut self) -> u64 { unimplemented!() }
}

// ---------- the guarantees
/// r had run out at t
pub open spec fn out(r: Row, t: int) -> bool { lt(r[Col::expiry], Val::Num(t)) }
/// a statement that only forgets what has run out
pub open spec fn forgets(e: Ev) -> bool {
    e is Stmt ==> {
        &&& forall|t: Tbl, r: Row| #[trigger] aft(e, t, r) ==> bef(e, t, r)
        &&& forall|t: Tbl, r: Row| #[trigger] bef(e, t, r) ==> aft(e, t, r) || t != Tbl::whitelist && t != Tbl::sqlite_master && out(r, run(e).at)
    }
}
pub open spec fn all_forget(s: Seq<Ev>) -> bool { forall|i: int| 0 <= i < s.len() ==> forgets(#[trigger] s[i]) }
pub open spec fn failed(s: Seq<Ev>) -> bool { s.len() > 0 && s.last() is Stmt && !run(s.last()).ok }
/// r had not run out at t0, unless it was stored later than that
pub open spec fn fresh(s: Seq<Ev>, t: Tbl, r: Row, t0: int) -> bool { !out(r, t0) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Stmt && !aft(s[i], t, r) }
/// what had run out at t0 was gone at some moment
pub open spec fn cleared(s: Seq<Ev>, t: Tbl, t0: int) -> bool { some(s, clearing(t, t0)) }
pub open spec fn clearing(t: Tbl, t0: int) -> spec_fn(Ev) -> bool { |e: Ev| clears(e, t, t0) }
pub open spec fn clears(e: Ev, t: Tbl, t0: int) -> bool { e is Stmt && forall|r: Row| #[trigger] aft(e, t, r) ==> !out(r, t0) }
/// one of these was such
pub open spec fn some(s: Seq<Ev>, p: spec_fn(Ev) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) }
pub broadcast proof fn lemma_some_push(s: Seq<Ev>, e: Ev, p: spec_fn(Ev) -> bool)
    ensures #[trigger] some(s.push(e), p) == (some(s, p) || p(e))
{
    assert(s.push(e)[s.len() as int] == e);
    if some(s.push(e), p) && !p(e) { let i = choose|i: int| 0 <= i < s.push(e).len() && p(#[trigger] s.push(e)[i]); assert(s[i] == s.push(e)[i]); }
    if some(s, p) { let i = choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]); assert(s[i] == s.push(e)[i]); }
}
pub broadcast proof fn lemma_some_cat(a: Seq<Ev>, b: Seq<Ev>, p: spec_fn(Ev) -> bool)
    ensures #[trigger] some(a + b, p) == (some(a, p) || some(b, p))
{
    if some(a + b, p) { let i = choose|i: int| 0 <= i < (a + b).len() && p(#[trigger] (a + b)[i]); if i < a.len() { assert(a[i] == (a + b)[i]); } else { assert(b[i - a.len()] == (a + b)[i]); } }
    if some(a, p) { let i = choose|i: int| 0 <= i < a.len() && p(#[trigger] a[i]); assert(a[i] == (a + b)[i]); }
    if some(b, p) { let i = choose|i: int| 0 <= i < b.len() && p(#[trigger] b[i]); assert(b[i] == (a + b)[i + a.len()]); }
}
pub broadcast proof fn lemma_cleared(s: Seq<Ev>, t: Tbl, t0: int, t1: int)
    requires #[trigger] cleared(s, t, t1), t0 <= t1
    ensures #[trigger] cleared(s, t, t0)
{ let i = choose|i: int| 0 <= i < s.len() && clearing(t, t1)(#[trigger] s[i]); assert(clearing(t, t0)(s[i])); }
pub broadcast proof fn lemma_some_one(e: Ev, p: spec_fn(Ev) -> bool) ensures #[trigger] some(seq![e], p) == p(e) { assert(seq![e][0] == e); }
pub broadcast proof fn lemma_fresh(s: Seq<Ev>, t: Tbl, r: Row, t0: int)
    requires cleared(s, t, t0)
    ensures #[trigger] fresh(s, t, r, t0)
{ let i = choose|i: int| 0 <= i < s.len() && clearing(t, t0)(#[trigger] s[i]); if out(r, t0) { assert(!aft(s[i], t, r)); } }

// ---------- permits (C24)
pub open spec fn same_permit(r: Row, b: BrokerIdentifier, permit: u64) -> bool { r[Col::identifier] == Val::Txt(ident_text(b)) && r[Col::permit] == Val::Num(permit * NANO) }
/// one statement takes this permit, and nothing else
pub open spec fn takes(e: Ev, b: BrokerIdentifier, permit: u64, r: Row) -> bool {
    &&& e is Stmt && same_permit(r, b, permit) && bef(e, Tbl::permits, r) && !aft(e, Tbl::permits, r)
    &&& forall|t: Tbl, q: Row| #[trigger] aft(e, t, q) ==> bef(e, t, q)
    &&& forall|t: Tbl, q: Row| #[trigger] bef(e, t, q) && !(t == Tbl::permits && q == r) ==> aft(e, t, q)
}
/// no such permit that is still good
pub open spec fn missing(e: Ev, b: BrokerIdentifier, permit: u64) -> bool { e is Stmt && forall|r: Row| #[trigger] bef(e, Tbl::permits, r) && same_permit(r, b, permit) ==> out(r, run(e).at) }
pub open spec fn redeemed(s: Seq<Ev>, b: BrokerIdentifier, permit: u64, key: Seq<u8>, t0: int) -> bool {
    s.len() > 0 && all_forget(s.drop_last()) && exists|r: Row| #[trigger] run(s.last()).pre.has(Tbl::permits, r) && takes(s.last(), b, permit, r) && r[Col::user_pubkey] == Val::Blob(key) && fresh(s.drop_last(), Tbl::permits, r, t0)
}
pub open spec fn unredeemed(s: Seq<Ev>, b: BrokerIdentifier, permit: u64) -> bool { s.len() > 0 && all_forget(s) && missing(s.last(), b, permit) }
pub open spec fn loses(e: Ev, b: BrokerIdentifier, permit: u64) -> bool {
    e is Stmt ==> {
        &&& forall|t: Tbl, q: Row| #[trigger] aft(e, t, q) ==> bef(e, t, q)
        &&& forall|t: Tbl, q: Row| #[trigger] bef(e, t, q) ==> aft(e, t, q) || t == Tbl::permits && same_permit(q, b, permit) || t != Tbl::whitelist && t != Tbl::sqlite_master && out(q, run(e).at)
    }
}
/// nothing but this permit can have been lost, and only to a failing database
pub open spec fn spoiled(s: Seq<Ev>, b: BrokerIdentifier, permit: u64) -> bool {
    (all_forget(s) && permit > u32::MAX) || (failed(s) && all_forget(s.drop_last()) && loses(s.last(), b, permit))
}
/// one statement stores the permit, whose number nobody holds
pub open spec fn stores(e: Ev, b: BrokerIdentifier, permit: u64, key: Seq<u8>, life: int, t0: int, r: Row) -> bool {
    &&& e is Stmt && aft(e, Tbl::permits, r) && same_permit(r, b, permit) && r[Col::user_pubkey] == Val::Blob(key) && (r[Col::expiry] matches Val::Num(x) && t0 + life <= x <= run(e).at + life)
    &&& forall|t: Tbl, q: Row| #[trigger] aft(e, t, q) ==> bef(e, t, q) || t == Tbl::permits && q == r
    &&& forall|t: Tbl, q: Row| #[trigger] bef(e, t, q) ==> aft(e, t, q)
    &&& forall|q: Row| #[trigger] bef(e, Tbl::permits, q) ==> q[Col::permit] != r[Col::permit]
}
pub open spec fn issued(s: Seq<Ev>, b: BrokerIdentifier, permit: u64, key: Seq<u8>, life: int, t0: int) -> bool {
    s.len() > 0 && all_forget(s.drop_last()) && exists|r: Row| #[trigger] run(s.last()).post.has(Tbl::permits, r) && stores(s.last(), b, permit, key, life, t0, r)
}

/// permits appear only by being issued
pub open spec fn lawful(e: Ev) -> bool { forall|r: Row| #[trigger] aft(e, Tbl::permits, r) && !bef(e, Tbl::permits, r) ==> issues(e, r) }
pub open spec fn issues(e: Ev, r: Row) -> bool { exists|b: BrokerIdentifier, permit: u64, key: Seq<u8>, life: int, t0: int| #[trigger] stores(e, b, permit, key, life, t0, r) }
/// every statement these functions run is lawful
pub proof fn lemma_lawful(e: Ev, b: BrokerIdentifier, permit: u64, us: Seq<UserPublicKey>)
    requires e is Stmt, forgets(e) || loses(e, b, permit) || tends(e, b) || relists(e, us) || run(e).pre == run(e).post || (exists|r: Row| takes(e, b, permit, r)) || (exists|key: Seq<u8>, life: int, t0: int, r: Row| stores(e, b, permit, key, life, t0, r))
    ensures lawful(e)
{
    if exists|key: Seq<u8>, life: int, t0: int, r: Row| stores(e, b, permit, key, life, t0, r) {
        let (key, life, t0, r) = choose|key: Seq<u8>, life: int, t0: int, r: Row| stores(e, b, permit, key, life, t0, r);
        assert(stores(e, b, permit, key, life, t0, r));
        assert forall|q: Row| #[trigger] aft(e, Tbl::permits, q) && !bef(e, Tbl::permits, q) implies issues(e, q) by { assert(q == r); }
    }
}
/// a history of the database: what one statement leaves, the next one finds
pub open spec fn linear(h: Seq<Ev>) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]) is Stmt && lawful(h[i]) && run(h[i]).pre.keyed() && (i > 0 ==> run(h[i]).pre == run(h[i - 1]).post) }
/// if a permit number is not held after h[i] but before h[j], it was issued in between
pub proof fn lemma_issued_between(h: Seq<Ev>, i: int, j: int, r: Row)
    requires linear(h), 0 <= i < j < h.len(), !aft(h[i], Tbl::permits, r), bef(h[j], Tbl::permits, r)
    ensures exists|k: int| i < k < j && issues(#[trigger] h[k], r)
    decreases j - i
{
    let q = h[j - 1];
    assert(run(h[j]).pre == run(h[j - 1]).post);
    assert(aft(q, Tbl::permits, r));
    if j - 1 == i { } else if bef(q, Tbl::permits, r) { lemma_issued_between(h, i, j - 1, r); let k = choose|k: int| i < k < j - 1 && issues(#[trigger] h[k], r); assert(i < k < j && issues(h[k], r)); } else { assert(lawful(q)); assert(issues(h[j - 1], r)); }
}
/// the guarantee over any history: a permit taken twice was issued again in between (so each issue is redeemed at most once)
pub proof fn lemma_once(h: Seq<Ev>, i: int, j: int, b: BrokerIdentifier, permit: u64, r: Row, c: BrokerIdentifier, q: Row)
    requires linear(h), 0 <= i < j < h.len(), takes(h[i], b, permit, r), takes(h[j], c, permit, q), pk(Tbl::permits) == Some(Col::permit)
    ensures exists|k: int| i < k < j && issues(#[trigger] h[k], q)
{
    if aft(h[i], Tbl::permits, q) { assert(bef(h[i], Tbl::permits, q)); assert(run(h[i]).pre.has(Tbl::permits, r) && run(h[i]).pre.has(Tbl::permits, q)); assert(q == r); }
    lemma_issued_between(h, i, j, q);
}
pub proof fn lemma_key_of_permits() ensures pk(Tbl::permits) == Some(Col::permit) { }
/// the guarantee over any history: while nobody replaces the list, exactly its users are let through
pub open spec fn keeps_list(e: Ev) -> bool { e is Stmt && (forall|r: Row| #[trigger] aft(e, Tbl::whitelist, r) <==> bef(e, Tbl::whitelist, r)) && (forall|r: Row| #[trigger] aft(e, Tbl::sqlite_master, r) <==> bef(e, Tbl::sqlite_master, r)) }
pub proof fn lemma_keeps_list(e: Ev, b: BrokerIdentifier, permit: u64)
    requires e is Stmt, forgets(e) || loses(e, b, permit) || tends(e, b) || run(e).pre == run(e).post || (exists|r: Row| takes(e, b, permit, r)) || (exists|key: Seq<u8>, life: int, t0: int, r: Row| stores(e, b, permit, key, life, t0, r))
    ensures keeps_list(e)
{ }
pub proof fn lemma_list_kept(h: Seq<Ev>, i: int, j: int)
    requires linear(h), 0 <= i < j < h.len(), forall|k: int| i < k < j ==> keeps_list(#[trigger] h[k])
    ensures forall|r: Row| #[trigger] bef(h[j], Tbl::whitelist, r) <==> aft(h[i], Tbl::whitelist, r), forall|r: Row| #[trigger] bef(h[j], Tbl::sqlite_master, r) <==> aft(h[i], Tbl::sqlite_master, r)
    decreases j - i
{
    assert(run(h[j]).pre == run(h[j - 1]).post);
    if j - 1 > i { lemma_list_kept(h, i, j - 1); assert(keeps_list(h[j - 1])); assert forall|r: Row| #[trigger] bef(h[j], Tbl::whitelist, r) <==> aft(h[i], Tbl::whitelist, r) by { assert(aft(h[j - 1], Tbl::whitelist, r) <==> bef(h[j - 1], Tbl::whitelist, r)); } assert forall|r: Row| #[trigger] bef(h[j], Tbl::sqlite_master, r) <==> aft(h[i], Tbl::sqlite_master, r) by { assert(aft(h[j - 1], Tbl::sqlite_master, r) <==> bef(h[j - 1], Tbl::sqlite_master, r)); } }
}
/// set_whitelist at i, check_whitelist's two looks at j and k: it says whether the user is on that list
pub proof fn lemma_list(h: Seq<Ev>, i: int, j: int, k: int, us: Seq<UserPublicKey>, u: Seq<u8>, ok: bool)
    requires linear(h), 0 <= i < j <= k < h.len(), relists(h[i], us), forall|x: int| i < x < k ==> keeps_list(#[trigger] h[x]),
        ok ==> (j == k && no_list(h[j])) || on_list(h[k], u), !ok ==> !on_list(h[k], u)
    ensures ok <==> exists|x: int| 0 <= x < us.len() && #[trigger] us[x]@ == u
{
    lemma_list_kept(h, i, j);
    lemma_list_kept(h, i, k);
    let m = choose|m: Row| #[trigger] run(h[i]).post.has(Tbl::sqlite_master, m) && is_table(m, "whitelist"@);
    assert(aft(h[i], Tbl::sqlite_master, m) && bef(h[j], Tbl::sqlite_master, m));
    assert(run(h[j]).pre.has(Tbl::sqlite_master, m));
    assert(!no_list(h[j]));
    if on_list(h[k], u) { let r = choose|r: Row| #[trigger] run(h[k]).pre.has(Tbl::whitelist, r) && r[Col::user_public_key] == Val::Blob(u); assert(bef(h[k], Tbl::whitelist, r) && aft(h[i], Tbl::whitelist, r)); let x = choose|x: int| 0 <= x < us.len() && r == user_row(#[trigger] us[x]); assert(us[x]@ == u); }
    if exists|x: int| 0 <= x < us.len() && #[trigger] us[x]@ == u { let x = choose|x: int| 0 <= x < us.len() && #[trigger] us[x]@ == u; let r = user_row(us[x]); assert(aft(h[i], Tbl::whitelist, r)); assert(bef(h[k], Tbl::whitelist, r)); assert(run(h[k]).pre.has(Tbl::whitelist, r)); }
}

// ---------- the register of brokers (C27)
/// one statement replaces this broker's entry, and no other
pub open spec fn tends(e: Ev, b: BrokerIdentifier) -> bool {
    e is Stmt ==> {
        &&& forall|t: Tbl, q: Row| #[trigger] aft(e, t, q) ==> bef(e, t, q) || t == Tbl::brokers && row_of(q, b)
        &&& forall|t: Tbl, q: Row| #[trigger] bef(e, t, q) ==> aft(e, t, q) || t == Tbl::brokers && row_of(q, b) || t != Tbl::whitelist && t != Tbl::sqlite_master && out(q, run(e).at)
    }
}
pub open spec fn registered(s: Seq<Ev>, b: BrokerIdentifier, n: u64, life: int, t0: int) -> bool {
    &&& s.len() > 0 && all_forget(s.drop_last()) && s.last() is Stmt && tends(s.last(), b)
    &&& forall|q: Row| #[trigger] aft(s.last(), Tbl::brokers, q) && row_of(q, b) ==> q[Col::num_connections] == Val::Num(n * NANO) && (q[Col::expiry] matches Val::Num(x) && t0 + life <= x <= run(s.last()).at + life)
    &&& exists|q: Row| #[trigger] run(s.last()).post.has(Tbl::brokers, q) && row_of(q, b)
}
pub open spec fn unregistered(s: Seq<Ev>, b: BrokerIdentifier, n: u64) -> bool { (all_forget(s) && n > u32::MAX) || (failed(s) && all_forget(s.drop_last()) && tends(s.last(), b)) }
/// the brokers others than me that were registered, and not out of date, at one moment
pub open spec fn others(s: Seq<Ev>, me: BrokerIdentifier, bs: Set<BrokerIdentifier>, t0: int) -> bool {
    &&& s.len() > 0 && all_forget(s) && s.last() is Stmt && !bs.contains(me)
    &&& forall|b: BrokerIdentifier| #[trigger] bs.contains(b) ==> exists|q: Row| #[trigger] run(s.last()).pre.has(Tbl::brokers, q) && row_of(q, b) && fresh(s.drop_last(), Tbl::brokers, q, t0)
    &&& forall|q: Row| #[trigger] bef(s.last(), Tbl::brokers, q) && !out(q, run(s.last()).at) ==> row_of(q, who(q)) && (who(q) == me || bs.contains(who(q)))
}
/// the rows one count counted
pub open spec fn counted(e: Ev) -> Set<Row> { match run(e).q.sql { Sql::Count(t, c) => hits(t, c, run(e).q.binds, run(e).pre), _ => arbitrary() } }
/// at e, so many permits were outstanding for the broker of row q
pub open spec fn weighs(e: Ev, q: Row, n: int) -> bool {
    &&& e is Stmt && run(e).q.sql is Count && counted(e).len() == n
    &&& forall|r: Row| #[trigger] counted(e).contains(r) ==> bef(e, Tbl::permits, r) && r[Col::identifier] == q[Col::identifier]
    &&& forall|r: Row| #[trigger] bef(e, Tbl::permits, r) && r[Col::identifier] == q[Col::identifier] && !out(r, run(e).at) ==> counted(e).contains(r)
}
pub open spec fn weighed_at(s: Seq<Ev>, j: int, q: Row, n: int, t0: int) -> bool { weighs(s[j], q, n) && forall|r: Row| #[trigger] counted(s[j]).contains(r) ==> fresh(s.take(j), Tbl::permits, r, t0) }
/// a broker's load: the connections it reported and the permits outstanding for it
pub open spec fn loaded(s: Seq<Ev>, q: Row, l: int, t0: int) -> bool { exists|j: int, n: int| 0 <= j < s.len() && #[trigger] weighed_at(s, j, q, n, t0) && (q[Col::num_connections] matches Val::Num(c) && c + n * NANO == l * NANO) }
pub broadcast proof fn lemma_loaded(a: Seq<Ev>, b: Seq<Ev>, q: Row, l: int, t0: int)
    requires #[trigger] loaded(a, q, l, t0)
    ensures #[trigger] loaded(a + b, q, l, t0)
{ let (j, n) = choose|j: int, n: int| 0 <= j < a.len() && #[trigger] weighed_at(a, j, q, n, t0) && (q[Col::num_connections] matches Val::Num(c) && c + n * NANO == l * NANO); assert((a + b).take(j) =~= a.take(j)); assert((a + b)[j] == a[j]); assert(weighed_at(a + b, j, q, n, t0)); }
/// of the brokers registered at s[k], this one had the least load
pub open spec fn least(s: Seq<Ev>, k: int, m: Row, b: BrokerIdentifier, t0: int) -> bool {
    &&& s[k] is Stmt && row_of(m, b) && bef(s[k], Tbl::brokers, m) && fresh(s.take(k), Tbl::brokers, m, t0)
    &&& exists|lm: int| #[trigger] loaded(s, m, lm, t0) && forall|q: Row| #[trigger] bef(s[k], Tbl::brokers, q) && !out(q, run(s[k]).at) ==> exists|l: int| #[trigger] loaded(s, q, l, t0) && lm <= l
}
pub open spec fn chosen(s: Seq<Ev>, b: BrokerIdentifier, t0: int) -> bool { all_forget(s) && exists|k: int, m: Row| 0 <= k < s.len() && #[trigger] least(s, k, m, b, t0) }
/// nobody was registered, or the database failed
pub open spec fn nobody(s: Seq<Ev>) -> bool { all_forget(s) && s.len() > 0 && (failed(s) || s.last() is Stmt && forall|q: Row| #[trigger] bef(s.last(), Tbl::brokers, q) ==> out(q, run(s.last()).at)) }

// ---------- the whitelist (C28)
pub open spec fn no_list(e: Ev) -> bool { e is Stmt && forall|r: Row| #[trigger] run(e).pre.has(Tbl::sqlite_master, r) ==> !(r[Col::r#type] == Val::Txt("table"@) && r[Col::name] == Val::Txt("whitelist"@)) }
pub open spec fn listing() -> spec_fn(Ev) -> bool { |e: Ev| e is Stmt && !no_list(e) }
pub open spec fn on_list(e: Ev, u: Seq<u8>) -> bool { exists|r: Row| #[trigger] run(e).pre.has(Tbl::whitelist, r) && r[Col::user_public_key] == Val::Blob(u) }
pub open spec fn verdict(s: Seq<Ev>, u: Seq<u8>, ok: bool) -> bool {
    s.len() > 0 && all_forget(s) && s.last() is Stmt && if ok { no_list(s.last()) || on_list(s.last(), u) } else { !on_list(s.last(), u) && some(s, listing()) }
}
pub open spec fn has_list(e: Ev) -> bool { exists|r: Row| #[trigger] run(e).post.has(Tbl::sqlite_master, r) && is_table(r, "whitelist"@) }
/// one step makes these users the list, and touches nothing else
pub open spec fn relists(e: Ev, us: Seq<UserPublicKey>) -> bool {
    &&& e is Stmt && has_list(e)
    &&& forall|r: Row| #[trigger] aft(e, Tbl::whitelist, r) <==> exists|i: int| 0 <= i < us.len() && r == user_row(#[trigger] us[i])
    &&& forall|t: Tbl, r: Row| #[trigger] aft(e, t, r) && t != Tbl::whitelist ==> bef(e, t, r) || t == Tbl::sqlite_master && r == table_row("whitelist"@)
    &&& forall|t: Tbl, r: Row| #[trigger] bef(e, t, r) && t != Tbl::whitelist ==> aft(e, t, r) || t == Tbl::sqlite_master && is_table(r, "whitelist"@)
}
pub open spec fn user_row(u: UserPublicKey) -> Row { no_row().insert(Col::user_public_key, Val::Blob(u@)) }
pub open spec fn idle(s: Seq<Ev>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) is Stmt ==> run(s[i]).pre == run(s[i]).post) }
pub open spec fn relisted(s: Seq<Ev>, us: Seq<UserPublicKey>) -> bool { s.len() > 0 && idle(s.drop_last()) && relists(s.last(), us) }
pub open spec fn user_rows(q: Seq<VxQ>, us: Seq<UserPublicKey>) -> bool { q[2].sql matches Sql::Fill(Tbl::whitelist, f, rows) && rows.len() == us.len() && forall|i: int| #![trigger rows[i]] #![trigger us[i]] 0 <= i < us.len() ==> f(rows[i]) == user_row(us[i]) }
pub broadcast proof fn lemma_relists(q: Seq<VxQ>, e: Ev, us: Seq<UserPublicKey>)
    requires #[trigger] effects(q, run(e).pre, run(e).post), e is Stmt, q.len() == 3, q[0].sql == Sql::Drop(Tbl::whitelist, "whitelist"@), q[1].sql matches Sql::Create(Tbl::whitelist, n, _) && n == "whitelist"@, user_rows(q, us)
    ensures #[trigger] relists(e, us)
{
    let r = run(e);
    lemma_effects(q, r.pre, r.post);
    let (m, n) = choose|m: Db, n: Db| #[trigger] step(q[0], r.pre, m) && #[trigger] step(q[1], m, n) && step(q[2], n, r.post);
    assert forall|t: Tbl, r: Row| #[trigger] aft(e, t, r) && t != Tbl::whitelist implies bef(e, t, r) || t == Tbl::sqlite_master && r == table_row("whitelist"@) by { assert(n.has(t, r)); assert(m.has(t, r) || t == Tbl::sqlite_master && r == table_row("whitelist"@)); }
    assert forall|t: Tbl, r: Row| #[trigger] bef(e, t, r) && t != Tbl::whitelist implies aft(e, t, r) || t == Tbl::sqlite_master && is_table(r, "whitelist"@) by { }
    assert(exists|r: Row| #[trigger] n.has(Tbl::sqlite_master, r) && is_table(r, "whitelist"@));
    assert(has_list(e));
    assert forall|r: Row| #[trigger] aft(e, Tbl::whitelist, r) implies exists|i: int| 0 <= i < us.len() && r == user_row(#[trigger] us[i]) by { assert(!m.has(Tbl::whitelist, r)); assert(!n.has(Tbl::whitelist, r)); }
    assert forall|i: int| 0 <= i < us.len() implies aft(e, Tbl::whitelist, user_row(#[trigger] us[i])) by { }
    assert(forall|r: Row| #[trigger] aft(e, Tbl::whitelist, r) <==> exists|i: int| 0 <= i < us.len() && r == user_row(#[trigger] us[i]));
}
pub broadcast proof fn lemma_add_none<A>(q: Seq<A>) ensures #[trigger] (Seq::<A>::empty() + q) == q { assert(Seq::<A>::empty() + q =~= q); }
pub trait VxDeref { type T; spec fn vx_is(&self) -> Self::T; fn vx_deref(&self) -> (r: &Self::T) ensures *r == self.vx_is(); }
impl<X> VxDeref for Arc<X> { type T = X; open spec fn vx_is(&self) -> X { **self } #[verifier::external_body] fn vx_deref(&self) -> (r: &X) { unimplemented!() } }
pub broadcast proof fn lemma_hits(t: Tbl, c: spec_fn(Row, Seq<Val>) -> bool, b: Seq<Val>, d: Db)
    ensures #![trigger hits(t, c, b, d).len()] (hits(t, c, b, d).len() == 0) == (forall|r: Row| #[trigger] d.has(t, r) ==> !c(r, b)),
        forall|r: Row| #![trigger hits(t, c, b, d).contains(r)] #![trigger d.has(t, r)] hits(t, c, b, d).contains(r) <==> d.has(t, r) && c(r, b),
{
    let h = hits(t, c, b, d);
    if h.len() == 0 { assert(h =~= Set::<Row>::empty()); assert forall|r: Row| #[trigger] d.has(t, r) implies !c(r, b) by { assert(!h.contains(r)); } }
    if forall|r: Row| #[trigger] d.has(t, r) ==> !c(r, b) { assert forall|r: Row| !h.contains(r) by { if h.contains(r) { assert(d.has(t, r)); } } assert(h =~= Set::<Row>::empty()); }
}
#end
#source cdn-proto/src/discovery/embedded.rs
#item struct Embedded
#item struct BrokerRow
#raw
impl FromRow for BrokerRow { uninterp spec fn of(&self) -> Row; }
pub broadcast axiom fn ax_broker_row(x: BrokerRow) ensures #![trigger x.of()] x.of()[Col::identifier] == Val::Txt(x.identifier@), x.of()[Col::num_connections] == Val::Num(x.num_connections * NANO), x.of()[Col::expiry] == Val::Num(f64_nanos(x.expiry));
pub broadcast group vx_list { lemma_relists, lemma_add_none }
pub broadcast group vx_store { ax_str, ax_dur, ax_broker_row, lemma_cat_one, lemma_since, lemma_forget_push, lemma_forget_cat, lemma_some_push, lemma_some_cat, lemma_some_one, lemma_cleared, lemma_fresh, lemma_named, lemma_no_name, lemma_text, lemma_hits, lemma_loaded }
#end
#impl Embedded only=prune
#fn Embedded::prune
@ret r
@params table
@effects
@prop C24 C27
@spec
    requires table@ == "permits"@ || table@ == "brokers"@
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier, all_forget(final(w).since(old(w))),
        r is Ok ==> cleared(final(w).since(old(w)), tbl(table@), old(w).time()),
        r is Err ==> failed(final(w).since(old(w))),
@begin
    broadcast use vx_store;
    proof { lemma_tables(); }
#end
#impl Embedded trait=DiscoveryClient skip=new header=impl~Embedded
#fn Embedded::issue_permit
@ret r
@params for_broker expiry public_key
@effects
@prop C24
@spec
    ensures
        final(w).grew(old(w)),
        r matches Ok(p) ==> issued(final(w).since(old(w)), *for_broker, p, public_key@, expiry.nanos(), old(w).time()),
        r is Err ==> failed(final(w).since(old(w))),
@begin
    broadcast use vx_store;
#end
#fn Embedded::validate_permit
@ret r
@params broker permit
@effects
@prop C24
@spec
    ensures
        final(w).grew(old(w)),
        r matches Ok(Some(k)) ==> redeemed(final(w).since(old(w)), *broker, permit, k@, old(w).time()),
        r matches Ok(None) ==> unredeemed(final(w).since(old(w)), *broker, permit),
        r is Err ==> spoiled(final(w).since(old(w)), *broker, permit),
@begin
    broadcast use vx_store;
    proof { lemma_tables(); }
#end
#fn Embedded::perform_heartbeat
@ret r
@params num_connections heartbeat_expiry
@effects
@prop C27
@spec
    requires plain(old(self).identifier)
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier,
        r is Ok ==> registered(final(w).since(old(w)), old(self).identifier, num_connections, heartbeat_expiry.nanos(), old(w).time()),
        r is Err ==> unregistered(final(w).since(old(w)), old(self).identifier, num_connections),
@begin
    broadcast use vx_store;
    proof { lemma_tables(); }
#end
#fn Embedded::get_other_brokers
@ret r
@effects
@prop C27
@spec
    requires plain(old(self).identifier)
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier,
        r matches Ok(bs) ==> others(final(w).since(old(w)), old(self).identifier, bs@, old(w).time()),
        r is Err ==> all_forget(final(w).since(old(w))) && failed(final(w).since(old(w))),
@local brokers_parsed 1
@begin
    broadcast use vx_store;
    proof { lemma_tables(); }
@loopstart 0
    proof { assert(run(w.trace().last()).pre.has(Tbl::brokers, $it.all()[$it.pos() - 1].of())); }
@loop 0
    invariant
        forall|i: int| 0 <= i < $it.all().len() ==> (run(w.trace().last()).pre.has(Tbl::brokers, (#[trigger] $it.all()[i]).of())),
        forall|b: BrokerIdentifier| #[trigger] brokers_parsed@.contains(b) ==> exists|i: int| 0 <= i < $it.pos() && b == who((#[trigger] $it.all()[i]).of()),
        forall|i: int| 0 <= i < $it.pos() ==> brokers_parsed@.contains(who((#[trigger] $it.all()[i]).of())),
#end
#fn Embedded::check_whitelist
@ret r
@params user
@effects
@prop C28
@spec
    ensures
        final(w).grew(old(w)),
        r matches Ok(v) ==> verdict(final(w).since(old(w)), user@, v),
        r is Err ==> all_forget(final(w).since(old(w))) && failed(final(w).since(old(w))),
@begin
    broadcast use vx_store;
#end
#fn Embedded::get_with_least_connections
@ret r
@effects
@prop C27
@local least_connections 1
@local broker_with_least_connections 1
@local total_broker_connections 1
@spec
    requires plain(old(self).identifier)
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier,
        r matches Ok(b) ==> chosen(final(w).since(old(w)), b, old(w).time()),
        r is Err ==> nobody(final(w).since(old(w))),
@begin
    broadcast use vx_store;
    proof { lemma_tables(); }
@beforeloop 0
    let ghost vx_k = w.since(old(w)).len() - 1;
    let ghost vx_e = w.since(old(w)).last();
    let ghost vx_s = w.since(old(w)).drop_last();
    let ghost mut vx_l: Seq<int> = Seq::empty();
    let ghost mut vx_m: int = 0;
@loopstart 0
    let ghost vx_w = *w;
    let ghost vx_q = $it.all()[$it.pos() - 1].of();
    proof { assert(run(vx_e).pre.has(Tbl::brokers, vx_q)); }
@loopend 0
    proof {
        let s = w.since(old(w));
        let t0 = old(w).time();
        let j = s.len() - 1;
        let n = counted(s[j]).len() as int;
        assert(s.drop_last() == s.take(j));
        assert(weighed_at(s, j, vx_q, n, t0));
        assert(loaded(s, vx_q, total_broker_connections as int, t0));
        assert(s == vx_w.since(old(w)) + w.since(&vx_w));
        assert forall|i: int| 0 <= i < $it.pos() - 1 implies loaded(s, (#[trigger] $it.all()[i]).of(), vx_l[i], t0) by { assert(loaded(vx_w.since(old(w)), $it.all()[i].of(), vx_l[i], t0)); }
        vx_l = vx_l.push(total_broker_connections as int);
        if least_connections == total_broker_connections && Val::Txt(broker_with_least_connections@) == vx_q[Col::identifier] { vx_m = $it.pos() - 1; }
    }
@afterloop 0
    proof {
        let s = w.since(old(w));
        let t0 = old(w).time();
        if $it.pos() > 0 {
            let m = $it.all()[vx_m].of();
            assert(run(vx_e).pre.has(Tbl::brokers, m));
            assert(plain(who(m)) && broker_with_least_connections@ == ident_text(who(m)));
            assert(loaded(s, m, vx_l[vx_m], t0));
            assert forall|q: Row| #[trigger] bef(s[vx_k], Tbl::brokers, q) implies exists|l: int| #[trigger] loaded(s, q, l, t0) && vx_l[vx_m] <= l by {
                assert(run(vx_e).pre.has(Tbl::brokers, q));
                let i = choose|i: int| 0 <= i < $it.all().len() && (#[trigger] $it.all()[i]).of() == q;
                assert(loaded(s, q, vx_l[i], t0));
            }
            assert(least(s, vx_k, m, who(m), t0));
        }
    }
@loop 0
    invariant
        w.grew(old(w)), all_forget(w.since(old(w))), self.identifier == old(self).identifier,
        0 <= vx_k < w.since(old(w)).len(), w.since(old(w))[vx_k] == vx_e, w.since(old(w)).take(vx_k) == vx_s,
        vx_l.len() == $it.pos(),
        forall|i: int| 0 <= i < $it.all().len() ==> (run(vx_e).pre.has(Tbl::brokers, (#[trigger] $it.all()[i]).of())),
        forall|i: int| 0 <= i < $it.pos() ==> loaded(w.since(old(w)), (#[trigger] $it.all()[i]).of(), vx_l[i], old(w).time()) && least_connections <= vx_l[i],
        $it.pos() == 0 ==> least_connections == u64::MAX && broker_with_least_connections@.len() == 0 && w.since(old(w)).len() == vx_k + 1,
        $it.pos() > 0 ==> 0 <= vx_m < $it.pos() && least_connections == vx_l[vx_m] && Val::Txt(broker_with_least_connections@) == $it.all()[vx_m].of()[Col::identifier],
#end
#fn Embedded::set_whitelist
@ret r
@params users
@effects
@prop C28
@spec
    ensures
        final(w).grew(old(w)), final(self).identifier == old(self).identifier,
        r is Ok ==> relisted(final(w).since(old(w)), users@),
        r is Err ==> idle(final(w).since(old(w))) || relisted(final(w).since(old(w)), users@),
@local query_builder 1
@begin
    broadcast use {vx_store, vx_list};
@beforeloop 0
    let ghost vx_q = query_builder.sqls();
@loop 0
    invariant
        $it.all() == users@, query_builder.sqls() == vx_q,
        query_builder.rows().len() == $it.pos(),
        forall|i: int| #![trigger query_builder.rows()[i]] #![trigger $it.all()[i]] 0 <= i < $it.pos() ==> query_builder.rows()[i] == seq![Val::Blob($it.all()[i]@)],
#end
