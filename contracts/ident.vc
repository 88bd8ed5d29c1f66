Identifiers, errors and texts
#include prelude.vc
#macros cdn-proto/src/error.rs
#rename try_into=vx_try_into
#source cdn-proto/src/error.rs
#item type Result
#item enum Error
#raw
pub type StdResult<T, E> = core::result::Result<T, E>;
pub open spec fn vx_ok<T, E>(r: core::result::Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
/// reading an identifier (the contract of its TryFrom, C15)
pub trait VxTryInto<T>: Sized { type Er; fn vx_try_into(self) -> core::result::Result<T, Self::Er>; }
impl VxTryInto<BrokerIdentifier> for String { type Er = Error;
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: core::result::Result<BrokerIdentifier, Error>) ensures parsed(self@, vx_ok(r)) { unimplemented!() } }
pub trait VxToString { spec fn text(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.text(); }
impl VxToString for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// what Display writes (its contract below)
impl VxToString for BrokerIdentifier { open spec fn text(&self) -> Seq<char> { ident_text(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// the pieces of s between the separators
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let p = pieces(s.drop_last(), c);
        if s.last() == c { p.push(Seq::<char>::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
/// an identifier's text
pub open spec fn ident_text(b: BrokerIdentifier) -> Seq<char> { b.public_advertise_endpoint@ + seq!['/'] + b.private_advertise_endpoint@ }
/// what reading a text may give
pub open spec fn parsed(s: Seq<char>, r: Option<BrokerIdentifier>) -> bool {
    let p = pieces(s, '/');
    if p.len() < 2 { r is None }
    else if p.len() == 2 { r matches Some(b) && b.public_advertise_endpoint@ == p[0] && b.private_advertise_endpoint@ == p[1] }
    else { r matches Some(b) ==> b.public_advertise_endpoint@ == p[0] }
}
pub proof fn lemma_pieces_none(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures pieces(s, c) =~= seq![s]
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|x: char| d.contains(x) implies s.contains(x) by { let i = d.index_of(x); assert(s[i] == x); }
        lemma_pieces_none(d, c);
        assert(s[s.len() - 1] == s.last()); assert(s.contains(s.last()));
        assert(d.push(s.last()) =~= s);
    } else { assert(s =~= Seq::<char>::empty()); }
}
pub proof fn lemma_pieces_two(a: Seq<char>, b: Seq<char>, c: char)
    requires !a.contains(c), !b.contains(c)
    ensures pieces(a + seq![c] + b, c) =~= seq![a, b]
    decreases b.len()
{
    let s = a + seq![c] + b;
    if b.len() == 0 {
        assert(s.drop_last() =~= a); assert(s.last() == c);
        lemma_pieces_none(a, c);
        assert(b =~= Seq::<char>::empty());
    } else {
        let d = b.drop_last();
        assert forall|x: char| d.contains(x) implies b.contains(x) by { let i = d.index_of(x); assert(b[i] == x); }
        lemma_pieces_two(a, d, c);
        assert(s.drop_last() =~= a + seq![c] + d);
        assert(s.last() == b.last()); assert(b.contains(b.last()));
        assert(d.push(b.last()) =~= b);
    }
}
/// text and back
pub proof fn lemma_roundtrip(b: BrokerIdentifier, r: Option<BrokerIdentifier>)
    requires !b.public_advertise_endpoint@.contains('/'), !b.private_advertise_endpoint@.contains('/'), parsed(ident_text(b), r)
    ensures r matches Some(x) && x.public_advertise_endpoint@ == b.public_advertise_endpoint@ && x.private_advertise_endpoint@ == b.private_advertise_endpoint@
{ lemma_pieces_two(b.public_advertise_endpoint@, b.private_advertise_endpoint@, '/'); }
#end
