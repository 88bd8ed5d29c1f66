Broker identifiers and their textual form (C15)
#include ident.vc
#keepmods fmt
#rename split=vx_split
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier noderive attr=derive(PartialEq,Eq)
#raw
pub mod fmt {
    #![allow(unused_imports)]
    use vstd::prelude::*;
    verus! {
    pub struct Error { pub x: () }
    pub type Result = core::result::Result<(), Error>;
    /// what has been written so far
    #[verifier::external_body]
    pub struct Formatter { x: () }
    impl Formatter { pub uninterp spec fn text(&self) -> Seq<char>; }
    pub trait Display { fn fmt(&self, f: &mut Formatter) -> Result; }
    }
}
#[verifier::external_body]
pub fn vx_write_lit(f: &mut fmt::Formatter, s: &str) ensures final(f).text() == old(f).text() + s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_write_str(f: &mut fmt::Formatter, s: &String) ensures final(f).text() == old(f).text() + s@ { unimplemented!() }
pub fn vx_write_ok() -> (r: fmt::Result) ensures r is Ok { Ok(()) }
pub trait VxSplit { fn vx_split(&self, c: char) -> It<&str>; }
pub uninterp spec fn vx_strs(s: Seq<&str>) -> Seq<Seq<char>>;
impl VxSplit for String {
    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: It<&str>) ensures r.pos() == 0, r.all().len() == pieces(self@, c).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == pieces(self@, c)[i] { unimplemented!() }
}
impl vstd::std_specs::convert::TryFromSpecImpl<String> for BrokerIdentifier {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: String) -> core::result::Result<Self, Error> { arbitrary() }
}
#end
#impl BrokerIdentifier trait=Display
#fn BrokerIdentifier::fmt
@ret r
@params f
@prop C15
@spec
    ensures final(f).text() =~= old(f).text() + ident_text(*self), r is Ok
@begin
    proof { reveal_strlit("/"); }
#end
#impl BrokerIdentifier trait=TryFrom
#fn BrokerIdentifier::try_from
@ret r
@params value
@prop C15
@spec
    ensures parsed(value@, vx_ok(r))
#end
