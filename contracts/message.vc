The wire form of the protocol's messages (C14): Message::serialize and Message::deserialize over the generated accessors
#include prelude.vc
#macros cdn-proto/src/error.rs cdn-proto/src/message.rs
#rename into=vx_into_same to_string=vx_text_string
#keepmods capnp serialize messages_capnp authenticate_response authenticate_with_key authenticate_with_permit broadcast direct message primitive_list
#effects init_root init_authenticate_with_key init_authenticate_with_permit init_authenticate_response init_direct init_broadcast init_subscribe init_unsubscribe init_user_sync init_topic_sync set_user_sync set_topic_sync set_subscribe set_unsubscribe set_public_key set_timestamp set_signature set_permit set_context set_recipient set_message set_topics set write_message_segments_to_words serialize
#source cdn-proto/src/error.rs
#item type Result
#item enum Error
#source cdn-proto/src/message.rs
#item type Topic
#item enum Message noderive
#item struct AuthenticateWithKey noderive
#item struct AuthenticateWithPermit noderive
#item struct AuthenticateResponse noderive
#item struct Direct noderive
#item struct Broadcast noderive
#raw
global size_of usize == 8;
pub type StdResult<T, E> = core::result::Result<T, E>;
// ---------- what a message in the wire format holds: the kind, up to two lists of bytes, a number and a text
pub enum Kind { Key, Permit, Response, Direct, Broadcast, Subscribe, Unsubscribe, UserSync, TopicSync }
pub ghost struct Wire { pub kind: Kind, pub a: Seq<u8>, pub b: Seq<u8>, pub n: u64, pub s: Seq<char> }
pub open spec fn blank(kind: Kind) -> Wire { Wire { kind, a: Seq::empty(), b: Seq::empty(), n: 0, s: Seq::empty() } }
/// the message bytes stand for, if they are what a writer of this format writes
pub uninterp spec fn wire_of(bytes: Seq<u8>) -> Option<Wire>;
/// what the format can hold: a list of bytes or a text has fewer than 2^29 bytes
pub open spec fn holds(n: nat) -> bool { n < 0x1000_0000 }
pub open spec fn holds_text(n: nat) -> bool { n < 0x400_0000 }
#[verifier::external_body]
pub tracked struct World { x: () }
impl World { pub uninterp spec fn wire(&self) -> Wire; }
/// the message as a value
pub open spec fn to_wire(m: Message) -> Wire {
    match m {
        Message::AuthenticateWithKey(x) => Wire { kind: Kind::Key, a: x.public_key@, b: x.signature@, n: x.timestamp, s: Seq::empty() },
        Message::AuthenticateWithPermit(x) => Wire { kind: Kind::Permit, a: Seq::empty(), b: Seq::empty(), n: x.permit, s: Seq::empty() },
        Message::AuthenticateResponse(x) => Wire { kind: Kind::Response, a: Seq::empty(), b: Seq::empty(), n: x.permit, s: x.context@ },
        Message::Direct(x) => Wire { kind: Kind::Direct, a: x.recipient@, b: x.message@, n: 0, s: Seq::empty() },
        Message::Broadcast(x) => Wire { kind: Kind::Broadcast, a: x.topics@, b: x.message@, n: 0, s: Seq::empty() },
        Message::Subscribe(x) => Wire { kind: Kind::Subscribe, a: x@, b: Seq::empty(), n: 0, s: Seq::empty() },
        Message::Unsubscribe(x) => Wire { kind: Kind::Unsubscribe, a: x@, b: Seq::empty(), n: 0, s: Seq::empty() },
        Message::UserSync(x) => Wire { kind: Kind::UserSync, a: x@, b: Seq::empty(), n: 0, s: Seq::empty() },
        Message::TopicSync(x) => Wire { kind: Kind::TopicSync, a: x@, b: Seq::empty(), n: 0, s: Seq::empty() },
    }
}
pub open spec fn fits(m: Message) -> bool { let w = to_wire(m); holds(w.a.len()) && holds(w.b.len()) && holds_text(w.s.len()) }
pub open spec fn eqv<T>(a: Vec<T>, b: Vec<T>) -> bool { a@ =~= b@ }
/// the same kind of message with every field equal
pub open spec fn same_message(x: Message, y: Message) -> bool {
    match (x, y) {
        (Message::AuthenticateWithKey(a), Message::AuthenticateWithKey(b)) => eqv(a.public_key, b.public_key) && a.timestamp == b.timestamp && eqv(a.signature, b.signature),
        (Message::AuthenticateWithPermit(a), Message::AuthenticateWithPermit(b)) => a.permit == b.permit,
        (Message::AuthenticateResponse(a), Message::AuthenticateResponse(b)) => a.permit == b.permit && a.context@ =~= b.context@,
        (Message::Direct(a), Message::Direct(b)) => eqv(a.recipient, b.recipient) && eqv(a.message, b.message),
        (Message::Broadcast(a), Message::Broadcast(b)) => eqv(a.topics, b.topics) && eqv(a.message, b.message),
        (Message::Subscribe(a), Message::Subscribe(b)) => eqv(a, b),
        (Message::Unsubscribe(a), Message::Unsubscribe(b)) => eqv(a, b),
        (Message::UserSync(a), Message::UserSync(b)) => eqv(a, b),
        (Message::TopicSync(a), Message::TopicSync(b)) => eqv(a, b),
        _ => false,
    }
}

// ---------- assumed: the generated accessors and the capnp crate (checked by the replay)
pub trait VxIntoSame: Sized { fn vx_into_same(self) -> (r: Self) ensures r == self; }
impl VxIntoSame for u8 { fn vx_into_same(self) -> (r: u8) { self } }
pub trait VxTextString { spec fn ok(&self) -> bool; spec fn tx(&self) -> Seq<char>; type Out; spec fn out(&self, o: Self::Out) -> bool; fn vx_text_string(&self) -> (r: Self::Out) ensures self.out(r); }
/// something a text field can be set to
pub trait TextInput { spec fn tin(&self) -> Seq<char>; }
impl TextInput for String { open spec fn tin(&self) -> Seq<char> { self@ } }
impl<'a> TextInput for &'a String { open spec fn tin(&self) -> Seq<char> { (**self)@ } }
impl<'a> TextInput for &'a str { open spec fn tin(&self) -> Seq<char> { (**self)@ } }
/// something a list of bytes can be set to
pub trait ListInput { spec fn lin(&self) -> Seq<u8>; }
impl<'a> ListInput for &'a [u8] { open spec fn lin(&self) -> Seq<u8> { (**self)@ } }
pub mod capnp {
    #![allow(unused_imports)]
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { x: () }
    #[verifier::external_body]
    pub struct NotInSchema { x: () }
    #[verifier::external_body]
    pub struct Utf8Error { x: () }
    pub type Result<T> = core::result::Result<T, Error>;
    pub mod message {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn new_default() -> Builder { unimplemented!() }
            /// a blank root: its discriminant is that of the first kind
            #[verifier::external_body]
            pub fn init_root(&mut self, Tracked(w): Tracked<&mut World>) -> super::super::messages_capnp::message::Builder ensures final(w).wire() == blank(Kind::Key) { unimplemented!() }
        }
        }
    }
    pub mod primitive_list {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            pub uninterp spec fn size(&self) -> nat;
            pub uninterp spec fn kind(&self) -> Kind;
            #[verifier::external_body]
            pub fn set(&mut self, i: u32, v: u8, Tracked(w): Tracked<&mut World>)
                requires i < old(self).size(), old(w).wire().kind == old(self).kind(), old(w).wire().a.len() == old(self).size()
                ensures final(self).size() == old(self).size(), final(self).kind() == old(self).kind(), final(w).wire() == (Wire { a: old(w).wire().a.update(i as int, v), ..old(w).wire() })
            { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader { x: () }
        impl Reader {
            pub uninterp spec fn items(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn len(&self) -> (r: u32) ensures r == self.items().len() { unimplemented!() }
            #[verifier::external_body]
            pub fn get(&self, i: u32) -> (r: u8) requires i < self.items().len() ensures r == self.items()[i as int] { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_iter(&self) -> (r: It<u8>) ensures r.pos() == 0, r.all() == self.items() { unimplemented!() }
        }
        }
    }
    }
}
impl VxIntoIt for capnp::primitive_list::Reader { type Item = u8; open spec fn seq_ok(self, s: Seq<u8>) -> bool { s == self.items() }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<u8>) { unimplemented!() } }
/// a text that was read: bytes that may not be valid UTF-8
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TextReader { x: () }
impl TextReader {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_text_string(&self) -> (r: StdResult<String, capnp::Utf8Error>) ensures (r is Ok) == (self.text() is Some), r matches Ok(s) ==> s@ == self.text()->Some_0 { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ReaderOptions { x: () }
impl ReaderOptions {
    /// how many words may be followed
    pub uninterp spec fn limit(&self) -> Option<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: ReaderOptions) ensures r.limit() == Some(8388608usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn traversal_limit_in_words(&mut self, n: Option<usize>) -> (r: &mut ReaderOptions) ensures r.limit() == n { unimplemented!() }
}
pub mod serialize {
    #![allow(unused_imports)]
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Reader { x: () }
    impl Reader {
        pub uninterp spec fn wire(&self) -> Option<Wire>;
        #[verifier::external_body]
        pub fn get_root<T: RootOf>(&self) -> (r: capnp::Result<T>) ensures r matches Ok(x) ==> x.of() == self.wire(), self.wire() is Some ==> r is Ok { unimplemented!() }
    }
    /// what was written is read back, unless the limit cuts it off
    #[verifier::external_body]
    pub fn read_message(bytes: &[u8], o: ReaderOptions) -> (r: capnp::Result<Reader>)
        ensures wire_of(bytes@) is Some && (o.limit() matches Some(n) ==> n >= bytes@.len()) ==> (r matches Ok(x) && x.wire() == wire_of(bytes@)) { unimplemented!() }
    }
}
pub trait RootOf: Sized { spec fn of(&self) -> Option<Wire>; }
#[verifier::external_body]
pub fn write_message_segments_to_words(m: &capnp::message::Builder, Tracked(w): Tracked<&mut World>) -> (r: Vec<u8>) ensures wire_of(r@) == Some(old(w).wire()), final(w).wire() == old(w).wire() { unimplemented!() }
pub mod messages_capnp {
    #![allow(unused_imports)]
    use super::*;
    verus! {
    pub mod message {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn init_authenticate_with_key(self, Tracked(w): Tracked<&mut World>) -> authenticate_with_key::Builder ensures final(w).wire() == blank(Kind::Key) { unimplemented!() }
            #[verifier::external_body]
            pub fn init_authenticate_with_permit(self, Tracked(w): Tracked<&mut World>) -> authenticate_with_permit::Builder ensures final(w).wire() == blank(Kind::Permit) { unimplemented!() }
            #[verifier::external_body]
            pub fn init_authenticate_response(self, Tracked(w): Tracked<&mut World>) -> authenticate_response::Builder ensures final(w).wire() == blank(Kind::Response) { unimplemented!() }
            #[verifier::external_body]
            pub fn init_direct(self, Tracked(w): Tracked<&mut World>) -> direct::Builder ensures final(w).wire() == blank(Kind::Direct) { unimplemented!() }
            #[verifier::external_body]
            pub fn init_broadcast(self, Tracked(w): Tracked<&mut World>) -> broadcast::Builder ensures final(w).wire() == blank(Kind::Broadcast) { unimplemented!() }
            #[verifier::external_body]
            pub fn init_subscribe(self, n: u32, Tracked(w): Tracked<&mut World>) -> (r: capnp::primitive_list::Builder) requires holds(n as nat) ensures final(w).wire() == (Wire { a: zeros(n as nat), ..blank(Kind::Subscribe) }), r.size() == n, r.kind() == Kind::Subscribe { unimplemented!() }
            #[verifier::external_body]
            pub fn init_unsubscribe(self, n: u32, Tracked(w): Tracked<&mut World>) -> (r: capnp::primitive_list::Builder) requires holds(n as nat) ensures final(w).wire() == (Wire { a: zeros(n as nat), ..blank(Kind::Unsubscribe) }), r.size() == n, r.kind() == Kind::Unsubscribe { unimplemented!() }
            #[verifier::external_body]
            pub fn set_subscribe<L: ListInput>(&mut self, v: L, Tracked(w): Tracked<&mut World>) -> (r: capnp::Result<()>) requires holds(v.lin().len()) ensures r is Ok, final(w).wire() == (Wire { a: v.lin(), ..blank(Kind::Subscribe) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_unsubscribe<L: ListInput>(&mut self, v: L, Tracked(w): Tracked<&mut World>) -> (r: capnp::Result<()>) requires holds(v.lin().len()) ensures r is Ok, final(w).wire() == (Wire { a: v.lin(), ..blank(Kind::Unsubscribe) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_user_sync(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()) ensures final(w).wire() == (Wire { a: v@, ..blank(Kind::UserSync) }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_topic_sync(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()) ensures final(w).wire() == (Wire { a: v@, ..blank(Kind::TopicSync) }) { unimplemented!() }
        }
        pub enum Which<'a> {
            AuthenticateWithKey(capnp::Result<authenticate_with_key::Reader<'a>>),
            AuthenticateWithPermit(capnp::Result<authenticate_with_permit::Reader>),
            AuthenticateResponse(capnp::Result<authenticate_response::Reader>),
            Direct(capnp::Result<direct::Reader<'a>>),
            Broadcast(capnp::Result<broadcast::Reader<'a>>),
            Subscribe(capnp::Result<capnp::primitive_list::Reader>),
            Unsubscribe(capnp::Result<capnp::primitive_list::Reader>),
            UserSync(capnp::Result<&'a [u8]>),
            TopicSync(capnp::Result<&'a [u8]>),
        }
        pub use self::Which::{AuthenticateWithKey, AuthenticateWithPermit, AuthenticateResponse, Direct, Broadcast, Subscribe, Unsubscribe, UserSync, TopicSync};
        /// the part a reader of a received message finds
        pub open spec fn finds(x: Which, w: Wire) -> bool {
            match w.kind {
                Kind::Key => x matches Which::AuthenticateWithKey(Ok(r)) && r.of() == Some(w),
                Kind::Permit => x matches Which::AuthenticateWithPermit(Ok(r)) && r.of() == Some(w),
                Kind::Response => x matches Which::AuthenticateResponse(Ok(r)) && r.of() == Some(w),
                Kind::Direct => x matches Which::Direct(Ok(r)) && r.of() == Some(w),
                Kind::Broadcast => x matches Which::Broadcast(Ok(r)) && r.of() == Some(w),
                Kind::Subscribe => x matches Which::Subscribe(Ok(r)) && r.items() == w.a,
                Kind::Unsubscribe => x matches Which::Unsubscribe(Ok(r)) && r.items() == w.a,
                Kind::UserSync => x matches Which::UserSync(Ok(r)) && r@ == w.a,
                Kind::TopicSync => x matches Which::TopicSync(Ok(r)) && r@ == w.a,
            }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader<'a> { x: PhantomData<&'a u8> }
        impl<'a> RootOf for Reader<'a> { uninterp spec fn of(&self) -> Option<Wire>; }
        impl<'a> Reader<'a> {
            #[verifier::external_body]
            pub fn which(self) -> (r: StdResult<Which<'a>, capnp::NotInSchema>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && finds(x, w)) { unimplemented!() }
        }
        }
    }
    pub mod authenticate_with_key {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn set_public_key(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()), old(w).wire().kind == Kind::Key ensures final(w).wire() == (Wire { a: v@, ..old(w).wire() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_timestamp(&mut self, v: u64, Tracked(w): Tracked<&mut World>) requires old(w).wire().kind == Kind::Key ensures final(w).wire() == (Wire { n: v, ..old(w).wire() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_signature(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()), old(w).wire().kind == Kind::Key ensures final(w).wire() == (Wire { b: v@, ..old(w).wire() }) { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader<'a> { x: PhantomData<&'a u8> }
        impl<'a> Reader<'a> {
            pub uninterp spec fn of(&self) -> Option<Wire>;
            #[verifier::external_body]
            pub fn get_public_key(self) -> (r: capnp::Result<&'a [u8]>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x@ == w.a) { unimplemented!() }
            #[verifier::external_body]
            pub fn get_timestamp(self) -> (r: u64) ensures self.of() matches Some(w) ==> r == w.n { unimplemented!() }
            #[verifier::external_body]
            pub fn get_signature(self) -> (r: capnp::Result<&'a [u8]>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x@ == w.b) { unimplemented!() }
        }
        }
    }
    pub mod authenticate_with_permit {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn set_permit(&mut self, v: u64, Tracked(w): Tracked<&mut World>) requires old(w).wire().kind == Kind::Permit ensures final(w).wire() == (Wire { n: v, ..old(w).wire() }) { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader { x: () }
        impl Reader {
            pub uninterp spec fn of(&self) -> Option<Wire>;
            #[verifier::external_body]
            pub fn get_permit(self) -> (r: u64) ensures self.of() matches Some(w) ==> r == w.n { unimplemented!() }
        }
        }
    }
    pub mod authenticate_response {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn set_permit(&mut self, v: u64, Tracked(w): Tracked<&mut World>) requires old(w).wire().kind == Kind::Response ensures final(w).wire() == (Wire { n: v, ..old(w).wire() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_context<X: TextInput>(&mut self, v: X, Tracked(w): Tracked<&mut World>) requires holds_text(v.tin().len()), old(w).wire().kind == Kind::Response ensures final(w).wire() == (Wire { s: v.tin(), ..old(w).wire() }) { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader { x: () }
        impl Reader {
            pub uninterp spec fn of(&self) -> Option<Wire>;
            #[verifier::external_body]
            pub fn get_permit(self) -> (r: u64) ensures self.of() matches Some(w) ==> r == w.n { unimplemented!() }
            #[verifier::external_body]
            pub fn get_context(self) -> (r: capnp::Result<TextReader>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x.text() == Some(w.s)) { unimplemented!() }
        }
        }
    }
    pub mod direct {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn set_recipient(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()), old(w).wire().kind == Kind::Direct ensures final(w).wire() == (Wire { a: v@, ..old(w).wire() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_message(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()), old(w).wire().kind == Kind::Direct ensures final(w).wire() == (Wire { b: v@, ..old(w).wire() }) { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader<'a> { x: PhantomData<&'a u8> }
        impl<'a> Reader<'a> {
            pub uninterp spec fn of(&self) -> Option<Wire>;
            #[verifier::external_body]
            pub fn get_recipient(self) -> (r: capnp::Result<&'a [u8]>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x@ == w.a) { unimplemented!() }
            #[verifier::external_body]
            pub fn get_message(self) -> (r: capnp::Result<&'a [u8]>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x@ == w.b) { unimplemented!() }
        }
        }
    }
    pub mod broadcast {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Builder { x: () }
        impl Builder {
            #[verifier::external_body]
            pub fn set_topics<L: ListInput>(&mut self, v: L, Tracked(w): Tracked<&mut World>) -> (r: capnp::Result<()>) requires holds(v.lin().len()), old(w).wire().kind == Kind::Broadcast ensures r is Ok, final(w).wire() == (Wire { a: v.lin(), ..old(w).wire() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn set_message(&mut self, v: &[u8], Tracked(w): Tracked<&mut World>) requires holds(v@.len()), old(w).wire().kind == Kind::Broadcast ensures final(w).wire() == (Wire { b: v@, ..old(w).wire() }) { unimplemented!() }
        }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Reader<'a> { x: PhantomData<&'a u8> }
        impl<'a> Reader<'a> {
            pub uninterp spec fn of(&self) -> Option<Wire>;
            #[verifier::external_body]
            pub fn get_topics(self) -> (r: capnp::Result<capnp::primitive_list::Reader>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x.items() == w.a) { unimplemented!() }
            #[verifier::external_body]
            pub fn get_message(self) -> (r: capnp::Result<&'a [u8]>) ensures self.of() matches Some(w) ==> (r matches Ok(x) && x@ == w.b) { unimplemented!() }
        }
        }
    }
    }
}
use messages_capnp::{authenticate_response, authenticate_with_key, authenticate_with_permit, broadcast, direct};
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
#end
#source cdn-proto/src/message.rs
#impl Message
#fn Message::serialize
@ret r
@effects
@prop C14
@spec
    requires fits(*self)
    ensures r matches Ok(b) && wire_of(b@) == Some(to_wire(*self))
@loop 0
    invariant
        $it.wf(), $it.all().len() == to_serialize@.len(), forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).0 == i && *$it.all()[i].1 == to_serialize@[i],
        message.size() == to_serialize@.len(), message.kind() == w.wire().kind, w.wire().a.len() == to_serialize@.len(),
        w.wire() =~= (Wire { a: w.wire().a, ..blank(Kind::Subscribe) }), forall|i: int| 0 <= i < $it.pos() ==> #[trigger] w.wire().a[i] == to_serialize@[i],
        fits(*self), *self == Message::Subscribe(*to_serialize)
@afterloop 0
    proof { assert(w.wire().a =~= to_serialize@); }
@loop 1
    invariant
        $it.wf(), $it.all().len() == to_serialize@.len(), forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).0 == i && *$it.all()[i].1 == to_serialize@[i],
        message.size() == to_serialize@.len(), message.kind() == w.wire().kind, w.wire().a.len() == to_serialize@.len(),
        w.wire() =~= (Wire { a: w.wire().a, ..blank(Kind::Unsubscribe) }), forall|i: int| 0 <= i < $it.pos() ==> #[trigger] w.wire().a[i] == to_serialize@[i],
        fits(*self), *self == Message::Unsubscribe(*to_serialize)
@afterloop 1
    proof { assert(w.wire().a =~= to_serialize@); }
@end
    proof { assert(w.wire().a =~= to_wire(*self).a); assert(w.wire().b =~= to_wire(*self).b); assert(w.wire().s =~= to_wire(*self).s); }
#end
#fn Message::deserialize
@ret r
@params bytes
@prop C14
@spec
    ensures forall|m: Message| wire_of(bytes@) == Some(#[trigger] to_wire(m)) ==> (r matches Ok(x) && same_message(x, m))
#end
#rawverify
/// what was encoded decodes to the same message
pub fn vx_there_and_back(m: &Message, Tracked(w): Tracked<&mut World>)
    requires fits(*m)
{
    let b = m.serialize(Tracked(w));
    assert(b is Ok);
    if let Ok(b) = b {
        let r = Message::deserialize(b.as_slice());
        assert(wire_of(b@) == Some(to_wire(*m)));
        assert(r matches Ok(x) && same_message(x, *m));
    }
}
#end
