Pruning of topic lists (C16): the default method every deployment's topics inherit, for an arbitrary notion of valid topic
#include ident.vc
#include topics.vc
#source cdn-proto/src/discovery/mod.rs
#item struct BrokerIdentifier noderive attr=derive(PartialEq,Eq)
#specfn Self::try_from=topic_of Self::is_valid=topic_ok
#raw
/// the deployment's topics: any type that some bytes are read as
#[verifier::external_body]
pub struct AnyTopic { x: () }
pub uninterp spec fn topic_ok(b: u8) -> bool;
pub uninterp spec fn topic_of(b: u8) -> StdResult<AnyTopic, ()>;
pub broadcast axiom fn ax_topic(b: u8) ensures (#[trigger] topic_of(b) is Ok) == topic_ok(b);
impl AnyTopic {
    #[verifier::external_body]
    pub fn try_from(b: u8) -> (r: StdResult<AnyTopic, ()>) ensures r == topic_of(b) { unimplemented!() }
}
pub open spec fn topic_fn() -> spec_fn(u8) -> bool { |b: u8| topic_ok(b) }
pub open spec fn ok_topics(s: Seq<u8>) -> Seq<u8> { s.filter(topic_fn()) }
pub trait VxDedup { spec fn dq(&self) -> Seq<u8>; fn vx_dedup(&mut self) ensures final(self).dq() == deduped(old(self).dq()); }
impl VxDedup for Vec<u8> { open spec fn dq(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() } }

pub broadcast proof fn lemma_sift(s: Seq<u8>, k: Seq<bool>)
    requires k.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == topic_ok(s[i])
    ensures #[trigger] sift(s, k) == ok_topics(s)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] k.drop_last()[i] == topic_ok(s.drop_last()[i]) by { assert(k.drop_last()[i] == k[i]); }
        lemma_sift(s.drop_last(), k.drop_last());
        assert(k[s.len() - 1] == topic_ok(s[s.len() - 1]));
    }
}
/// nothing but equal neighbours goes, nothing but invalid topics goes
pub broadcast proof fn lemma_deduped(s: Seq<u8>, x: u8)
    ensures #![trigger deduped(s).contains(x)] deduped(s).contains(x) == s.contains(x), (s.len() > 0) == (deduped(s).len() > 0), s.len() > 0 ==> deduped(s).last() == s.last()
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_deduped(p, x);
        lemma_deduped(p, s.last());
        assert(s =~= p.push(s.last()));
        if s.contains(x) && x != s.last() { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(p[i] == x); }
        let d = deduped(p);
        assert(d.push(s.last())[d.len() as int] == s.last());
        if p.len() > 0 { assert(p.last() == s[s.len() - 2]); }
        assert(s.contains(x) == (p.contains(x) || x == s.last())) by { if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); } if x == s.last() { assert(s[s.len() - 1] == x); } }
        if d.len() > 0 && d.last() == s.last() { assert(d[d.len() - 1] == s.last()); }
        else { assert(d.push(s.last()).contains(x) == (d.contains(x) || x == s.last())) by { if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(d.push(s.last())[i] == x); } } }
    }
}
pub broadcast proof fn lemma_ok_topics(s: Seq<u8>, x: u8)
    ensures #[trigger] ok_topics(s).contains(x) == (s.contains(x) && topic_ok(x))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_ok_topics(p, x);
        let d = ok_topics(p);
        assert(s =~= p.push(s.last()));
        if s.contains(x) && x != s.last() { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(p[i] == x); }
        assert(s.contains(x) == (p.contains(x) || x == s.last())) by { if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); } if x == s.last() { assert(s[s.len() - 1] == x); } }
        if topic_ok(s.last()) { assert(d.push(s.last()).contains(x) == (d.contains(x) || x == s.last())) by { assert(d.push(s.last())[d.len() as int] == s.last()); if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(d.push(s.last())[i] == x); } } }
    }
}
pub broadcast group vx_prune { ax_topic, lemma_sift, lemma_deduped, lemma_ok_topics }
#end
#source cdn-proto/src/def.rs
#impl Topic of=trait header=impl~AnyTopic
#fn Topic::prune
@ret r
@params topics
@prop C16
@spec
    ensures pruned_to(old(topics)@, final(topics)@, topic_fn()),
        r is Ok == (final(topics)@.len() > 0)
@begin
    broadcast use vx_prune;
#end
