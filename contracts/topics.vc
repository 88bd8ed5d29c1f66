What pruning a topic list may give (C16)
#raw
/// the list after dropping repeated neighbours
pub open spec fn deduped<T>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() <= 1 { s } else { let d = deduped(s.drop_last()); if s[s.len() - 2] == s.last() { d } else { d.push(s.last()) } }
}
/// the valid topics, runs of equal neighbours collapsed before or after
pub open spec fn pruned_to(v: Seq<u8>, t: Seq<u8>, ok: spec_fn(u8) -> bool) -> bool {
    (t == deduped(v).filter(ok) || t == deduped(v.filter(ok))) && (forall|x: u8| #![trigger t.contains(x)] t.contains(x) == (v.contains(x) && ok(x)))
}
#end
