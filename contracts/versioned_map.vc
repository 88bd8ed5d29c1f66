Versioned map (C01, C02)
#include prelude.vc
#source cdn-broker/src/connections/versioned_map.rs
#item type Tombstone
#item struct VersionedValue
#item struct VersionedMap attr=verifier::reject_recursive_types(K)
#raw
pub open spec fn vm_wins<K, V, C: PartialOrd>(lm: Map<K, VersionedValue<V>>, lid: C, rm: Map<K, VersionedValue<V>>, rid: C, k: K) -> bool {
    rm.contains_key(k) && (if lm.contains_key(k) {
        rm[k].version > lm[k].version || (rm[k].version == lm[k].version && gt(rid, lid))
    } else { rm[k].value is Some })
}
pub open spec fn vm_merged<K, V, C: PartialOrd>(lm: Map<K, VersionedValue<V>>, lid: C, rm: Map<K, VersionedValue<V>>, rid: C) -> Map<K, VersionedValue<V>> {
    Map::new(
        lm.dom().union(rm.dom()).filter(|k: K| if vm_wins(lm, lid, rm, rid, k) { rm[k].value is Some } else { lm.contains_key(k) }),
        |k: K| if vm_wins(lm, lid, rm, rid, k) { rm[k] } else { lm[k] })
}
impl<K: Eq + Hash + Debug, V: Debug, C> VersionedMap<K, V, C> {
    pub open spec fn m(&self) -> Map<K, VersionedValue<V>> { self.underlying_map@ }
    pub open spec fn dirty(&self) -> Set<K> { self.locally_modified_keys@ }
    pub open spec fn val(&self, k: K) -> Option<V> { if self.m().contains_key(k) { self.m()[k].value } else { None } }
    /// the version counter of `k` has room for one more change
    pub open spec fn room(&self, k: K) -> bool { self.m().contains_key(k) && !self.dirty().contains(k) ==> self.m()[k].version < u64::MAX }
    pub open spec fn after_local(&self, k: K, v: Option<V>) -> Map<K, VersionedValue<V>> {
        self.m().insert(k, VersionedValue { value: v, version: if self.m().contains_key(k) { (self.m()[k].version + if self.dirty().contains(k) { 0int } else { 1int }) as u64 } else { 1u64 } })
    }
    pub open spec fn same_but_local(&self, o: &Self, k: K, v: Option<V>) -> bool {
        self.m() =~= o.after_local(k, v) && self.dirty() =~= o.dirty().insert(k) && self.conflict_identity == o.conflict_identity
    }
    pub open spec fn handed_out(&self, k: K) -> bool { self.dirty().contains(k) && self.m().contains_key(k) }
}
#end
#raw
pub open spec fn vx_opt<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn vx_lists<T>(it: It<T>, s: Set<T>) -> bool { forall|x: T| #[trigger] s.contains(x) <==> it.all().contains(x) }
pub open spec fn vx_done_ok<T>(it: It<T>, d: Set<T>) -> bool {
    (forall|i: int| 0 <= i < it.pos() ==> d.contains(#[trigger] it.all()[i]))
    && (forall|i: int| it.pos() <= i < it.all().len() ==> !d.contains(#[trigger] it.all()[i]))
    && (forall|k: T| #[trigger] d.contains(k) ==> it.all().contains(k))
}
pub proof fn lemma_opt<K, V>(a: Map<K, V>, b: Map<K, V>)
    requires forall|k: K| #[trigger] vx_opt(a, k) == vx_opt(b, k)
    ensures a == b
{
    assert forall|k: K| #[trigger] a.contains_key(k) <==> b.contains_key(k) by { assert(vx_opt(a, k) == vx_opt(b, k)); }
    assert forall|k: K| #[trigger] a.contains_key(k) implies a[k] == b[k] by { assert(vx_opt(a, k) == vx_opt(b, k)); }
    assert(a =~= b);
}
#end
#impl VersionedMap skip=fmt
#fn VersionedMap::new
@ret r
@params conflict_identity
@prop C02 C06
@spec
    ensures r.m() =~= Map::<K, VersionedValue<V>>::empty(), r.dirty() =~= Set::<K>::empty(), r.conflict_identity == conflict_identity,
#end
#fn VersionedMap::is_empty
@ret r
@prop C02 C21
@spec
    ensures r == (self.m().dom() =~= Set::<K>::empty()),
#end
#fn VersionedMap::get
@ret r
@params k
@prop C02 C05
@spec
    ensures match r { Some(v) => self.val(*k) == Some(*v), None => self.val(*k) is None },
#end
#fn VersionedMap::modify_local
@params k v
@prop C02 C06 C07 C08
@spec
    requires old(self).room(k),
    ensures final(self).same_but_local(old(self), k, v),
#end
#fn VersionedMap::insert
@params k v
@prop C02 C06 C08
@spec
    requires old(self).room(k),
    ensures final(self).same_but_local(old(self), k, Some(v)),
#end
#fn VersionedMap::remove
@params k
@prop C02 C06 C07
@spec
    requires old(self).room(k),
    ensures final(self).same_but_local(old(self), k, None),
#end
#fn VersionedMap::remove_if_equals
@params k v
@prop C02 C06 C07
@spec
    requires old(self).room(k),
    ensures
        old(self).val(k) == Some(v) ==> final(self).same_but_local(old(self), k, None),
        old(self).val(k) != Some(v) ==> *final(self) == *old(self),
#end
#fn VersionedMap::remove_by_value_no_modify
@params v
@prop C02
@spec
    ensures
        final(self).dirty() == old(self).dirty(), final(self).conflict_identity == old(self).conflict_identity,
        final(self).m() =~= old(self).m().remove_keys(old(self).m().dom().filter(|k: K| old(self).val(k) == Some(*v))),
@local keys 0
@loop 0
    invariant
        self.dirty() == old(self).dirty(), self.conflict_identity == old(self).conflict_identity,
        forall|k: K| #![trigger vx_opt(self.m(), k)] #![trigger vx_opt(old(self).m(), k)] vx_opt(self.m(), k) == (if vx_done.contains(k) { None } else { vx_opt(old(self).m(), k) }),
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains(#[trigger] $it.all()[i]),
        forall|k: K| #[trigger] vx_done.contains(k) ==> $it.all().contains(k),
        forall|k: K| old(self).val(k) == Some(*v) <==> #[trigger] $it.all().contains(k),
@beforeloop 0
    let ghost mut vx_done = Set::<K>::empty();
@loopstart 0
    proof { vx_done = vx_done.insert($it.all()[$it.pos() - 1]); }
@afterloop 0
    proof {
        let target = old(self).m().remove_keys(old(self).m().dom().filter(|k: K| old(self).val(k) == Some(*v)));
        assert forall|k: K| #[trigger] vx_opt(self.m(), k) == vx_opt(target, k) by { assert(old(self).val(k) == Some(*v) <==> $it.all().contains(k)); }
        lemma_opt(self.m(), target);
    }
#end
#fn VersionedMap::get_full
@ret r
@prop C02 C21
@spec
    ensures r.m() == self.m(), r.dirty() =~= Set::<K>::empty(), r.conflict_identity == self.conflict_identity,
#end
#fn VersionedMap::diff
@ret r
@prop C02 C08 C21
@spec
    ensures
        r.m() =~= old(self).m().restrict(old(self).dirty()),
        r.dirty() =~= Set::<K>::empty(), r.conflict_identity == old(self).conflict_identity,
        final(self).dirty() =~= Set::<K>::empty(), final(self).conflict_identity == old(self).conflict_identity,
        final(self).m() =~= old(self).m().remove_keys(old(self).m().dom().filter(|k: K| old(self).handed_out(k) && old(self).val(k) is None)),
@local diff_map 1
@beforeloop 0
    let ghost mut vx_done = Set::<K>::empty();
    let ghost vx_sent = old(self).m().restrict(old(self).dirty());
    let ghost vx_kept = old(self).m().remove_keys(old(self).m().dom().filter(|k: K| old(self).handed_out(k) && old(self).val(k) is None));
@loop 0
    invariant
        $it.all().no_duplicates(), vx_lists($it, old(self).dirty()), vx_done_ok($it, vx_done),
        self.dirty() =~= Set::<K>::empty(), self.conflict_identity == old(self).conflict_identity,
        forall|k: K| #![trigger vx_opt(self.m(), k)] #![trigger vx_opt(old(self).m(), k)] vx_opt(self.m(), k) == (if vx_done.contains(k) { vx_opt(vx_kept, k) } else { vx_opt(old(self).m(), k) }),
        forall|k: K| #![trigger vx_opt(diff_map@, k)] #![trigger vx_opt(vx_sent, k)] vx_opt(diff_map@, k) == (if vx_done.contains(k) { vx_opt(vx_sent, k) } else { None }),
@loopstart 0
    let ghost vx_pk = $it.all()[$it.pos() - 1];
    proof { assert(vx_opt(self.m(), vx_pk) == vx_opt(old(self).m(), vx_pk)); vx_done = vx_done.insert(vx_pk); }
@afterloop 0
    proof {
        assert forall|k: K| #[trigger] vx_opt(self.m(), k) == vx_opt(vx_kept, k) by { assert(old(self).dirty().contains(k) ==> vx_done.contains(k)); }
        lemma_opt(self.m(), vx_kept);
        assert forall|k: K| #[trigger] vx_opt(diff_map@, k) == vx_opt(vx_sent, k) by { assert(old(self).dirty().contains(k) ==> vx_done.contains(k)); }
        lemma_opt(diff_map@, vx_sent);
    }
#end
#fn VersionedMap::merge
@ret r
@params remote
@prop C01 C07 C08
@spec
    ensures
        final(self).m() =~= vm_merged(old(self).m(), old(self).conflict_identity, remote.m(), remote.conflict_identity),
        final(self).conflict_identity == old(self).conflict_identity,
        forall|k: K| #[trigger] final(self).dirty().contains(k) <==> old(self).dirty().contains(k) && !(old(self).m().contains_key(k) && vm_wins(old(self).m(), old(self).conflict_identity, remote.m(), remote.conflict_identity, k)),
        forall|i: int| 0 <= i < r@.len() ==> vm_wins(old(self).m(), old(self).conflict_identity, remote.m(), remote.conflict_identity, (#[trigger] r@[i]).0) && r@[i].1 == remote.m()[r@[i].0].value,
        forall|k: K| #[trigger] vm_wins(old(self).m(), old(self).conflict_identity, remote.m(), remote.conflict_identity, k) ==> r@.contains((k, remote.m()[k].value)),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
@local changes 0
@beforeloop 0
    let ghost mut vx_done = Set::<K>::empty();
    let ghost lm = old(self).m();
    let ghost lid = old(self).conflict_identity;
    let ghost rm = remote.m();
    let ghost rid = remote.conflict_identity;
    let ghost vx_t = vm_merged(lm, lid, rm, rid);
@loop 0
    invariant
        lists_map($it.all(), rm),
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains((#[trigger] $it.all()[i]).0),
        forall|i: int| $it.pos() <= i < $it.all().len() ==> !vx_done.contains((#[trigger] $it.all()[i]).0),
        forall|k: K| #[trigger] vx_done.contains(k) ==> rm.contains_key(k),
        self.conflict_identity == lid, remote.conflict_identity == rid,
        forall|k: K| #![trigger vx_opt(self.m(), k)] #![trigger vx_opt(lm, k)] vx_opt(self.m(), k) == (if vx_done.contains(k) { vx_opt(vx_t, k) } else { vx_opt(lm, k) }),
        forall|k: K| #[trigger] self.dirty().contains(k) <==> old(self).dirty().contains(k) && !(lm.contains_key(k) && vm_wins(lm, lid, rm, rid, k) && vx_done.contains(k)),
        forall|i: int| 0 <= i < changes@.len() ==> vx_done.contains((#[trigger] changes@[i]).0) && vm_wins(lm, lid, rm, rid, changes@[i].0) && changes@[i].1 == rm[changes@[i].0].value,
        forall|k: K| #[trigger] vx_done.contains(k) && vm_wins(lm, lid, rm, rid, k) ==> changes@.contains((k, rm[k].value)),
        forall|i: int, j: int| 0 <= i < j < changes@.len() ==> (#[trigger] changes@[i]).0 != (#[trigger] changes@[j]).0,
@loopstart 0
    let ghost vx_pk = $it.all()[$it.pos() - 1].0;
    let ghost vx_ch = changes@;
    let ghost vx_d0 = self.dirty();
    proof { vx_done = vx_done.insert(vx_pk); assert(vx_opt(self.m(), vx_pk) == vx_opt(lm, vx_pk)); }
@loopend 0
    proof {
        assert forall|k: K| #[trigger] vx_done.contains(k) && vm_wins(lm, lid, rm, rid, k) implies changes@.contains((k, rm[k].value)) by {
            if k == vx_pk { assert(changes@.last() == (k, rm[k].value)); }
            else { let i = vx_ch.index_of((k, rm[k].value)); assert(changes@[i] == vx_ch[i]); }
        }
    }
@afterloop 0
    proof {
        assert forall|k: K| rm.contains_key(k) implies #[trigger] vx_done.contains(k) by { let i = $it.all().index_of((k, rm[k])); assert($it.all()[i].0 == k); }
        assert forall|k: K| #[trigger] vx_opt(self.m(), k) == vx_opt(vx_t, k) by { assert(rm.contains_key(k) ==> vx_done.contains(k)); }
        lemma_opt(self.m(), vx_t);
        assert forall|k: K| #[trigger] vm_wins(lm, lid, rm, rid, k) implies changes@.contains((k, rm[k].value)) by { assert(vx_done.contains(k)); }
    }
#end
