Subscription index (C03)
#include prelude.vc
#source cdn-broker/src/connections/broadcast/relational_map.rs
#item struct RelationalMap attr=verifier::reject_recursive_types(K);verifier::reject_recursive_types(V)
#raw
impl<K: Hash + PartialEq + Eq + Clone, V: Hash + PartialEq + Eq + Clone> RelationalMap<K, V> {
    /// `v` is listed for the key `k`
    pub open spec fn rel(&self, k: K, v: V) -> bool { self.key_to_values@.contains_key(k) && self.key_to_values@[k]@.contains(v) }
    /// `k` is listed under the value `v`
    pub open spec fn bwd(&self, k: K, v: V) -> bool { self.value_to_keys@.contains_key(v) && self.value_to_keys@[v]@.contains(k) }
    pub open spec fn listed(&self, v: V) -> bool { self.value_to_keys@.contains_key(v) }
    pub open spec fn some_key(&self, v: V) -> bool { exists|k: K| self.rel(k, v) }
    pub open spec fn inv(&self) -> bool {
        (forall|k: K, v: V| #![trigger self.rel(k, v)] #![trigger self.bwd(k, v)] self.rel(k, v) <==> self.bwd(k, v))
        && (forall|v: V| #[trigger] self.listed(v) ==> exists|k: K| self.bwd(k, v))
    }
}
#end
#impl RelationalMap trait=Default
#impl RelationalMap
#fn RelationalMap::default
@ret r
@prop C03
@spec
    ensures r.inv(), forall|k: K, v: V| !r.rel(k, v),
#end
#fn RelationalMap::new
@ret r
@prop C03
@spec
    ensures r.inv(), forall|k: K, v: V| !r.rel(k, v),
#end
#fn RelationalMap::get_keys_by_value
@ret r
@params v
@prop C03 C04
@spec
    requires self.inv(),
    ensures r@.no_duplicates(), forall|k: K| #![trigger r@.contains(k)] #![trigger self.rel(k, *v)] r@.contains(k) <==> self.rel(k, *v),
#end
#fn RelationalMap::get_values
@ret r
@prop C03 C08
@spec
    requires self.inv(),
    ensures r@.no_duplicates(), forall|v: V| #![trigger r@.contains(v)] #![trigger self.some_key(v)] r@.contains(v) <==> self.some_key(v),
@begin
    proof {
        assert forall|v: V| #![trigger self.value_to_keys@.contains_key(v)] #![trigger self.some_key(v)] self.value_to_keys@.contains_key(v) <==> self.some_key(v) by {
            if self.listed(v) { let k = choose|k: K| self.bwd(k, v); assert(self.rel(k, v)); }
            if self.some_key(v) { let k = choose|k: K| self.rel(k, v); assert(self.bwd(k, v)); }
        }
    }
#end
#fn RelationalMap::associate_key_with_values
@params k vs
@prop C03 C06 C08
@spec
    requires old(self).inv(),
    ensures final(self).inv(),
        forall|k2: K, v: V| #![trigger final(self).rel(k2, v)] final(self).rel(k2, v) <==> old(self).rel(k2, v) || (k2 == *k && vs@.contains(v)),
@beforeloop 0
    let ghost mut vx_done = Set::<V>::empty();
    let ghost vx_k2v = self.key_to_values;
@loop 0
    invariant
        self.key_to_values == vx_k2v, $it.all() == vs@,
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains(#[trigger] $it.all()[i]),
        forall|v: V| #[trigger] vx_done.contains(v) ==> vs@.contains(v),
        forall|k2: K, v: V| #![trigger self.bwd(k2, v)] #![trigger old(self).bwd(k2, v)] self.bwd(k2, v) <==> old(self).bwd(k2, v) || (k2 == *k && vx_done.contains(v)),
        forall|v: V| #[trigger] self.listed(v) ==> old(self).listed(v) || vx_done.contains(v),
@loopstart 0
    let ghost vx_pv = $it.all()[$it.pos() - 1];
    let ghost vx_s = *self;
    let ghost vx_d0 = vx_done;
    proof { vx_done = vx_done.insert(vx_pv); }
@loopend 0
    proof {
        assert forall|k2: K, v: V| #![trigger self.bwd(k2, v)] #![trigger old(self).bwd(k2, v)] self.bwd(k2, v) <==> old(self).bwd(k2, v) || (k2 == *k && vx_done.contains(v)) by {
            assert(vx_s.bwd(k2, v) <==> old(self).bwd(k2, v) || (k2 == *k && vx_d0.contains(v)));
        }
        assert forall|v: V| #[trigger] self.listed(v) implies old(self).listed(v) || vx_done.contains(v) by { assert(vx_s.listed(v) || v == vx_pv); }
    }
@afterloop 0
    proof {
        assert forall|v: V| vs@.contains(v) <==> #[trigger] vx_done.contains(v) by { if vs@.contains(v) { assert(vx_done.contains($it.all()[vs@.index_of(v)])); } }
        assert forall|k2: K, v: V| #![trigger self.rel(k2, v)] self.rel(k2, v) <==> old(self).rel(k2, v) || (k2 == *k && vs@.contains(v)) by { }
        assert forall|v: V| #[trigger] self.listed(v) implies exists|k2: K| self.bwd(k2, v) by {
            if vx_done.contains(v) { assert(self.bwd(*k, v)); } else { let k2 = choose|k2: K| old(self).bwd(k2, v); assert(self.bwd(k2, v)); }
        }
        assert(self.inv());
    }
#end
#fn RelationalMap::dissociate_keys_from_value
@params k vs
@prop C03 C06 C08
@spec
    requires old(self).inv(),
    ensures final(self).inv(),
        forall|k2: K, v: V| #![trigger final(self).rel(k2, v)] final(self).rel(k2, v) <==> old(self).rel(k2, v) && !(k2 == *k && vs@.contains(v)),
@beforeloop 0
    let ghost mut vx_done = Set::<V>::empty();
@loop 0
    invariant
        self.key_to_values == old(self).key_to_values, $it.all().len() == vs@.len(), forall|i: int| 0 <= i < vs@.len() ==> *(#[trigger] $it.all()[i]) == vs@[i],
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains(#[trigger] vs@[i]),
        forall|v: V| #[trigger] vx_done.contains(v) ==> vs@.contains(v),
        forall|k2: K, v: V| #![trigger self.bwd(k2, v)] #![trigger old(self).bwd(k2, v)] self.bwd(k2, v) <==> old(self).bwd(k2, v) && !(k2 == *k && vx_done.contains(v)),
        forall|v: V| #[trigger] self.listed(v) ==> exists|k2: K| self.bwd(k2, v),
@loopstart 0
    let ghost vx_pv = vs@[$it.pos() - 1];
    let ghost vx_s = *self;
    let ghost vx_d0 = vx_done;
    proof { vx_done = vx_done.insert(vx_pv); }
@loopend 0
    proof {
        assert forall|k2: K, v: V| #![trigger self.bwd(k2, v)] #![trigger old(self).bwd(k2, v)] self.bwd(k2, v) <==> old(self).bwd(k2, v) && !(k2 == *k && vx_done.contains(v)) by {
            assert(vx_s.bwd(k2, v) <==> old(self).bwd(k2, v) && !(k2 == *k && vx_d0.contains(v)));
        }
        assert forall|v: V| #[trigger] self.listed(v) implies exists|k2: K| self.bwd(k2, v) by {
            assert(vx_s.listed(v));
            if v == vx_pv {
                assert(self.value_to_keys@[v]@.len() != 0);
                let k2 = self.value_to_keys@[v]@.choose();
                assert(self.bwd(k2, v));
            } else { let k2 = choose|k2: K| vx_s.bwd(k2, v); assert(self.bwd(k2, v)); }
        }
    }
@afterloop 0
    let ghost vx_s1 = *self;
    proof { assert forall|v: V| vs@.contains(v) <==> #[trigger] vx_done.contains(v) by { if vs@.contains(v) { assert(vx_done.contains(vs@[vs@.index_of(v)])); } } }
@beforeloop 1
    let ghost mut vx_done2 = Set::<V>::empty();
@loop 1
    invariant
        $it.all().len() == vs@.len(), forall|i: int| 0 <= i < vs@.len() ==> *(#[trigger] $it.all()[i]) == vs@[i],
        forall|i: int| 0 <= i < $it.pos() ==> vx_done2.contains(#[trigger] vs@[i]),
        forall|v: V| #[trigger] vx_done2.contains(v) ==> vs@.contains(v),
        forall|v: V| #![trigger k_vs@.contains(v)] #![trigger old(self).rel(*k, v)] k_vs@.contains(v) <==> old(self).rel(*k, v) && !vx_done2.contains(v),
@local k_vs 0
@loopstart 1
    proof { vx_done2 = vx_done2.insert(vs@[$it.pos() - 1]); }
@afterloop 1
    proof { assert forall|v: V| #![trigger old(self).rel(*k, v)] k_vs@.contains(v) <==> old(self).rel(*k, v) && !vs@.contains(v) by { } assert forall|v: V| vs@.contains(v) <==> #[trigger] vx_done2.contains(v) by { if vs@.contains(v) { assert(vx_done2.contains(vs@[vs@.index_of(v)])); } } }
@end
    proof {
        assert forall|v: V| #[trigger] self.listed(v) implies exists|k2: K| self.bwd(k2, v) by { assert(vx_s1.listed(v)); let k2 = choose|k2: K| vx_s1.bwd(k2, v); assert(self.bwd(k2, v)); }
        assert forall|k2: K, v: V| #![trigger self.rel(k2, v)] self.rel(k2, v) <==> old(self).rel(k2, v) && !(k2 == *k && vs@.contains(v)) by { assert(vs@.contains(v) <==> vx_done.contains(v)); }
        assert forall|k2: K, v: V| #![trigger self.rel(k2, v)] #![trigger self.bwd(k2, v)] self.rel(k2, v) <==> self.bwd(k2, v) by { assert(old(self).rel(k2, v) <==> old(self).bwd(k2, v)); assert(vs@.contains(v) <==> vx_done.contains(v)); }
    }
#end
#fn RelationalMap::remove_key
@params k
@prop C03 C06 C07
@spec
    requires old(self).inv(),
    ensures final(self).inv(),
        forall|k2: K, v: V| #![trigger final(self).rel(k2, v)] final(self).rel(k2, v) <==> old(self).rel(k2, v) && k2 != *k,
@beforeloop 0
    let ghost mut vx_done = Set::<V>::empty();
    let ghost vx_k2v = self.key_to_values;
    proof { assert forall|v: V| #[trigger] self.listed(v) implies exists|k2: K| self.bwd(k2, v) by { assert(old(self).listed(v)); let k2 = choose|k2: K| old(self).bwd(k2, v); assert(self.bwd(k2, v)); } }
@loop 0
    invariant
        self.key_to_values == vx_k2v, forall|v: V| #![trigger old(self).rel(*k, v)] #![trigger $it.all().contains(v)] $it.all().contains(v) <==> old(self).rel(*k, v),
        forall|i: int| 0 <= i < $it.pos() ==> vx_done.contains(#[trigger] $it.all()[i]),
        forall|k2: K, v: V| #![trigger self.bwd(k2, v)] #![trigger old(self).bwd(k2, v)] self.bwd(k2, v) <==> old(self).bwd(k2, v) && !(k2 == *k && vx_done.contains(v)),
        forall|v: V| #[trigger] self.listed(v) ==> exists|k2: K| self.bwd(k2, v),
@loopstart 0
    let ghost vx_pv = $it.all()[$it.pos() - 1];
    let ghost vx_s = *self;
    let ghost vx_d0 = vx_done;
    proof { vx_done = vx_done.insert(vx_pv); }
@loopend 0
    proof {
        assert forall|k2: K, v: V| #![trigger self.bwd(k2, v)] #![trigger old(self).bwd(k2, v)] self.bwd(k2, v) <==> old(self).bwd(k2, v) && !(k2 == *k && vx_done.contains(v)) by {
            assert(vx_s.bwd(k2, v) <==> old(self).bwd(k2, v) && !(k2 == *k && vx_d0.contains(v)));
        }
        assert forall|v: V| #[trigger] self.listed(v) implies exists|k2: K| self.bwd(k2, v) by {
            assert(vx_s.listed(v));
            if v == vx_pv {
                assert(self.value_to_keys@[v]@.len() != 0);
                let k2 = self.value_to_keys@[v]@.choose();
                assert(self.bwd(k2, v));
            } else { let k2 = choose|k2: K| vx_s.bwd(k2, v); assert(self.bwd(k2, v)); }
        }
    }
@afterloop 0
    proof {
        assert forall|v: V| old(self).rel(*k, v) implies #[trigger] vx_done.contains(v) by { let i = $it.all().index_of(v); assert($it.all()[i] == v); }
        assert forall|k2: K, v: V| #![trigger self.rel(k2, v)] #![trigger self.bwd(k2, v)] self.rel(k2, v) <==> self.bwd(k2, v) by { assert(old(self).rel(k2, v) <==> old(self).bwd(k2, v)); }
    }
@end
    proof { assert forall|v: V| #[trigger] self.listed(v) implies exists|k2: K| self.bwd(k2, v) by { if self.value_to_keys == old(self).value_to_keys { assert(old(self).listed(v)); let k2 = choose|k2: K| old(self).bwd(k2, v); assert(self.bwd(k2, v)); } } 
        assert forall|k2: K, v: V| #![trigger self.rel(k2, v)] #![trigger self.bwd(k2, v)] self.rel(k2, v) <==> self.bwd(k2, v) by { assert(old(self).rel(k2, v) <==> old(self).bwd(k2, v)); }
    }
#end
