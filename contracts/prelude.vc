Common environment: trusted contracts of the standard collections and helpers the extractor emits.
#rename iter=vx_iter into_iter=vx_into_iter clone_from=vx_clone_from dedup=vx_dedup retain=vx_retain extend=vx_extend to_vec=vx_to_vec cloned=vx_cloned copied=vx_copied to_string=vx_to_string ::from_iter=vx_from_iter map_or_else=vx_map_or_else map_or=vx_map_or or_else=vx_or_else and_then=vx_and_then unwrap_or_else=vx_unwrap_or_else is_some_and=vx_is_some_and is_none_or=vx_is_none_or is_ok_and=vx_is_ok_and filter=vx_filter sort=vx_sort sort_unstable=vx_sort_unstable reverse=vx_reverse drain=vx_drain
#env
// ---------- equality and cloning are structural for every type of this code base (trusted)
pub broadcast axiom fn ax_eq<T: PartialEq>(a: T, b: T) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_eq2<T: PartialEq>() ensures #[trigger] <T as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_cl<T: Clone>(a: T, b: T) ensures #[trigger] call_ensures(T::clone, (&a,), b) ==> (a == b);
pub broadcast axiom fn ax_it<T>(s: It<T>) ensures #[trigger] s.pos() <= s.all().len();

pub open spec fn vx_same<T>(a: T, b: T) -> bool { a == b }
pub open spec fn vx_deref_clone<T>(a: &T) -> T { *a }
/// `x.clone()` in a closure contract, x a place or a reference to one
pub trait VxDc: Sized { spec fn vx_dc(&self) -> Self; }
impl<T> VxDc for T { open spec fn vx_dc(&self) -> T { *self } }
pub open spec fn vx_as_ref<T>(a: Option<T>) -> Option<&'static T> { match a { Some(x) => Some(&x), None => None } }

// ---------- iterators
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { x: PhantomData<T> }
impl<T> It<T> {
    pub uninterp spec fn all(self) -> Seq<T>;
    pub uninterp spec fn pos(self) -> nat;
    pub open spec fn wf(&self) -> bool { self.pos() <= self.all().len() }
    pub open spec fn left(self) -> nat { (self.all().len() - self.pos()) as nat }
    pub open spec fn rest(self) -> Seq<T> { self.all().subrange(self.pos() as int, self.all().len() as int) }
    pub open spec fn done(self) -> Seq<T> { self.all().subrange(0, self.pos() as int) }
    #[verifier::external_body]
    pub fn vx_has_next(&self) -> (r: bool) ensures r == (self.pos() < self.all().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).all().len()
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1, r == old(self).all()[old(self).pos() as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r == Some(old(self).all()[old(self).pos() as int]),
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],))
        ensures r.pos() == 0, r.all().len() <= self.all().len(),
            forall|j: int| #![trigger r.all()[j]] 0 <= j < r.all().len() ==> self.all().contains(r.all()[j]) && call_ensures(f, (&r.all()[j],), true),
            forall|i: int| 0 <= i < self.all().len() ==> r.all().contains(#[trigger] self.all()[i]) || call_ensures(f, (&self.all()[i],), false),
            self.all().no_duplicates() ==> r.all().no_duplicates(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],))
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> call_ensures(f, (self.all()[i],), r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_requires(f, (old(self).all()[i],))
        ensures r ==> exists|i: int| old(self).pos() <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), true),
            !r ==> forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_requires(f, (old(self).all()[i],))
        ensures !r ==> exists|i: int| old(self).pos() <= i < old(self).all().len() && call_ensures(f, (#[trigger] old(self).all()[i],), false),
            r ==> forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (#[trigger] old(self).all()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().take(n as int) } else { self.all() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::<T>::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.all() == self.all().reverse(), r.all().len() == self.all().len(),
        forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> r.all().contains(self.all()[i]),
        forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self.all().contains(r.all()[i]),
        self.all().no_duplicates() ==> r.all().no_duplicates()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<C: VxIntoIt<Item = T>>(self, c: C) -> (r: It<T>) requires self.pos() == 0
        ensures r.pos() == 0, exists|s: Seq<T>| #[trigger] c.seq_ok(s) && r.all() == self.all() + s && (forall|x: T| #[trigger] r.all().contains(x) <==> self.all().contains(x) || s.contains(x)),
            forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> r.all().contains(self.all()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],))
        ensures r.pos() == 0, r.all().len() <= self.all().len(),
            forall|j: int| #![trigger r.all()[j]] 0 <= j < r.all().len() ==> exists|i: int| 0 <= i < self.all().len() && call_ensures(f, (#[trigger] self.all()[i],), Some(r.all()[j])),
            forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_ensures(f, (self.all()[i],), None) || exists|j: int| 0 <= j < r.all().len() && call_ensures(f, (self.all()[i],), Some(#[trigger] r.all()[j])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<C: VxIntoIt, F: Fn(T) -> C>(self, f: F) -> (r: It<C::Item>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],))
        ensures r.pos() == 0,
            forall|j: int| #![trigger r.all()[j]] 0 <= j < r.all().len() ==> exists|i: int, c: C, s: Seq<C::Item>| 0 <= i < self.all().len() && call_ensures(f, (#[trigger] self.all()[i],), c) && #[trigger] c.seq_ok(s) && s.contains(r.all()[j]),
            forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> exists|c: C, s: Seq<C::Item>| call_ensures(f, (self.all()[i],), c) && #[trigger] c.seq_ok(s) && forall|x: C::Item| #[trigger] s.contains(x) ==> r.all().contains(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_requires(f, (&old(self).all()[i],))
        ensures match r {
            Some(x) => call_ensures(f, (&x,), true) && exists|i: int| old(self).pos() <= i < old(self).all().len() && x == #[trigger] old(self).all()[i],
            None => forall|i: int| old(self).pos() <= i < old(self).all().len() ==> call_ensures(f, (&#[trigger] old(self).all()[i],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self.left() == 0 { None } else { Some(self.all()[self.all().len() - 1]) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],))
        ensures r.pos() == 0, r.all().len() <= self.all().len(), r.all() == self.all().take(r.all().len() as int),
            forall|i: int| 0 <= i < r.all().len() ==> call_ensures(f, (&#[trigger] self.all()[i],), true),
            r.all().len() < self.all().len() ==> call_ensures(f, (&self.all()[r.all().len() as int],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],))
        ensures r.pos() == 0, r.all().len() <= self.all().len(), r.all() == self.all().skip(self.all().len() - r.all().len()),
            forall|i: int| 0 <= i < self.all().len() - r.all().len() ==> call_ensures(f, (&#[trigger] self.all()[i],), true),
            0 < r.all().len() ==> call_ensures(f, (&r.all()[0],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.left() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) requires self.pos() == 0 ensures r.pos() == 0, r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i].0 == i && r.all()[i].1 == self.all()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<B: VxCollect<T>>(self) -> (r: B) requires self.pos() == 0 ensures B::collected(self.all(), r) { unimplemented!() }
}
impl<'a, T> It<&'a T> {
    pub open spec fn derefs(self) -> Seq<T> { self.all().map(|i: int, x: &'a T| *x) }
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: It<T>) ensures r.pos() == self.pos(), r.all().len() == self.all().len(), forall|x: T| #![trigger r.all().contains(x)] r.all().contains(x) <==> self.all().contains(&x), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<T>) ensures r.pos() == self.pos(), r.all().len() == self.all().len(), forall|x: T| #![trigger r.all().contains(x)] r.all().contains(x) <==> self.all().contains(&x), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i] { unimplemented!() }
}
pub trait VxCollect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T> VxCollect<T> for HashSet<T> { open spec fn collected(s: Seq<T>, r: Self) -> bool { r@ =~= s.to_set() && (forall|x: T| #[trigger] r@.contains(x) <==> s.contains(x)) } }
impl<K, V> VxCollect<(K, V)> for HashMap<K, V> {
    open spec fn collected(s: Seq<(K, V)>, r: Self) -> bool {
        (forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> s[j].0 != s[i].0) ==> r@.contains_key((#[trigger] s[i]).0) && r@[s[i].0] == s[i].1)
        && (forall|k: K| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k)
    }
}

/// `for x in e`
pub trait VxIntoIt: Sized { type Item; spec fn seq_ok(self, s: Seq<Self::Item>) -> bool; fn vx_into_it_(self) -> (r: It<Self::Item>) ensures r.pos() == 0, self.seq_ok(r.all()); }
pub fn vx_into_it<C: VxIntoIt>(c: C) -> (r: It<C::Item>) ensures r.pos() == 0, c.seq_ok(r.all()) { c.vx_into_it_() }
impl<T> VxIntoIt for It<T> { type Item = T; open spec fn seq_ok(self, s: Seq<T>) -> bool { s == (if self.pos() == 0 { self.all() } else { self.rest() }) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<T>) { unimplemented!() } }
impl<T> VxIntoIt for Vec<T> { type Item = T; open spec fn seq_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T> VxIntoIt for &'a Vec<T> { type Item = &'a T; open spec fn seq_ok(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i]) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T> VxIntoIt for &'a [T] { type Item = &'a T; open spec fn seq_ok(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && (forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i]) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<&'a T>) { unimplemented!() } }
pub open spec fn lists_set<T>(s: Seq<T>, m: Set<T>) -> bool { s.no_duplicates() && s.len() == m.len() && (forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])) && (forall|x: T| #![trigger m.contains(x)] #![trigger s.contains(x)] m.contains(x) <==> s.contains(x)) }
pub open spec fn lists_set_r<T>(s: Seq<&T>, m: Set<T>) -> bool { s.no_duplicates() && s.len() == m.len() && (forall|i: int| 0 <= i < s.len() ==> m.contains(*(#[trigger] s[i]))) && (forall|x: T| #![trigger m.contains(x)] #![trigger s.contains(&x)] m.contains(x) <==> s.contains(&x)) }
pub open spec fn lists_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    s.no_duplicates() && s.len() == m.dom().len()
    && (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> s.contains((k, m[k])))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0)
}
pub open spec fn lists_map_r<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    s.no_duplicates() && s.len() == m.dom().len()
    && (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> s.contains((&k, &m[k])))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0)
}
impl<T> VxIntoIt for HashSet<T> { type Item = T; open spec fn seq_ok(self, s: Seq<T>) -> bool { lists_set(s, self@) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T> VxIntoIt for &'a HashSet<T> { type Item = &'a T; open spec fn seq_ok(self, s: Seq<&'a T>) -> bool { lists_set_r(s, self@) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<K, V> VxIntoIt for HashMap<K, V> { type Item = (K, V); open spec fn seq_ok(self, s: Seq<(K, V)>) -> bool { lists_map(s, self@) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<(K, V)>) { unimplemented!() } }
impl<'a, K, V> VxIntoIt for &'a HashMap<K, V> { type Item = (&'a K, &'a V); open spec fn seq_ok(self, s: Seq<(&'a K, &'a V)>) -> bool { lists_map_r(s, self@) }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() } }
impl<T> VxIntoIt for Option<T> { type Item = T; open spec fn seq_ok(self, s: Seq<T>) -> bool { s == match self { Some(x) => seq![x], None => seq![] } }
    #[verifier::external_body] fn vx_into_it_(self) -> (r: It<T>) { unimplemented!() } }
pub trait VxInto: VxIntoIt { fn vx_into_iter(self) -> (r: It<Self::Item>) ensures r.pos() == 0, self.seq_ok(r.all()); }
impl<C: VxIntoIt> VxInto for C { fn vx_into_iter(self) -> (r: It<C::Item>) { self.vx_into_it_() } }

// ---------- HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::reject_recursive_types(K)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
#[verifier::reject_recursive_types(K)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V)
        requires (*old(self).map)@.contains_key(old(self).key)
        ensures *r == (*old(self).map)@[old(self).key], final(self).key == old(self).key, final(self).map@ == (*old(self).map)@.insert(old(self).key, *final(r)),
            *final(final(self).map) == *final(old(self).map)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V)
        requires (*old(self.map))@.contains_key(self.key)
        ensures *r == (*old(self.map))@[self.key], (*final(self.map))@ == (*old(self.map))@.insert(self.key, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) requires (*self.map)@.contains_key(self.key) ensures *r == (*old(self.map))@[self.key] { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.key { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V)
        requires (*old(self).map)@.contains_key(old(self).key)
        ensures r == (*old(self).map)@[old(self).key], final(self).key == old(self).key, final(self).map@ == (*old(self).map)@.insert(old(self).key, v),
            *final(final(self).map) == *final(old(self).map)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: V)
        requires (*old(self.map))@.contains_key(self.key)
        ensures r == (*old(self.map))@[self.key], (*final(self.map))@ == (*old(self.map))@.remove(self.key),
    { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, (*final(self.map))@ == (*old(self.map))@.insert(self.key, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn key(&self) -> (r: &K) ensures *r == self.key { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn dflt(r: Self) -> bool; }
impl<T> VxDefault for HashSet<T> { open spec fn dflt(r: Self) -> bool { r@ == Set::<T>::empty() } }
impl<K, V> VxDefault for HashMap<K, V> { open spec fn dflt(r: Self) -> bool { r@ == Map::<K, V>::empty() } }
impl<T> VxDefault for Vec<T> { open spec fn dflt(r: Self) -> bool { r@ == Seq::<T>::empty() } }
impl<T> VxDefault for Option<T> { open spec fn dflt(r: Self) -> bool { r is None } }
/// std::mem::take
#[verifier::external_body]
pub fn take<T: VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), T::dflt(*final(x)) { unimplemented!() }
/// std::mem::replace
#[verifier::external_body]
pub fn replace<T>(x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v { unimplemented!() }
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V) where V: VxDefault
        ensures match self {
            Entry::Occupied(o) => (*o.map)@.contains_key(o.key) ==> *r == (*o.map)@[o.key] && (*final(o.map))@ == (*o.map)@.insert(o.key, *final(r)),
            Entry::Vacant(o) => V::dflt(*r) && (*final(o.map))@ == (*o.map)@.insert(o.key, *final(r)),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures match self {
            Entry::Occupied(o) => (*o.map)@.contains_key(o.key) ==> *r == (*o.map)@[o.key] && (*final(o.map))@ == (*o.map)@.insert(o.key, *final(r)),
            Entry::Vacant(o) => *r == v && (*final(o.map))@ == (*o.map)@.insert(o.key, *final(r)),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        ensures match self {
            Entry::Occupied(o) => (*o.map)@.contains_key(o.key) ==> *r == (*o.map)@[o.key] && (*final(o.map))@ == (*o.map)@.insert(o.key, *final(r)),
            Entry::Vacant(o) => call_ensures(f, (), *r) && (*final(o.map))@ == (*o.map)@.insert(o.key, *final(r)),
        }
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(o) => old(self)@.contains_key(k) && o.key == k && *o.map == *old(self) && *final(self) == *final(o.map),
            Entry::Vacant(o) => !old(self)@.contains_key(k) && o.key == k && *o.map == *old(self) && *final(self) == *final(o.map),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && *final(self) == *old(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some((*k, old(self)@[*k])) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()), r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<(&K, &V)>) ensures r.pos() == 0, lists_map_r(r.all(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&K>) ensures r.pos() == 0, lists_set_r(r.all(), self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_keys(self) -> (r: It<K>) ensures r.pos() == 0, lists_set(r.all(), self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: It<&V>) ensures r.pos() == 0, r.all().len() == self@.dom().len(),
        forall|i: int| 0 <= i < r.all().len() ==> exists|k: K| self@.contains_key(k) && self@[k] == *#[trigger] r.all()[i],
        forall|k: K| #[trigger] self@.contains_key(k) ==> r.all().contains(&self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_values(self) -> (r: It<V>) ensures r.pos() == 0, r.all().len() == self@.dom().len(),
        forall|i: int| 0 <= i < r.all().len() ==> exists|k: K| self@.contains_key(k) && self@[k] == #[trigger] r.all()[i],
        forall|k: K| #[trigger] self@.contains_key(k) ==> r.all().contains(self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: It<(K, V)>) ensures final(self)@ == Map::<K, V>::empty(), r.pos() == 0, lists_map(r.all(), old(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_retain<F: Fn(&K, &mut V) -> bool>(&mut self, f: F)
        requires forall|k: K, v: &mut V| old(self)@.contains_key(k) && *v == old(self)@[k] ==> #[trigger] call_requires(f, (&k, v))
        ensures forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && exists|v: &mut V| *v == old(self)@[k] && *final(v) == final(self)@[k] && #[trigger] call_ensures(f, (&k, v), true),
            forall|k: K| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==> exists|v: &mut V| *v == old(self)@[k] && #[trigger] call_ensures(f, (&k, v), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>) ensures match r { Some(e) => self@.contains_key(*k) && *e.0 == *k && *e.1 == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend<C: VxIntoIt<Item = (K, V)>>(&mut self, c: C)
        ensures exists|s: Seq<(K, V)>| #[trigger] c.seq_ok(s)
            && (forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> s[j].0 != s[i].0) ==> final(self)@.contains_key((#[trigger] s[i]).0) && final(self)@[s[i].0] == s[i].1)
            && (forall|k: K| #[trigger] old(self)@.contains_key(k) ==> final(self)@.contains_key(k))
            && (forall|k: K| #[trigger] final(self)@.contains_key(k) ==> (old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k]) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone_from(&mut self, o: &Self) ensures *final(self) == *o { unimplemented!() }
}
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------- HashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: std::collections::HashSet<T> }
impl<T> View for HashSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &T) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T>::empty()), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<&T>) ensures r.pos() == 0, lists_set_r(r.all(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: It<T>) ensures final(self)@ == Set::<T>::empty(), r.pos() == 0, lists_set(r.all(), old(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|x: T| old(self)@.contains(x) ==> #[trigger] call_requires(f, (&x,))
        ensures forall|x: T| #[trigger] final(self)@.contains(x) ==> old(self)@.contains(x) && call_ensures(f, (&x,), true),
            forall|x: T| #[trigger] old(self)@.contains(x) && !final(self)@.contains(x) ==> call_ensures(f, (&x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &T) -> (r: Option<&T>) ensures r == (if self@.contains(*k) { Some(k) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, k: &T) -> (r: Option<T>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains(*k) { Some(*k) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, o: &HashSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_superset(&self, o: &HashSet<T>) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_disjoint(&self, o: &HashSet<T>) -> (r: bool) ensures r == self@.disjoint(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, o: &HashSet<T>) -> (r: It<&'a T>) ensures r.pos() == 0, lists_set_r(r.all(), self@.difference(o@)), forall|x: T| #![trigger self@.contains(x)] #![trigger o@.contains(x)] self@.contains(x) && !o@.contains(x) ==> r.all().contains(&x) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection<'a>(&'a self, o: &HashSet<T>) -> (r: It<&'a T>) ensures r.pos() == 0, lists_set_r(r.all(), self@.intersect(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn union<'a>(&'a self, o: &'a HashSet<T>) -> (r: It<&'a T>) ensures r.pos() == 0, lists_set_r(r.all(), self@.union(o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend<C: VxIntoIt<Item = T>>(&mut self, c: C) ensures exists|s: Seq<T>| #[trigger] c.seq_ok(s) && final(self)@ =~= old(self)@.union(s.to_set()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone_from(&mut self, o: &Self) ensures *final(self) == *o { unimplemented!() }
}
impl<T> Clone for HashSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// membership, in closure contracts
pub trait VxHas<T> { spec fn has(&self, t: T) -> bool; }
impl<T> VxHas<T> for HashSet<T> { open spec fn has(&self, t: T) -> bool { self@.contains(t) } }
impl<T> VxHas<T> for Vec<T> { open spec fn has(&self, t: T) -> bool { self@.contains(t) } }
impl<K, V> VxHas<K> for HashMap<K, V> { open spec fn has(&self, t: K) -> bool { self@.contains_key(t) } }
impl<'a, T, S: VxHas<T>> VxHas<T> for &'a S { open spec fn has(&self, t: T) -> bool { (**self).has(t) } }
impl<'a, T, S: VxHas<T>> VxHas<T> for &'a mut S { open spec fn has(&self, t: T) -> bool { (**self).has(t) } }
pub open spec fn vx_has<T, S: VxHas<T>>(s: &S, t: &T) -> bool { s.has(*t) }

/// `len()` and `is_empty()`, in closure contracts
pub trait VxLen { spec fn ln(&self) -> nat; }
impl<T> VxLen for HashSet<T> { open spec fn ln(&self) -> nat { self@.len() } }
impl<T> VxLen for Vec<T> { open spec fn ln(&self) -> nat { self@.len() } }
impl<K, V> VxLen for HashMap<K, V> { open spec fn ln(&self) -> nat { self@.dom().len() } }
impl<'a, S: VxLen> VxLen for &'a S { open spec fn ln(&self) -> nat { (**self).ln() } }
pub open spec fn vx_len<S: VxLen>(s: &S) -> nat { s.ln() }

// ---------- Option, Vec and slice helpers without a vstd contract
pub trait VxCloneFrom: Sized { fn vx_clone_from(&mut self, o: &Self) ensures *final(self) == *o; }
impl<T> VxCloneFrom for Option<T> { #[verifier::external_body] fn vx_clone_from(&mut self, o: &Self) { unimplemented!() } }
impl<T> VxCloneFrom for Vec<T> { #[verifier::external_body] fn vx_clone_from(&mut self, o: &Self) { unimplemented!() } }
pub trait VxCloned<T>: Sized { spec fn cl(self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) ensures r == self.cl(); fn vx_copied(self) -> (r: Option<T>) ensures r == self.cl(); }
impl<'a, T> VxCloned<T> for Option<&'a T> { open spec fn cl(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() } }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E>[ core::result::Result::<T, E>::unwrap_or ](r: core::result::Result<T, E>, d: T) -> (x: T) where E: core::marker::Destruct, T: core::marker::Destruct, ensures x == (match r { Ok(v) => v, Err(_) => d });
pub trait VxVec<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: It<&T>) ensures r.pos() == 0, r.all().len() == self.sq().len(), forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]) == self.sq()[i];
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.sq();
}
impl<T> VxVec<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxVec<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VxFromIter<T>: Sized { spec fn listed(s: Seq<T>, r: Self) -> bool; fn vx_from_iter<C: VxIntoIt<Item = T>>(c: C) -> (r: Self) ensures exists|s: Seq<T>| #[trigger] c.seq_ok(s) && Self::listed(s, r); }
impl<T> VxFromIter<T> for Vec<T> { open spec fn listed(s: Seq<T>, r: Self) -> bool { r@ == s } #[verifier::external_body] fn vx_from_iter<C: VxIntoIt<Item = T>>(c: C) -> (r: Self) { unimplemented!() } }
impl<T> VxFromIter<T> for HashSet<T> { open spec fn listed(s: Seq<T>, r: Self) -> bool { r@ =~= s.to_set() && (forall|x: T| #[trigger] r@.contains(x) <==> s.contains(x)) } #[verifier::external_body] fn vx_from_iter<C: VxIntoIt<Item = T>>(c: C) -> (r: Self) { unimplemented!() } }
pub trait VxOpt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
        requires (match self.opt() { None => call_requires(d, ()), Some(x) => call_requires(f, (x,)) })
        ensures (match self.opt() { None => call_ensures(d, (), r), Some(x) => call_ensures(f, (x,), r) });
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires (match self.opt() { None => true, Some(x) => call_requires(f, (x,)) })
        ensures (match self.opt() { None => r == d, Some(x) => call_ensures(f, (x,), r) });
    fn vx_or_else<D: FnOnce() -> Option<T>>(self, d: D) -> (r: Option<T>)
        requires self.opt() is None ==> call_requires(d, ())
        ensures (match self.opt() { None => call_ensures(d, (), r), Some(x) => r == Some(x) });
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires (match self.opt() { None => true, Some(x) => call_requires(f, (x,)) })
        ensures (match self.opt() { None => r is None, Some(x) => call_ensures(f, (x,), r) });
    fn vx_unwrap_or_else<D: FnOnce() -> T>(self, d: D) -> (r: T)
        requires self.opt() is None ==> call_requires(d, ())
        ensures (match self.opt() { None => call_ensures(d, (), r), Some(x) => r == x });
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires (match self.opt() { None => true, Some(x) => call_requires(f, (x,)) })
        ensures (match self.opt() { None => !r, Some(x) => call_ensures(f, (x,), r) });
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires (match self.opt() { None => true, Some(x) => call_requires(f, (x,)) })
        ensures (match self.opt() { None => r, Some(x) => call_ensures(f, (x,), r) });
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires (match self.opt() { None => true, Some(x) => call_requires(f, (&x,)) })
        ensures (match self.opt() { None => r is None, Some(x) => (r == Some(x) && call_ensures(f, (&x,), true)) || (r is None && call_ensures(f, (&x,), false)) });
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body] fn vx_or_else<D: FnOnce() -> Option<T>>(self, d: D) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_else<D: FnOnce() -> T>(self, d: D) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxRes<T, E>: Sized {
    spec fn res(self) -> core::result::Result<T, E>;
    fn vx_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
        requires (match self.res() { Err(e) => call_requires(d, (e,)), Ok(x) => call_requires(f, (x,)) })
        ensures (match self.res() { Err(e) => call_ensures(d, (e,), r), Ok(x) => call_ensures(f, (x,), r) });
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires (match self.res() { Err(e) => true, Ok(x) => call_requires(f, (x,)) })
        ensures (match self.res() { Err(e) => r == d, Ok(x) => call_ensures(f, (x,), r) });
    fn vx_or_else<G, D: FnOnce(E) -> core::result::Result<T, G>>(self, d: D) -> (r: core::result::Result<T, G>)
        requires (match self.res() { Err(e) => call_requires(d, (e,)), Ok(x) => true })
        ensures (match self.res() { Err(e) => call_ensures(d, (e,), r), Ok(x) => r == core::result::Result::<T, G>::Ok(x) });
    fn vx_and_then<U, F: FnOnce(T) -> core::result::Result<U, E>>(self, f: F) -> (r: core::result::Result<U, E>)
        requires (match self.res() { Err(e) => true, Ok(x) => call_requires(f, (x,)) })
        ensures (match self.res() { Err(e) => r == core::result::Result::<U, E>::Err(e), Ok(x) => call_ensures(f, (x,), r) });
    fn vx_unwrap_or_else<D: FnOnce(E) -> T>(self, d: D) -> (r: T)
        requires (match self.res() { Err(e) => call_requires(d, (e,)), Ok(x) => true })
        ensures (match self.res() { Err(e) => call_ensures(d, (e,), r), Ok(x) => r == x });
    fn vx_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires (match self.res() { Err(e) => true, Ok(x) => call_requires(f, (x,)) })
        ensures (match self.res() { Err(e) => !r, Ok(x) => call_ensures(f, (x,), r) });
}
impl<T, E> VxRes<T, E> for core::result::Result<T, E> {
    open spec fn res(self) -> core::result::Result<T, E> { self }
    #[verifier::external_body] fn vx_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body] fn vx_or_else<G, D: FnOnce(E) -> core::result::Result<T, G>>(self, d: D) -> (r: core::result::Result<T, G>) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> core::result::Result<U, E>>(self, f: F) -> (r: core::result::Result<U, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_else<D: FnOnce(E) -> T>(self, d: D) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x);
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], i: usize, j: usize) requires i < old(s)@.len(), j < old(s)@.len() ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub open spec fn vx_perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && a.to_multiset() == b.to_multiset() && (forall|x: T| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) <==> b.contains(x)) && (a.no_duplicates() <==> b.no_duplicates()) }
pub trait VxOrder<T>: Sized {
    spec fn sq(&self) -> Seq<T>;
    fn vx_sort(&mut self) where T: Ord ensures vx_perm(final(self).sq(), old(self).sq());
    fn vx_sort_unstable(&mut self) where T: Ord ensures vx_perm(final(self).sq(), old(self).sq());
    fn vx_reverse(&mut self) ensures final(self).sq() == old(self).sq().reverse(), vx_perm(final(self).sq(), old(self).sq());
}
impl<T> VxOrder<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort(&mut self) where T: Ord { unimplemented!() }
    #[verifier::external_body] fn vx_sort_unstable(&mut self) where T: Ord { unimplemented!() }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
}
pub trait VxExtend<T>: Sized { spec fn esq(&self) -> Seq<T>; fn vx_extend<C: VxIntoIt<Item = T>>(&mut self, c: C) ensures exists|s: Seq<T>| #[trigger] c.seq_ok(s) && final(self).esq() == old(self).esq() + s; }
impl<T> VxExtend<T> for Vec<T> { open spec fn esq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_extend<C: VxIntoIt<Item = T>>(&mut self, c: C) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }

// ---------- order
pub open spec fn gt<C: PartialOrd>(a: C, b: C) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub broadcast axiom fn ax_ord<C: PartialOrd>() ensures #[trigger] <C as PartialOrdSpec>::obeys_partial_cmp_spec();

pub open spec fn vx_lt<C: PartialOrd>(a: C, b: C) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn vx_gt<C: PartialOrd>(a: C, b: C) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub open spec fn vx_le<C: PartialOrd>(a: C, b: C) -> bool { vx_lt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn vx_ge<C: PartialOrd>(a: C, b: C) -> bool { vx_gt(a, b) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
/// references compare as what they refer to
pub broadcast axiom fn ax_ord_ref<C: PartialOrd>(a: &C, b: &C) ensures #[trigger] a.partial_cmp_spec(&b) == (*a).partial_cmp_spec(&*b);
/// the orders of this code base are total (they are derived)
pub broadcast axiom fn ax_ord_total<C: Ord>(a: C, b: C) ensures (#[trigger] a.partial_cmp_spec(&b)) is Some, (a.partial_cmp_spec(&b) == Some(Ordering::Equal)) == (a == b), a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater), a.partial_cmp_spec(&b) == Some(Ordering::Greater) <==> b.partial_cmp_spec(&a) == Some(Ordering::Less);

pub broadcast group vx_axioms { ax_eq, ax_eq2, ax_cl, ax_it, ax_ord, lemma_sift_kept }
// ---------- keeping some of a vector
/// the elements marked to stay
pub open spec fn sift<T>(s: Seq<T>, k: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || k.len() != s.len() { Seq::<T>::empty() } else {
        let r = sift(s.drop_last(), k.drop_last());
        if k.last() { r.push(s.last()) } else { r }
    }
}
pub trait VxVecMut<T> {
    spec fn vq(&self) -> Seq<T>;
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vq().len() ==> call_requires(f, (&old(self).vq()[i],))
        ensures exists|k: Seq<bool>| #![trigger sift(old(self).vq(), k)] k.len() == old(self).vq().len() && (forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&old(self).vq()[i],), #[trigger] k[i])) && final(self).vq() == sift(old(self).vq(), k);
}
impl<T> VxVecMut<T> for Vec<T> { open spec fn vq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() } }
pub broadcast proof fn lemma_sift_kept<T>(s: Seq<T>, k: Seq<bool>)
    requires k.len() == s.len()
    ensures #![trigger sift(s, k)]
        forall|x: T| #[trigger] sift(s, k).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] k[i] && s[i] == x,
        s.no_duplicates() ==> sift(s, k).no_duplicates(),
    decreases s.len()
{
    if s.len() > 0 {
        let (s0, k0) = (s.drop_last(), k.drop_last());
        let n = s.len() - 1;
        lemma_sift_kept(s0, k0);
        let r = sift(s0, k0);
        let q = sift(s, k);
        assert(q =~= if k.last() { r.push(s.last()) } else { r });
        assert forall|x: T| #[trigger] q.contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] k[i] && s[i] == x by {
            if q.contains(x) {
                let j = q.index_of(x);
                if k.last() && j == r.len() { assert(k[n] && s[n] == x); }
                else { assert(r[j] == x); assert(r.contains(x)); let i = choose|i: int| 0 <= i < s0.len() && #[trigger] k0[i] && s0[i] == x; assert(k[i] && s[i] == x); }
            }
            if exists|i: int| 0 <= i < s.len() && #[trigger] k[i] && s[i] == x {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] k[i] && s[i] == x;
                if i == n { assert(q[r.len() as int] == x); }
                else { assert(k0[i] && s0[i] == x); assert(r.contains(x)); let j = r.index_of(x); assert(q[j] == x); }
            }
        }
        if s.no_duplicates() {
            assert(s0.no_duplicates());
            if k.last() {
                if r.contains(s.last()) { let i = choose|i: int| 0 <= i < s0.len() && #[trigger] k0[i] && s0[i] == s.last(); assert(s[i] == s[n]); }
                assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
                    if i == r.len() { assert(r.contains(r[j])); } else if j == r.len() { assert(r.contains(r[i])); }
                }
            }
        }
    } else { assert(sift(s, k) =~= Seq::<T>::empty()); }
}
#end
