// ---- stand-ins for FxHashMap / FxHashSet: finite maps and sets, under the contracts their documentation gives
// (assumed; the model crate used with Kani and the concrete runs implements the same operations).
// The contents are ghost, so two of them are equal exactly if they hold the same things.
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
struct FxHashMap<K, V> { m: Ghost<Map<K, V>>, p: core::marker::PhantomData<(K, V)> }
#[verifier::reject_recursive_types(K)]
struct FxHashSet<K> { m: Ghost<Set<K>>, p: core::marker::PhantomData<K> }
/// Mutable references to the values of a map, each key once, in some order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxIterMut<'a, K, V> { p: core::marker::PhantomData<&'a mut (K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxValuesMut<'a, K, V> { p: core::marker::PhantomData<&'a mut (K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct VxSetIter<'a, K> { p: core::marker::PhantomData<&'a K> }
spec fn lists<K>(ks: Seq<K>, d: Set<K>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|i: int| 0 <= i < ks.len() ==> d.contains(#[trigger] ks[i])
    &&& forall|k: K| #[trigger] d.contains(k) ==> ks.contains(k)
}
impl<'a, K, V> VxIterMut<'a, K, V> {
    uninterp spec fn keys(&self) -> Seq<K>;
    uninterp spec fn at(&self) -> int;
    uninterp spec fn was(&self) -> Map<K, V>;
    #[verifier::prophetic]
    uninterp spec fn fin(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<(&'a K, &'a mut V)>)
        ensures final(self).keys() == old(self).keys(), final(self).was() == old(self).was(), final(self).fin() == old(self).fin(),
            final(self).at() == old(self).at() + 1, // how often it was called
            old(self).at() >= old(self).keys().len() ==> res is None,
            old(self).at() < old(self).keys().len() ==> res is Some
                && *res->Some_0.0 == old(self).keys()[old(self).at()] && *res->Some_0.1 == old(self).was()[*res->Some_0.0] && *final(res->Some_0.1) == old(self).fin()[*res->Some_0.0]
    { unimplemented!() }
}
impl<'a, K, V> VxValuesMut<'a, K, V> {
    uninterp spec fn keys(&self) -> Seq<K>;
    uninterp spec fn at(&self) -> int;
    uninterp spec fn was(&self) -> Map<K, V>;
    #[verifier::prophetic]
    uninterp spec fn fin(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<&'a mut V>)
        ensures final(self).keys() == old(self).keys(), final(self).was() == old(self).was(), final(self).fin() == old(self).fin(),
            final(self).at() == old(self).at() + 1, // how often it was called
            old(self).at() >= old(self).keys().len() ==> res is None,
            old(self).at() < old(self).keys().len() ==> res is Some
                && *res->Some_0 == old(self).was()[old(self).keys()[old(self).at()]] && *final(res->Some_0) == old(self).fin()[old(self).keys()[old(self).at()]]
    { unimplemented!() }
}
impl<'a, K> VxSetIter<'a, K> {
    uninterp spec fn keys(&self) -> Seq<K>;
    uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<&'a K>)
        ensures final(self).keys() == old(self).keys(),
            final(self).at() == old(self).at() + 1, // how often it was called
            old(self).at() >= old(self).keys().len() ==> res is None,
            old(self).at() < old(self).keys().len() ==> res is Some && *res->Some_0 == old(self).keys()[old(self).at()]
    { unimplemented!() }
}
/// IntoIterator: identity on iterators, a reference to a set iterates over it.
trait VxInto: Sized { type Out; spec fn rel(self, r: Self::Out) -> bool; fn vx_into(self) -> (r: Self::Out) ensures self.rel(r); }
impl<'a, K, V> VxInto for VxIterMut<'a, K, V> { type Out = VxIterMut<'a, K, V>; spec fn rel(self, r: VxIterMut<'a, K, V>) -> bool { self == r } fn vx_into(self) -> (r: VxIterMut<'a, K, V>) { self } }
impl<'a, K, V> VxInto for VxValuesMut<'a, K, V> { type Out = VxValuesMut<'a, K, V>; spec fn rel(self, r: VxValuesMut<'a, K, V>) -> bool { self == r } fn vx_into(self) -> (r: VxValuesMut<'a, K, V>) { self } }
impl<'a, K> VxInto for VxSetIter<'a, K> { type Out = VxSetIter<'a, K>; spec fn rel(self, r: VxSetIter<'a, K>) -> bool { self == r } fn vx_into(self) -> (r: VxSetIter<'a, K>) { self } }
impl<'a, K> VxInto for &'a FxHashSet<K> { type Out = VxSetIter<'a, K>; spec fn rel(self, r: VxSetIter<'a, K>) -> bool { lists(r.keys(), self@) && r.at() == 0 } fn vx_into(self) -> (r: VxSetIter<'a, K>) { self.iter() } }
fn vx_into_iter<A: VxInto>(a: A) -> (res: A::Out) ensures a.rel(res) { a.vx_into() }
impl<K, V> FxHashMap<K, V> {
    spec fn view(&self) -> Map<K, V> { self.m@ }
    fn default() -> (res: Self) ensures res@ == Map::<K, V>::empty() { FxHashMap { m: Ghost(Map::empty()), p: core::marker::PhantomData } }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (res: Option<&V>)
        ensures match res { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (res: Option<&mut V>)
        ensures match res { Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (res: bool) ensures res == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (res: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (res: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    fn vx_or_insert(&mut self, k: K, v: V) -> (res: &mut V)
        ensures *res == (if old(self)@.dom().contains(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(res))
    { unimplemented!() }
    #[verifier::external_body]
    fn values_mut(&mut self) -> (res: VxValuesMut<'_, K, V>)
        ensures lists(res.keys(), old(self)@.dom()), res.at() == 0, res.was() == old(self)@, final(self)@ == res.fin(), res.fin().dom() == old(self)@.dom()
    { unimplemented!() }
    #[verifier::external_body]
    fn iter_mut(&mut self) -> (res: VxIterMut<'_, K, V>)
        ensures lists(res.keys(), old(self)@.dom()), res.at() == 0, res.was() == old(self)@, final(self)@ == res.fin(), res.fin().dom() == old(self)@.dom()
    { unimplemented!() }
    /// The values a retained entry has afterwards are those the predicate leaves (predicates that change them are not covered).
    #[verifier::external_body]
    fn retain<P: Fn(&K, &V) -> bool>(&mut self, f: P)
        requires forall|k: K| #[trigger] old(self)@.dom().contains(k) ==> call_requires(f, (&k, &old(self)@[k]))
        ensures
            forall|k: K| #[trigger] final(self)@.dom().contains(k) ==> old(self)@.dom().contains(k) && final(self)@[k] == old(self)@[k] && call_ensures(f, (&k, &old(self)@[k]), true),
            forall|k: K| #[trigger] old(self)@.dom().contains(k) && !final(self)@.dom().contains(k) ==> call_ensures(f, (&k, &old(self)@[k]), false),
    { unimplemented!() }
}
impl<K> FxHashSet<K> {
    spec fn view(&self) -> Set<K> { self.m@ }
    fn default() -> (res: Self) ensures res@ == Set::<K>::empty() { FxHashSet { m: Ghost(Set::empty()), p: core::marker::PhantomData } }
    #[verifier::external_body]
    fn contains(&self, k: &K) -> (res: bool) ensures res == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (res: bool) ensures final(self)@ == old(self)@.insert(k), res == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (res: bool) ensures final(self)@ == old(self)@.remove(*k), res == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn iter(&self) -> (res: VxSetIter<'_, K>) ensures lists(res.keys(), self@), res.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn extend(&mut self, v: Vec<K>) ensures forall|k: K| #[trigger] final(self)@.contains(k) <==> old(self)@.contains(k) || v@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    fn retain<P: Fn(&K) -> bool>(&mut self, f: P)
        requires forall|k: K| #[trigger] old(self)@.contains(k) ==> call_requires(f, (&k,))
        ensures
            forall|k: K| #[trigger] final(self)@.contains(k) ==> old(self)@.contains(k) && call_ensures(f, (&k,), true),
            forall|k: K| #[trigger] old(self)@.contains(k) && !final(self)@.contains(k) ==> call_ensures(f, (&k,), false),
    { unimplemented!() }
}
/// Clones of maps and sets of values whose clones are equal to them.
impl<K, V> Clone for FxHashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl<K> Clone for FxHashSet<K> { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
