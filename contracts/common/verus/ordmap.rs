//@ item src/ion/data_structures.rs struct CodeRange
//@ item src/ion/data_structures.rs struct LiveRangeKey

// ---- the order the map of a slot keeps its ranges by
//@ fn src/ion/data_structures.rs LiveRangeKey::from_range
//@ spec
    ensures res == key(*range)
//@ end
impl vstd::std_specs::cmp::PartialEqSpecImpl for LiveRangeKey {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &LiveRangeKey) -> bool { over(*self, *o) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LiveRangeKey {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &LiveRangeKey) -> Option<core::cmp::Ordering> { Some(ord(*self, *o)) }
}
//@ fn src/ion/data_structures.rs LiveRangeKey::eq
//@ impl PartialEq for LiveRangeKey
//@ end
//@ fn src/ion/data_structures.rs LiveRangeKey::partial_cmp
//@ impl PartialOrd for LiveRangeKey
//@ end
//@ fn src/ion/data_structures.rs LiveRangeKey::cmp
//@ spec
    ensures res == ord(*self, *other), self.from < self.to && other.from < other.to ==> (res is Equal <==> over(*self, *other)) && (res is Less <==> self.to <= other.from) && (res is Greater <==> other.to <= self.from)
//@ end
spec fn key(r: CodeRange) -> LiveRangeKey { LiveRangeKey { from: r.from.bits, to: r.to.bits } }
spec fn ord(a: LiveRangeKey, b: LiveRangeKey) -> core::cmp::Ordering { if a.to <= b.from { core::cmp::Ordering::Less } else if a.from >= b.to { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } }
/// The two ranges have a point in common.
spec fn over(a: LiveRangeKey, b: LiveRangeKey) -> bool { a.from < b.to && b.from < a.to }
spec fn proper(a: LiveRangeKey) -> bool { a.from < a.to }

/// Standing for BTreeMap keyed by ranges: under the order of LiveRangeKey::cmp (proved above to take overlapping ranges, and no others, as
/// equal), a lookup finds a stored range overlapping the key, as long as the stored ranges do not overlap each other (then that order is total on them).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxOrdMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<V> VxOrdMap<LiveRangeKey, V> {
    uninterp spec fn view(&self) -> Map<LiveRangeKey, V>;
    /// What a map ordered by ranges needs.
    spec fn wf(&self) -> bool {
        &&& forall|a: LiveRangeKey| #[trigger] self@.contains_key(a) ==> proper(a)
        &&& forall|a: LiveRangeKey, b: LiveRangeKey| #[trigger] self@.contains_key(a) && #[trigger] self@.contains_key(b) && a != b ==> !over(a, b)
    }
    spec fn hit(&self, k: LiveRangeKey) -> bool { exists|a: LiveRangeKey| #[trigger] self@.contains_key(a) && over(a, k) }
    #[verifier::external_body]
    fn contains_key(&self, k: &LiveRangeKey) -> (res: bool)
        requires self.wf(), proper(*k)
        ensures res == self.hit(*k)
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: LiveRangeKey, v: V) -> (res: Option<V>)
        requires old(self).wf(), proper(k)
        ensures !old(self).hit(k) ==> res is None && final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
}
