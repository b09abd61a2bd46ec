// ---- bundles, their live ranges, and what is stored per register (the template declares Ctx, Env, Function and UseList)
//@ include prelude.rs
//@ include preg.rs
//@ include alloc.rs
fn vx_max(a: u32, b: u32) -> (res: u32) ensures res == (if a < b { b } else { a }) { if a < b { b } else { a } }
//@ item src/lib.rs struct ProgPoint derive(Clone,Copy,PartialEq,Eq,Structural)
//@ fn src/lib.rs ProgPoint::to_index
//@ spec
    ensures res == self.bits
//@ end
//@ fn src/lib.rs ProgPoint::from_index
//@ spec
    ensures res.bits == index
//@ end
//@ fn src/lib.rs ProgPoint::next
//@ spec
    requires self.bits < u32::MAX
    ensures res.bits == self.bits + 1
//@ end
//@ fn src/lib.rs ProgPoint::prev
//@ spec
    requires self.bits > 0
    ensures res.bits == self.bits - 1
//@ end
//@ fn src/lib.rs PReg::index
//@ spec
    ensures res == self.bits
//@ end
//@ item src/lib.rs aconst PReg::NUM_INDEX exec Self::NUM_INDEX == 256 | assert((1usize << 8usize) == 256usize) by(bit_vector); assert((1usize << 6usize) == 64usize) by(bit_vector);
//@ fn src/lib.rs PReg::from_index
//@ spec
    ensures res.bits == index as u8
//@ entry
    proof { let i = index; assert((i & 255usize) as u8 == i as u8) by(bit_vector); }
//@ end
uninterp spec fn no_preg() -> PReg;
//@ fn src/lib.rs PReg::invalid external
//@ spec
    ensures res == no_preg()
//@ end
spec fn at_reg(p: PReg) -> Allocation { Allocation { bits: (1u32 << 29u32) | (p.bits as u32) } }
//@ fn src/lib.rs Allocation::reg
//@ spec
    ensures res == at_reg(preg), res.k() == 1
//@ entry
    proof {
        let b = preg.bits;
        assert(b as usize <= 255 && 255usize < (1usize << 28usize)) by(bit_vector);
        assert((((1u32 << 29u32) | b as u32) >> 29u32) & 7u32 == 1u32) by(bit_vector);
    }
//@ end
impl Allocation { spec fn idx(self) -> u32 { self.bits & 0x0fff_ffffu32 } }
//@ fn src/lib.rs Allocation::index
//@ spec
    ensures res == self.idx()
//@ entry
    proof { let b = self.bits; assert((1u32 << 28u32) == 0x1000_0000u32) by(bit_vector); }
//@ end
/// The register that a location of the register kind names.
spec fn regof(a: Allocation) -> PReg { PReg { bits: a.idx() as u8 } }
proof fn regof_reg(p: PReg) ensures regof(at_reg(p)) == p, at_reg(p).k() == 1 {
    let b = p.bits;
    assert((((1u32 << 29u32) | b as u32) & 0x0fff_ffffu32) as u8 == b) by(bit_vector);
    assert((((1u32 << 29u32) | b as u32) >> 29u32) & 7u32 == 1u32) by(bit_vector);
}
//@ fn src/lib.rs Allocation::as_reg
//@ spec
    requires self.k() <= 2
    ensures res == (if self.k() == 1 { Some(regof(self)) } else { None })
//@ end
//@ item src/index.rs!define_index!LiveRangeIndex struct LiveRangeIndex
//@ item src/index.rs!define_index!LiveBundleIndex struct LiveBundleIndex
//@ item src/index.rs!define_index!SpillSetIndex struct SpillSetIndex
//@ item src/index.rs!define_index!VRegIndex struct VRegIndex
//@ item src/index.rs!define_index!PRegIndex struct PRegIndex
//@ fn src/index.rs!define_index!LiveRangeIndex LiveRangeIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!LiveRangeIndex LiveRangeIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!PRegIndex PRegIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!PRegIndex PRegIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!PRegIndex PRegIndex::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ fn src/index.rs!define_index!PRegIndex PRegIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ include ordmap.rs

/// Walking a map of ranges in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
struct VxWalk<'a, V> { v: &'a V }
impl<'a, V> VxWalk<'a, V> {
    uninterp spec fn rest(&self) -> Seq<(LiveRangeKey, V)>;
    fn peekable(self) -> (res: VxWalk<'a, V>) ensures res == self { self }
    #[verifier::external_body]
    fn peek(&self) -> (res: Option<(&'a LiveRangeKey, &'a V)>)
        ensures match res { Some(p) => self.rest().len() > 0 && (*p.0, *p.1) == self.rest()[0], None => self.rest().len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<(&'a LiveRangeKey, &'a V)>)
        ensures match res { Some(p) => old(self).rest().len() > 0 && (*p.0, *p.1) == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 }
    { unimplemented!() }
}
impl<V> VxOrdMap<LiveRangeKey, V> {
    /// The stored ranges, in order, that do not end at or before the key's start.
    #[verifier::external_body]
    fn vx_range_from(&self, k: LiveRangeKey) -> (res: VxWalk<'_, V>)
        requires self.wf(), k.from <= k.to
        ensures inorder(res.rest(), self@), forall|a: LiveRangeKey| #[trigger] self@.contains_key(a) ==> (a.to > k.from <==> listed(res.rest(), a))
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &LiveRangeKey) -> (res: Option<V>)
        requires old(self).wf(), proper(*k)
        ensures old(self)@.contains_key(*k) ==> final(self)@ == old(self)@.remove(*k)
    { unimplemented!() }
}
spec fn listed<V>(s: Seq<(LiveRangeKey, V)>, a: LiveRangeKey) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == a }
/// Ranges of the map, one after the other.
spec fn inorder<V>(s: Seq<(LiveRangeKey, V)>, m: Map<LiveRangeKey, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 && proper(s[i].0)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.to <= (#[trigger] s[j]).0.from
}
/// How many of the first ones end at or before p.
spec fn early<V>(s: Seq<(LiveRangeKey, V)>, p: u32) -> nat decreases s.len() { if s.len() == 0 || s[0].0.to > p { 0 } else { 1 + early(s.drop_first(), p) } }
//@ item src/ion/data_structures.rs struct LiveRangeSet derive()
//@ item src/ion/data_structures.rs struct PRegData derive()
//@ item src/ion/data_structures.rs struct LiveRangeListEntry
type LiveRangeList = Vec<LiveRangeListEntry>;
type LiveBundleVec = Vec<LiveBundleIndex>;
//@ item src/ion/data_structures.rs struct LiveRange derive()
//@ item src/ion/data_structures.rs struct LiveBundle derive()
//@ item src/ion/data_structures.rs const BUNDLE_MAX_SPILL_WEIGHT exec BUNDLE_MAX_SPILL_WEIGHT == 0xfff_ffff | assert((1u32 << 28u32) == 0x1000_0000u32) by(bit_vector);
//@ fn src/ion/data_structures.rs LiveBundle::cached_spill_weight
//@ spec
    ensures res == weight(*self)
//@ end
spec fn weight(b: LiveBundle) -> u32 { b.spill_weight_and_props & 0xfff_ffffu32 }
struct LiveRanges { storage: Vec<LiveRange> }
impl LiveRanges {
    spec fn view(&self) -> Seq<LiveRange> { self.storage@ }
    fn vx_at(&self, i: LiveRangeIndex) -> (res: &LiveRange) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
}
struct LiveBundles { storage: Vec<LiveBundle> }
impl LiveBundles {
    spec fn view(&self) -> Seq<LiveBundle> { self.storage@ }
    fn vx_at(&self, i: LiveBundleIndex) -> (res: &LiveBundle) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
    fn vx_at_mut(&mut self, i: LiveBundleIndex) -> (res: &mut LiveBundle) requires i.0 < old(self)@.len()
        ensures *res == old(self)@[i.0 as int], final(self)@ == old(self)@.update(i.0 as int, *final(res)) { &mut self.storage[i.0 as usize] }
}
type Ranges = Seq<LiveRangeListEntry>;
spec fn span(e: LiveRangeListEntry) -> LiveRangeKey { key(e.range) }
type Taken = Map<LiveRangeKey, LiveRangeIndex>;
/// A bundle's ranges: non-empty, one after the other.
spec fn tidy(l: Ranges) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> proper(span(#[trigger] l[i]))
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).range.to.bits <= (#[trigger] l[j]).range.from.bits
}
spec fn within(l: Ranges, k: LiveRangeKey) -> bool { exists|i: int| 0 <= i < l.len() && span(#[trigger] l[i]) == k }
impl<'a, F: Function> Env<'a, F> {
    spec fn map(self, r: int) -> VxOrdMap<LiveRangeKey, LiveRangeIndex> { self.ctx.pregs@[r].allocations.btree }
    spec fn list(self, b: LiveBundleIndex) -> Ranges { self.ctx.bundles@[b.0 as int].ranges@ }
    /// Stored ranges are live ranges of bundles, or reservations (u32::MAX); those of one register do not overlap.
    spec fn wf(self) -> bool { sound(self.ctx.pregs@, self.ctx.ranges@, self.ctx.bundles@.len()) }
    /// The same but for register r, bundle b, and work lists.
    spec fn frame(self, o: Env<'a, F>, r: int, b: int) -> bool {
        &&& self.ctx.pregs@ == o.ctx.pregs@.update(r, self.ctx.pregs@[r]) && self.ctx.pregs@[r].is_stack == o.ctx.pregs@[r].is_stack
        &&& self.ctx.ranges == o.ctx.ranges
        &&& self.ctx.bundles@ == o.ctx.bundles@.update(b, LiveBundle { allocation: self.ctx.bundles@[b].allocation, ..o.ctx.bundles@[b] })
    }
    /// Stored range k is in the way of l.
    spec fn hits(self, r: int, l: Ranges, k: LiveRangeKey) -> bool { self.map(r)@.contains_key(k) && exists|i: int| 0 <= i < l.len() && over(k, span(#[trigger] l[i])) }
    spec fn fixed(self, r: int, k: LiveRangeKey) -> bool { self.map(r)@[k].0 == u32::MAX }
    spec fn owner(self, r: int, k: LiveRangeKey) -> LiveBundleIndex { self.ctx.ranges@[self.map(r)@[k].0 as int].bundle }
    /// c is the bundle of a stored range that is in the way of l.
    spec fn blocks(self, r: int, l: Ranges, c: LiveBundleIndex) -> bool { exists|k: LiveRangeKey| #[trigger] self.hits(r, l, k) && !self.fixed(r, k) && self.owner(r, k) == c }
    spec fn accounted(self, r: int, c: Seq<LiveBundleIndex>, k: LiveRangeKey) -> bool { !self.fixed(r, k) && c.contains(self.owner(r, k)) }
}
spec fn sound(p: Seq<PRegData>, g: Seq<LiveRange>, n: nat) -> bool {
    &&& p.len() == 256
    &&& forall|r: int| 0 <= r < 256 ==> (#[trigger] p[r]).allocations.btree.wf()
    &&& forall|r: int, k: LiveRangeKey| 0 <= r < 256 && #[trigger] p[r].allocations.btree@.contains_key(k) ==> p[r].allocations.btree@[k].0 == u32::MAX ||
            p[r].allocations.btree@[k].0 < g.len() && g[p[r].allocations.btree@[k].0 as int].bundle.0 < n
}
/// The bookkeeping of register assignments: a live range is its bundle's; a bundle in a register has its ranges stored there; stored ranges are of bundles in that register.
spec fn owns<'a, F: Function>(e: Env<'a, F>, b: int, i: int) -> bool { let x = e.ctx.bundles@[b].ranges@[i].index; x.0 < e.ctx.ranges@.len() && e.ctx.ranges@[x.0 as int].bundle.0 == b }
spec fn stored<'a, F: Function>(e: Env<'a, F>, b: int, i: int) -> bool {
    let r = regof(e.ctx.bundles@[b].allocation).bits as int; let x = e.ctx.bundles@[b].ranges@[i];
    e.ctx.bundles@[b].allocation == at_reg(PReg { bits: r as u8 }) && e.map(r)@.contains_key(span(x)) && e.map(r)@[span(x)] == x.index
}
spec fn backed<'a, F: Function>(e: Env<'a, F>, r: int, k: LiveRangeKey) -> bool {
    let l = e.list(e.owner(r, k));
    e.ctx.bundles@[e.owner(r, k).0 as int].allocation == at_reg(PReg { bits: r as u8 }) && exists|i: int| 0 <= i < l.len() && span(#[trigger] l[i]) == k && l[i].index == e.map(r)@[k]
}
spec fn assigned<'a, F: Function>(e: Env<'a, F>) -> bool { booked(e) && forall|b: int| 0 <= b < e.ctx.bundles@.len() ==> tidy((#[trigger] e.ctx.bundles@[b]).ranges@) }
/// A bundle that is in no register may wait with its ranges in any order.
spec fn booked<'a, F: Function>(e: Env<'a, F>) -> bool {
    &&& e.wf() && e.ctx.ranges@.len() < u32::MAX
    &&& forall|b: int| 0 <= b < e.ctx.bundles@.len() && (#[trigger] e.ctx.bundles@[b]).allocation.k() == 1 ==> tidy(e.ctx.bundles@[b].ranges@)
    &&& forall|b: int, i: int| 0 <= b < e.ctx.bundles@.len() && 0 <= i < e.ctx.bundles@[b].ranges@.len() ==> #[trigger] owns(e, b, i)
    &&& forall|b: int, i: int| 0 <= b < e.ctx.bundles@.len() && 0 <= i < e.ctx.bundles@[b].ranges@.len() && e.ctx.bundles@[b].allocation.k() == 1 ==> #[trigger] stored(e, b, i)
    &&& forall|r: int, k: LiveRangeKey| 0 <= r < 256 && e.map(r)@.contains_key(k) && !e.fixed(r, k) ==> #[trigger] backed(e, r, k)
}
/// So two bundles in one register have no ranges that overlap.
proof fn apart<'a, F: Function>(e: Env<'a, F>, a: int, b: int, i: int, j: int)
    requires booked(e), 0 <= a < e.ctx.bundles@.len(), 0 <= b < e.ctx.bundles@.len(), a != b, e.ctx.bundles@[a].allocation.k() == 1, e.ctx.bundles@[a].allocation == e.ctx.bundles@[b].allocation,
        0 <= i < e.ctx.bundles@[a].ranges@.len(), 0 <= j < e.ctx.bundles@[b].ranges@.len()
    ensures !over(span(e.ctx.bundles@[a].ranges@[i]), span(e.ctx.bundles@[b].ranges@[j]))
{
    assert(stored(e, a, i) && stored(e, b, j) && owns(e, a, i) && owns(e, b, j));
    let r = regof(e.ctx.bundles@[a].allocation).bits as int;
    assert(e.ctx.pregs@[r].allocations.btree.wf());
    let (x, y) = (span(e.ctx.bundles@[a].ranges@[i]), span(e.ctx.bundles@[b].ranges@[j]));
    assert(e.map(r)@.contains_key(x) && e.map(r)@.contains_key(y));
}
