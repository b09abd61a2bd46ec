use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ type BTreeMap VxOrdMap
//@ type SmallVec Vec
//@ type core::cmp::max vx_max
//@ type alloc::collections::BinaryHeap VxHeap
//@ type core::mem::take vx_take
//@ type LiveRangeList::new_in vx_new_in
//@ deref self.bundles ctx
/// A live range's uses (not read here).
struct UseList { u: u64 }
trait Function {}
//@ include ../../common/verus/bundles.rs
/// FxHashSet of bundles.
#[verifier::external_body]
struct VxBundles { x: u64 }
impl VxBundles {
    uninterp spec fn view(self) -> Set<LiveBundleIndex>;
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Set::<LiveBundleIndex>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, b: LiveBundleIndex) -> (res: bool) ensures res == !old(self)@.contains(b), final(self)@ == old(self)@.insert(b) { unimplemented!() }
}
/// BinaryHeap by what it holds.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxHeap<T> { x: core::marker::PhantomData<T> }
impl<T> VxHeap<T> {
    uninterp spec fn view(self) -> vstd::multiset::Multiset<T>;
    #[verifier::external_body]
    fn push(&mut self, t: T) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
}
//@ item src/ion/data_structures.rs struct PrioQueueEntry derive()
//@ item src/ion/data_structures.rs struct PrioQueue derive()
//@ fn src/ion/data_structures.rs PrioQueue::insert
//@ spec
    ensures final(self).heap@ == old(self).heap@.insert(PrioQueueEntry { prio: prio as u32, bundle, hint })
//@ end
//@ item src/ion/process.rs enum AllocRegResult derive()
/// The parts of Ctx and Env that are used here (all others dropped).
struct Ctx { pregs: Vec<PRegData>, ranges: LiveRanges, bundles: LiveBundles, conflict_set: VxBundles, allocation_queue: PrioQueue, spillsets: SpillSets, spilled_bundles: Vec<LiveBundleIndex>, scratch_conflicts: LiveBundleVec, output: Output, scratch_bump: Bump }
struct Env<'a, F: Function> { func: &'a F, env: &'a MachineEnv, ctx: Ctx }
//@ item src/index.rs!define_index!SpillSlotIndex struct SpillSlotIndex
//@ item src/ion/data_structures.rs struct SpillSet derive()
struct SpillSets { storage: Vec<SpillSet> }
impl SpillSets {
    spec fn view(&self) -> Seq<SpillSet> { self.storage@ }
    fn vx_at(&self, i: SpillSetIndex) -> (res: &SpillSet) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
    fn vx_at_mut(&mut self, i: SpillSetIndex) -> (res: &mut SpillSet) requires i.0 < old(self)@.len()
        ensures *res == old(self)@[i.0 as int], final(self)@ == old(self)@.update(i.0 as int, *final(res)) { &mut self.storage[i.0 as usize] }
}
//@ item src/ion/data_structures.rs struct Stats derive()
struct Output { stats: Stats }
fn vx_take(v: &mut LiveBundleVec) -> (res: LiveBundleVec) ensures res == *old(v), final(v)@.len() == 0 { let mut t = Vec::new(); core::mem::swap(v, &mut t); t }
struct Bump { u: u64 }
impl Bump { fn clone(&self) -> Bump { Bump { u: 0 } } }
fn vx_new_in(b: Bump) -> (res: LiveRangeList) ensures res@.len() == 0 { Vec::new() }
/// The registers to choose from (not looked at here).
struct MachineEnv { x: u64 }
/// The registers in the order they are tried; that there are finitely many is proved in P09.
#[verifier::external_body]
struct RegTraversalIter { x: u64 }
impl RegTraversalIter {
    uninterp spec fn left(self) -> nat;
    #[verifier::external_body]
    fn new(env: &MachineEnv, class: RegClass, fixed: Option<PReg>, hint: Option<PReg>, offset: usize, limit: Option<usize>) -> Self { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<PReg>) ensures res is Some ==> final(self).left() < old(self).left() { unimplemented!() }
}
fn vx_into_iter(i: RegTraversalIter) -> (res: RegTraversalIter) ensures res == i { i }
//@ fn src/lib.rs PReg::as_valid external
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
/// All that assigning does not touch.
spec fn others(a: Ctx, b: Ctx) -> bool { b.spillsets == a.spillsets && b.spilled_bundles == a.spilled_bundles && b.scratch_conflicts == a.scratch_conflicts && b.output == a.output }
/// n has, besides what o has, the ranges of l.
spec fn joined(o: Taken, n: Taken, l: Ranges) -> bool {
    &&& forall|k: LiveRangeKey| #[trigger] n.contains_key(k) <==> o.contains_key(k) || within(l, k)
    &&& forall|i: int| 0 <= i < l.len() ==> n[span(#[trigger] l[i])] == l[i].index
    &&& forall|k: LiveRangeKey| #[trigger] o.contains_key(k) ==> !within(l, k) && n[k] == o[k]
}
/// n is o without the ranges of l.
spec fn parted(o: Taken, n: Taken, l: Ranges) -> bool {
    &&& forall|k: LiveRangeKey| #[trigger] n.contains_key(k) <==> o.contains_key(k) && !within(l, k)
    &&& forall|k: LiveRangeKey| #[trigger] n.contains_key(k) ==> n[k] == o[k]
}
/// Every stored range in the way of l[i] is accounted for.
spec fn done<'a, F: Function>(e: Env<'a, F>, r: int, l: Ranges, c: Seq<LiveBundleIndex>, i: int) -> bool {
    forall|k: LiveRangeKey| #[trigger] e.map(r)@.contains_key(k) && over(k, span(l[i])) ==> e.accounted(r, c, k)
}
/// The walk has passed only stored ranges that end by p, or are accounted for.
spec fn passed<'a, F: Function>(e: Env<'a, F>, r: int, s: Seq<(LiveRangeKey, LiveRangeIndex)>, c: Seq<LiveBundleIndex>, p: u32) -> bool {
    forall|k: LiveRangeKey| #[trigger] e.map(r)@.contains_key(k) ==> listed(s, k) || k.to <= p || e.accounted(r, c, k)
}
/// What is known of the conflicts found so far.
spec fn found<'a, F: Function>(e: Env<'a, F>, r: int, l: Ranges, c: Seq<LiveBundleIndex>, w: u32) -> bool {
    &&& forall|x: int| 0 <= x < c.len() ==> e.blocks(r, l, #[trigger] c[x])
    &&& forall|x: int, y: int| 0 <= x < y < c.len() ==> c[x] != c[y]
    &&& w == 0 || exists|x: int| 0 <= x < c.len() && weight(e.ctx.bundles@[(#[trigger] c[x]).0 as int]) == w
}
spec fn clean<'a, F: Function>(e: Env<'a, F>, r: int, l: Ranges) -> bool { forall|k: LiveRangeKey| e.map(r)@.contains_key(k) ==> !#[trigger] e.hits(r, l, k) }
proof fn dropped<V>(s: Seq<(LiveRangeKey, V)>, m: Map<LiveRangeKey, V>, p: u32)
    requires inorder(s, m), s.len() > 0
    ensures inorder(s.drop_first(), m), forall|k: LiveRangeKey| #[trigger] listed(s, k) ==> k == s[0].0 || listed(s.drop_first(), k),
        s[0].0.to <= p ==> early(s, p) == early(s.drop_first(), p) + 1, s[0].0.to > p ==> early(s.drop_first(), p) == 0 && early(s, p) == 0
{
    let d = s.drop_first();
    assert forall|i: int| 0 <= i < d.len() implies d[i] == #[trigger] s[i + 1] by {}
    assert forall|k: LiveRangeKey| #[trigger] listed(s, k) implies k == s[0].0 || listed(d, k) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        if i > 0 { assert(d[i - 1].0 == k); }
    }
    if s[0].0.to > p && d.len() > 0 { assert(d[0].0.from >= s[0].0.to); }
}
/// No stored range is left: all is known.
proof fn none_left<'a, F: Function>(e: Env<'a, F>, r: int, l: Ranges, s: Seq<(LiveRangeKey, LiveRangeIndex)>, c: Seq<LiveBundleIndex>, j: int)
    requires tidy(l), 0 <= j < l.len(), s.len() == 0, passed(e, r, s, c, span(l[j]).from), forall|i: int| 0 <= i < j ==> #[trigger] done(e, r, l, c, i)
    ensures forall|i: int| 0 <= i < l.len() ==> #[trigger] done(e, r, l, c, i)
{
    assert forall|i: int| j <= i < l.len() implies #[trigger] done(e, r, l, c, i) by {
        assert(span(l[j]).from <= span(l[i]).from) by { if j < i { assert(l[j].range.to.bits <= l[i].range.from.bits); assert(proper(span(l[j]))); } }
    }
}
/// The next stored range is beyond l[j].
proof fn beyond<'a, F: Function>(e: Env<'a, F>, r: int, l: Ranges, s: Seq<(LiveRangeKey, LiveRangeIndex)>, c: Seq<LiveBundleIndex>, j: int)
    requires tidy(l), 0 <= j < l.len(), inorder(s, e.map(r)@), s.len() > 0, s[0].0.from >= span(l[j]).to, passed(e, r, s, c, span(l[j]).from)
    ensures done(e, r, l, c, j), j + 1 < l.len() ==> passed(e, r, s, c, span(l[j + 1]).from)
{
    assert forall|k: LiveRangeKey| #[trigger] e.map(r)@.contains_key(k) && over(k, span(l[j])) implies e.accounted(r, c, k) by {
        if listed(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; if i > 0 { assert(s[0].0.to <= s[i].0.from); assert(proper(s[0].0)); } }
    }
    if j + 1 < l.len() { assert(l[j].range.to.bits <= l[j + 1].range.from.bits); assert(proper(span(l[j]))); }
}
/// The next stored range is accounted for.
proof fn noted<'a, F: Function>(e: Env<'a, F>, r: int, l: Ranges, s: Seq<(LiveRangeKey, LiveRangeIndex)>, c: Seq<LiveBundleIndex>, d: Seq<LiveBundleIndex>, p: u32)
    requires inorder(s, e.map(r)@), s.len() > 0, passed(e, r, s, c, p), forall|b: LiveBundleIndex| #[trigger] c.contains(b) ==> d.contains(b), e.accounted(r, d, s[0].0)
    ensures passed(e, r, s.drop_first(), d, p), forall|i: int| done(e, r, l, c, i) ==> #[trigger] done(e, r, l, d, i)
{
    dropped(s, e.map(r)@, p);
    assert forall|i: int| done(e, r, l, c, i) implies #[trigger] done(e, r, l, d, i) by {
        assert forall|k: LiveRangeKey| #[trigger] e.map(r)@.contains_key(k) && over(k, span(l[i])) implies e.accounted(r, d, k) by { assert(e.accounted(r, c, k)); }
    }
}
/// One more range in a register's map.
proof fn more<V>(a: VxOrdMap<LiveRangeKey, V>, b: VxOrdMap<LiveRangeKey, V>, k: LiveRangeKey, v: V)
    requires a.wf(), proper(k), !a.hit(k), b@ == a@.insert(k, v)
    ensures b.wf()
{
    assert forall|x: LiveRangeKey, y: LiveRangeKey| #[trigger] b@.contains_key(x) && #[trigger] b@.contains_key(y) && x != y implies !over(x, y) by {
        if x == k { assert(a@.contains_key(y)); assert(over(x, y) == over(y, x)); } else if y == k { assert(a@.contains_key(x)); }
    }
}
proof fn within_take(l: Ranges, n: int)
    requires 0 <= n < l.len()
    ensures forall|k: LiveRangeKey| #[trigger] within(l.take(n + 1), k) <==> within(l.take(n), k) || k == span(l[n])
{
    let (a, b) = (l.take(n), l.take(n + 1));
    assert forall|k: LiveRangeKey| #[trigger] within(b, k) <==> within(a, k) || k == span(l[n]) by {
        if within(a, k) { let i = choose|i: int| 0 <= i < a.len() && key((#[trigger] a[i]).range) == k; assert(b[i] == a[i]); }
        if k == span(l[n]) { assert(b[n] == l[n]); }
        if within(b, k) { let i = choose|i: int| 0 <= i < b.len() && key((#[trigger] b[i]).range) == k; if i < n { assert(a[i] == b[i]); } }
    }
}
/// The next of the bundle's ranges overlaps none stored yet.
proof fn free(m: Taken, b: VxOrdMap<LiveRangeKey, LiveRangeIndex>, l: Ranges, n: int)
    requires tidy(l), 0 <= n < l.len(), joined(m, b@, l.take(n)), forall|k: LiveRangeKey| #[trigger] m.contains_key(k) ==> !over(k, span(l[n]))
    ensures !b.hit(span(l[n]))
{
    if b.hit(span(l[n])) {
        let a = choose|a: LiveRangeKey| #[trigger] b@.contains_key(a) && over(a, span(l[n]));
        if !m.contains_key(a) { let t = l.take(n); let i = choose|i: int| 0 <= i < t.len() && key((#[trigger] t[i]).range) == a; assert(t[i] == l[i]); assert(l[i].range.to.bits <= l[n].range.from.bits); }
    }
}
proof fn joined_more(m: Taken, o: Taken, b: Taken, l: Ranges, n: int)
    requires tidy(l), 0 <= n < l.len(), joined(m, o, l.take(n)), b == o.insert(span(l[n]), l[n].index), !o.contains_key(span(l[n]))
    ensures joined(m, b, l.take(n + 1))
{
    within_take(l, n);
    let (s, t) = (l.take(n), l.take(n + 1));
    assert forall|i: int| 0 <= i < t.len() implies b[span(#[trigger] t[i])] == t[i].index by { if i < n { assert(s[i] == t[i]); assert(within(s, span(t[i]))); assert(o.contains_key(span(t[i]))); } }
}
/// The bookkeeping is sound with the bundle's ranges stored.
proof fn stays<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, r: int, x: int)
    requires a.wf(), 0 <= r < 256, 0 <= x < a.ctx.bundles@.len(), b.frame(a, r, x), b.map(r).wf(), joined(a.map(r)@, b.map(r)@, a.ctx.bundles@[x].ranges@), a.ctx.ranges@.len() < u32::MAX,
        forall|i: int| 0 <= i < a.ctx.bundles@[x].ranges@.len() ==> (#[trigger] a.ctx.bundles@[x].ranges@[i]).index.0 < a.ctx.ranges@.len() && a.ctx.ranges@[a.ctx.bundles@[x].ranges@[i].index.0 as int].bundle.0 == x
    ensures b.wf()
{
    let l = a.ctx.bundles@[x].ranges@; let (p, q) = (a.ctx.pregs@, b.ctx.pregs@);
    assert forall|t: int| 0 <= t < 256 implies (#[trigger] q[t]).allocations.btree.wf() by { assert(p[t].allocations.btree.wf()); assert(q[r].allocations.btree == b.map(r)); }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && #[trigger] q[t].allocations.btree@.contains_key(k) implies q[t].allocations.btree@[k].0 == u32::MAX ||
            q[t].allocations.btree@[k].0 < b.ctx.ranges@.len() && b.ctx.ranges@[q[t].allocations.btree@[k].0 as int].bundle.0 < b.ctx.bundles@.len() by {
        assert(p[t].allocations.btree.wf());
        if t == r {
            assert(b.map(r)@.contains_key(k));
            if within(l, k) { let i = choose|i: int| 0 <= i < l.len() && key((#[trigger] l[i]).range) == k; assert(b.map(r)@[span(l[i])] == l[i].index); }
            else { assert(a.map(r)@.contains_key(k)); assert(p[t].allocations.btree@.contains_key(k)); }
        } else { assert(p[t].allocations.btree@.contains_key(k)); }
    }
}
/// Nothing that is looked at has changed.
proof fn same<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>)
    requires booked(a), b.ctx.pregs == a.ctx.pregs, b.ctx.bundles == a.ctx.bundles, b.ctx.ranges == a.ctx.ranges
    ensures booked(b)
{
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() implies #[trigger] owns(b, y, i) by { assert(owns(a, y, i)); }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() && b.ctx.bundles@[y].allocation.k() == 1 implies #[trigger] stored(b, y, i) by { assert(stored(a, y, i)); }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && b.map(t)@.contains_key(k) && !b.fixed(t, k) implies #[trigger] backed(b, t, k) by { assert(backed(a, t, k)); assert(a.list(a.owner(t, k)) == b.list(b.owner(t, k))); }
}
/// Assigning keeps that.
proof fn assign<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, r: int, x: int)
    requires booked(a), b.wf(), 0 <= r < 256, 0 <= x < a.ctx.bundles@.len(), a.ctx.bundles@[x].allocation.k() != 1, tidy(a.ctx.bundles@[x].ranges@), b.frame(a, r, x), joined(a.map(r)@, b.map(r)@, a.ctx.bundles@[x].ranges@),
        b.ctx.bundles@[x].allocation == at_reg(PReg { bits: r as u8 })
    ensures booked(b)
{
    let l = a.ctx.bundles@[x].ranges@; let p = PReg { bits: r as u8 };
    regof_reg(p);
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() implies (#[trigger] b.ctx.bundles@[y]).ranges@ == a.ctx.bundles@[y].ranges@ && (y != x ==> b.ctx.bundles@[y].allocation == a.ctx.bundles@[y].allocation) by {}
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() && (#[trigger] b.ctx.bundles@[y]).allocation.k() == 1 implies tidy(b.ctx.bundles@[y].ranges@) by { if y != x { assert(a.ctx.bundles@[y].allocation.k() == 1); } }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() implies #[trigger] owns(b, y, i) by { assert(owns(a, y, i)); }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() && b.ctx.bundles@[y].allocation.k() == 1 implies #[trigger] stored(b, y, i) by {
        let e = b.ctx.bundles@[y].ranges@[i];
        if y == x { assert(l[i] == e); assert(within(l, span(e))); }
        else { assert(stored(a, y, i)); let q = regof(a.ctx.bundles@[y].allocation).bits as int; if q == r { assert(a.map(r)@.contains_key(span(e))); } else { assert(b.map(q) == a.map(q)); } }
    }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && b.map(t)@.contains_key(k) && !b.fixed(t, k) implies #[trigger] backed(b, t, k) by {
        if t == r && within(l, k) {
            let i = choose|i: int| 0 <= i < l.len() && key((#[trigger] l[i]).range) == k;
            assert(span(l[i]) == k); assert(owns(a, x, i)); assert(b.list(b.owner(t, k))[i] == l[i]);
        } else {
            assert(a.map(t)@.contains_key(k) && a.map(t)@[k] == b.map(t)@[k]) by { if t != r { assert(b.map(t) == a.map(t)); } }
            assert(backed(a, t, k)); let o = a.owner(t, k); assert(b.owner(t, k) == o); let m = a.list(o);
            let i = choose|i: int| 0 <= i < m.len() && span(#[trigger] m[i]) == k && m[i].index == a.map(t)@[k];
            assert(a.ctx.pregs@[t].allocations.btree@.contains_key(k));
            regof_reg(PReg { bits: t as u8 });
            assert(b.list(o)[i] == m[i]);
        }
    }
}
/// So does evicting.
proof fn evict<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, r: int, x: int)
    requires booked(a), b.wf(), 0 <= r < 256, 0 <= x < a.ctx.bundles@.len(), r == regof(a.ctx.bundles@[x].allocation).bits, a.ctx.bundles@[x].allocation.k() == 1, b.frame(a, r, x), parted(a.map(r)@, b.map(r)@, a.ctx.bundles@[x].ranges@),
        b.ctx.bundles@[x].allocation.k() != 1
    ensures booked(b)
{
    let l = a.ctx.bundles@[x].ranges@; let p = PReg { bits: r as u8 };
    regof_reg(p);
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() implies (#[trigger] b.ctx.bundles@[y]).ranges@ == a.ctx.bundles@[y].ranges@ && (y != x ==> b.ctx.bundles@[y].allocation == a.ctx.bundles@[y].allocation) by {}
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() && (#[trigger] b.ctx.bundles@[y]).allocation.k() == 1 implies tidy(b.ctx.bundles@[y].ranges@) by { if y != x { assert(a.ctx.bundles@[y].allocation.k() == 1); } }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() implies #[trigger] owns(b, y, i) by { assert(owns(a, y, i)); }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() && b.ctx.bundles@[y].allocation.k() == 1 implies #[trigger] stored(b, y, i) by {
        let e = b.ctx.bundles@[y].ranges@[i];
        assert(stored(a, y, i)); let q = regof(a.ctx.bundles@[y].allocation).bits as int;
        if q == r {
            if within(l, span(e)) {
                let j = choose|j: int| 0 <= j < l.len() && key((#[trigger] l[j]).range) == span(e);
                assert(stored(a, x, j)); assert(owns(a, x, j) && owns(a, y, i));
            }
            assert(b.map(r)@.contains_key(span(e)));
        } else { assert(b.map(q) == a.map(q)); }
    }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && b.map(t)@.contains_key(k) && !b.fixed(t, k) implies #[trigger] backed(b, t, k) by {
        assert(a.map(t)@.contains_key(k) && a.map(t)@[k] == b.map(t)@[k]) by { if t != r { assert(b.map(t) == a.map(t)); } }
        assert(backed(a, t, k)); let o = a.owner(t, k); assert(b.owner(t, k) == o); let m = a.list(o);
        let i = choose|i: int| 0 <= i < m.len() && span(#[trigger] m[i]) == k && m[i].index == a.map(t)@[k];
        assert(a.ctx.pregs@[t].allocations.btree@.contains_key(k));
        if o.0 == x { regof_reg(PReg { bits: t as u8 }); assert(t == r); assert(within(l, k)); }
        assert(b.list(o)[i] == m[i]);
    }
}
//@ fn src/ion/process.rs Env::try_to_allocate_bundle_to_reg
//@ impl <'a, F: Function> Env<'a, F>
//@ at bundles
//@ at ranges
//@ slice 0
//@ spec
    requires old(self).wf(), reg.0 < 256, bundle.0 < old(self).ctx.bundles@.len(), old(self).list(bundle).len() > 0, tidy(old(self).list(bundle)),
        forall|i: int| 0 <= i < old(self).list(bundle).len() ==> (#[trigger] old(self).list(bundle)[i]).index.0 < old(self).ctx.ranges@.len() && old(self).ctx.ranges@[old(self).list(bundle)[i].index.0 as int].bundle == bundle, old(self).ctx.ranges@.len() < u32::MAX
    ensures
        final(self).wf(), booked(*old(self)) && old(self).ctx.bundles@[bundle.0 as int].allocation.k() != 1 ==> booked(*final(self)),
        final(self).ctx.allocation_queue == old(self).ctx.allocation_queue, others(old(self).ctx, final(self).ctx), final(self).env == old(self).env,
        match res {
            // no stored range of the register was in the way; now the bundle's are stored too, and it is there
            AllocRegResult::Allocated(a) => {
                &&& a == at_reg(PReg { bits: reg.0 as u8 })
                &&& clean(*old(self), reg.0 as int, old(self).list(bundle))
                &&& final(self).frame(*old(self), reg.0 as int, bundle.0 as int) && final(self).ctx.bundles@[bundle.0 as int].allocation == a
                &&& joined(old(self).map(reg.0 as int)@, final(self).map(reg.0 as int)@, old(self).list(bundle))
            }
            _ => final(self).ctx.pregs == old(self).ctx.pregs && final(self).ctx.bundles == old(self).ctx.bundles && final(self).ctx.ranges == old(self).ctx.ranges,
        },
        match res {
            AllocRegResult::Allocated(a) => true,
            // each stored range in the way is one of a bundle given, and each bundle given has one in the way
            AllocRegResult::Conflict(c, _) => {
                &&& c@.len() > 0 && found(*old(self), reg.0 as int, old(self).list(bundle), c@, 0)
                &&& forall|i: int| 0 <= i < old(self).list(bundle).len() ==> #[trigger] done(*old(self), reg.0 as int, old(self).list(bundle), c@, i)
            }
            // a reservation is in the way
            AllocRegResult::ConflictWithFixed(_, _) => exists|k: LiveRangeKey| #[trigger] old(self).hits(reg.0 as int, old(self).list(bundle), k) && old(self).fixed(reg.0 as int, k),
            // a bundle in the way weighs more than allowed
            AllocRegResult::ConflictHighCost => max_allowable_cost is Some && exists|c: LiveBundleIndex| #[trigger] old(self).blocks(reg.0 as int, old(self).list(bundle), c)
                && weight(old(self).ctx.bundles@[c.0 as int]) > max_allowable_cost->0,
        }
//@ entry
    let ghost this = *self; let ghost r = reg.0 as int; let ghost l = self.list(bundle); let ghost m = self.map(r)@;
//@ loop 0 before
    proof { assert(this.ctx.pregs@[r].allocations.btree == this.map(r)); assert(l[0] == bundle_ranges@[0]); assert(span(l[0]).from < span(l[0]).to); }
//@ loop 0
    invariant_except_break
        __i0 < l.len() ==> passed(this, r, preg_range_iter.rest(), conflicts@, l[__i0 as int].range.from.bits),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] done(this, r, l, conflicts@, i),
    invariant
        this == *old(self), this.wf(), tidy(l), 0 <= r < 256, r == reg.0, l == this.list(bundle), m == this.map(r)@, bundle.0 < this.ctx.bundles@.len(), __s0@ == l, __i0 <= l.len(),
        self.ctx.pregs == this.ctx.pregs, self.ctx.ranges == this.ctx.ranges, self.ctx.bundles == this.ctx.bundles, self.ctx.allocation_queue == this.ctx.allocation_queue, others(this.ctx, self.ctx), self.env == this.env,
        inorder(preg_range_iter.rest(), m),
        found(this, r, l, conflicts@, max_conflict_weight), (forall|b: LiveBundleIndex| #[trigger] self.ctx.conflict_set@.contains(b) <==> conflicts@.contains(b)), first_conflict is Some <==> conflicts@.len() > 0,
    ensures
        forall|i: int| 0 <= i < l.len() ==> #[trigger] done(this, r, l, conflicts@, i),
    decreases l.len() - __i0
//@ after let mut skips
    let ghost j = __i0 - 1;
    proof { assert(proper(span(l[j]))); }
//@ loop 1
    invariant_except_break
        passed(this, r, preg_range_iter.rest(), conflicts@, key.from),
        forall|i: int| 0 <= i < j ==> #[trigger] done(this, r, l, conflicts@, i),
        0 <= skips < 16,
    invariant
        j == __i0 - 1, 0 <= j, __i0 <= l.len(), key == span(l[j]), *entry == l[j],
        this == *old(self), this.wf(), tidy(l), 0 <= r < 256, r == reg.0, l == this.list(bundle), m == this.map(r)@, bundle.0 < this.ctx.bundles@.len(), __s0@ == l,
        self.ctx.pregs == this.ctx.pregs, self.ctx.ranges == this.ctx.ranges, self.ctx.bundles == this.ctx.bundles, self.ctx.allocation_queue == this.ctx.allocation_queue, others(this.ctx, self.ctx), self.env == this.env,
        inorder(preg_range_iter.rest(), m), 
        found(this, r, l, conflicts@, max_conflict_weight), (forall|b: LiveBundleIndex| #[trigger] self.ctx.conflict_set@.contains(b) <==> conflicts@.contains(b)), first_conflict is Some <==> conflicts@.len() > 0,
    ensures
        __i0 < l.len() ==> passed(this, r, preg_range_iter.rest(), conflicts@, l[__i0 as int].range.from.bits),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] done(this, r, l, conflicts@, i),
    decreases early(preg_range_iter.rest(), key.from), preg_range_iter.rest().len()
//@ before preg_range_iter.next();
    proof { dropped(preg_range_iter.rest(), m, key.from); }
//@ before break 'ranges
    proof { none_left(this, r, l, preg_range_iter.rest(), conflicts@, j); }
//@ before break 'alloc
    proof { beyond(this, r, l, preg_range_iter.rest(), conflicts@, j); }
//@ before let preg_range = preg_range_iter.next()
    let ghost s = preg_range_iter.rest(); let ghost c = conflicts@; let ghost w = max_conflict_weight;
    proof {
        assert(over(preg_key, span(l[j])));
        assert(this.hits(r, l, preg_key));
        dropped(s, m, key.from);
    }
//@ after let conflict_bundle = 
    proof { assert(this.owner(r, preg_key) == conflict_bundle); assert(this.blocks(r, l, conflict_bundle)); }
//@ after conflicts.push(conflict_bundle)
    proof {
        assert(conflicts@ == c.push(conflict_bundle)); assert(conflicts@[c.len() as int] == conflict_bundle);
        assert forall|b: LiveBundleIndex| #[trigger] conflicts@.contains(b) <==> c.contains(b) || b == conflict_bundle by {
            if c.contains(b) { let x = choose|x: int| 0 <= x < c.len() && c[x] == b; assert(conflicts@[x] == b); }
        }
        assert forall|x: int, y: int| 0 <= x < y < conflicts@.len() implies conflicts@[x] != conflicts@[y] by { if y == c.len() { assert(c.contains(c[x])); } }
    }
//@ after max_conflict_weight = vx_max
    proof {
        if w != max_conflict_weight { assert(weight(this.ctx.bundles@[conflicts@[c.len() as int].0 as int]) == max_conflict_weight); }
        else if w != 0 { let x = choose|x: int| 0 <= x < c.len() && weight(this.ctx.bundles@[(#[trigger] c[x]).0 as int]) == w; assert(conflicts@[x] == c[x]); }
        assert(found(this, r, l, conflicts@, max_conflict_weight));
    }
//@ before return AllocRegResult::ConflictHighCost
    proof { if booked(this) { same(this, *self); } let x = choose|x: int| 0 <= x < conflicts@.len() && weight(this.ctx.bundles@[(#[trigger] conflicts@[x]).0 as int]) == max_conflict_weight; assert(this.blocks(r, l, conflicts@[x])); }
//@ before if first_conflict.is_none()
    proof { noted(this, r, l, s, c, conflicts@, key.from); }
//@ before return AllocRegResult::ConflictWithFixed
    proof { if booked(this) { same(this, *self); } assert(this.hits(r, l, preg_key) && this.fixed(r, preg_key)); }
//@ before return AllocRegResult::Conflict(
    proof { if booked(this) { same(this, *self); } }
//@ before let preg = PReg::from_index
    proof {
        assert forall|k: LiveRangeKey| m.contains_key(k) implies !#[trigger] this.hits(r, l, k) by {
            if this.hits(r, l, k) { let i = choose|i: int| 0 <= i < l.len() && over(k, span(#[trigger] l[i])); assert(done(this, r, l, conflicts@, i)); assert(this.accounted(r, conflicts@, k)); }
        }
        assert(within(l.take(0), LiveRangeKey { from: 0, to: 0 }) ==> false);
        assert(joined(m, self.map(r)@, l.take(0)));
    }
//@ loop 2 before
    proof { assert(self.ctx.pregs@ =~= this.ctx.pregs@.update(r, self.ctx.pregs@[r])); assert(self.frame(this, r, bundle.0 as int)); }
//@ loop 2
    invariant
        this.wf(), tidy(l), 0 <= r < 256, r == reg.0, l == this.list(bundle), m == this.map(r)@, bundle.0 < this.ctx.bundles@.len(), __s2@ == l, __i2 <= l.len(),
        clean(this, r, l), self.frame(this, r, bundle.0 as int), self.ctx.bundles@[bundle.0 as int].allocation == at_reg(preg), preg.bits == r,
        self.ctx.allocation_queue == this.ctx.allocation_queue, others(this.ctx, self.ctx), self.env == this.env,
        self.map(r).wf(), joined(m, self.map(r)@, l.take(__i2 as int)),
    decreases __s2@.len() - __i2
//@ loop 2 begin
    let ghost n = __i2 as int; let ghost o = *self;
    proof {
        assert forall|k: LiveRangeKey| #[trigger] m.contains_key(k) implies !over(k, span(l[n])) by { if over(k, span(l[n])) { assert(this.hits(r, l, k)); } }
        free(m, self.map(r), l, n);
    }
//@ loop 2 end
    proof {
        more(o.map(r), self.map(r), span(l[n]), l[n].index);
        assert(self.ctx.pregs@ =~= this.ctx.pregs@.update(r, self.ctx.pregs@[r])); assert(o.ctx.pregs@[r].is_stack == self.ctx.pregs@[r].is_stack); assert(self.frame(this, r, bundle.0 as int));
        joined_more(m, o.map(r)@, self.map(r)@, l, n);
    }
//@ loop 2 after
    proof { assert(l.take(l.len() as int) =~= l); stays(this, *self, r, bundle.0 as int); if booked(this) && this.ctx.bundles@[bundle.0 as int].allocation.k() != 1 { assign(this, *self, r, bundle.0 as int); } }
//@ end
proof fn parted_more(m: Taken, o: Taken, b: Taken, l: Ranges, n: int)
    requires 0 <= n < l.len(), parted(m, o, l.take(n)), b == o.remove(span(l[n]))
    ensures parted(m, b, l.take(n + 1))
{ within_take(l, n); }
proof fn fewer<V>(a: VxOrdMap<LiveRangeKey, V>, b: VxOrdMap<LiveRangeKey, V>, k: LiveRangeKey)
    requires a.wf(), b@ == a@.remove(k)
    ensures b.wf()
{
    assert forall|x: LiveRangeKey| #[trigger] b@.contains_key(x) implies a@.contains_key(x) by {}
}
/// The bookkeeping is sound without the bundle's ranges.
proof fn leaves<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, r: int, x: int)
    requires a.wf(), 0 <= r < 256, 0 <= x < a.ctx.bundles@.len(), b.frame(a, r, x), b.map(r).wf(), parted(a.map(r)@, b.map(r)@, a.ctx.bundles@[x].ranges@)
    ensures b.wf()
{
    let (p, q) = (a.ctx.pregs@, b.ctx.pregs@);
    assert forall|t: int| 0 <= t < 256 implies (#[trigger] q[t]).allocations.btree.wf() by { assert(p[t].allocations.btree.wf()); assert(q[r].allocations.btree == b.map(r)); }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && #[trigger] q[t].allocations.btree@.contains_key(k) implies q[t].allocations.btree@[k].0 == u32::MAX ||
            q[t].allocations.btree@[k].0 < b.ctx.ranges@.len() && b.ctx.ranges@[q[t].allocations.btree@[k].0 as int].bundle.0 < b.ctx.bundles@.len() by {
        if t == r { assert(b.map(r)@.contains_key(k)); assert(a.map(r)@.contains_key(k)); }
        assert(p[t].allocations.btree@.contains_key(k));
    }
}
//@ fn src/ion/process.rs Env::evict_bundle
//@ impl <'a, F: Function> Env<'a, F>
//@ at bundles
//@ at ranges
//@ spec
    requires booked(*old(self)), bundle.0 < old(self).ctx.bundles@.len(), old(self).ctx.bundles@[bundle.0 as int].allocation.k() <= 2
    ensures booked(*final(self)),
        old(self).ctx.bundles@[bundle.0 as int].allocation.k() != 1 ==> *final(self) == *old(self),
        // its register is free of it, and of nothing else; it waits to be assigned again
        old(self).ctx.bundles@[bundle.0 as int].allocation.k() == 1 ==> {
            let r = regof(old(self).ctx.bundles@[bundle.0 as int].allocation).bits as int;
            &&& final(self).frame(*old(self), r, bundle.0 as int) && final(self).ctx.bundles@[bundle.0 as int].allocation == Allocation::nil()
            &&& parted(old(self).map(r)@, final(self).map(r)@, old(self).list(bundle))
            &&& exists|e: PrioQueueEntry| e.bundle == bundle && final(self).ctx.allocation_queue.heap@ == #[trigger] old(self).ctx.allocation_queue.heap@.insert(e)
        }
//@ entry
    let ghost this = *self; let ghost r = regof(self.ctx.bundles@[bundle.0 as int].allocation).bits as int; let ghost l = self.list(bundle); let ghost m = self.map(r)@; let ghost x = bundle.0 as int;
    proof { alloc_nil(); }
//@ loop 0 before
    proof {
        if l.len() > 0 { assert(stored(this, x, 0)); }
        assert(parted(m, self.map(r)@, l.take(0)));
        assert(self.ctx.pregs@ =~= this.ctx.pregs@.update(r, self.ctx.pregs@[r])); assert(self.frame(this, r, x));
        assert(this.ctx.pregs@[r].allocations.btree.wf());
    }
//@ loop 0
    invariant
        booked(this), 0 <= r < 256, preg_idx.0 == r, r == regof(this.ctx.bundles@[x].allocation).bits, this.ctx.bundles@[x].allocation.k() == 1, l == this.ctx.bundles@[x].ranges@, m == this.map(r)@, x == bundle.0, x < this.ctx.bundles@.len(), __s0@ == l, __i0 <= l.len(),
        self.frame(this, r, x), self.ctx.bundles@[x].allocation == Allocation::nil(), self.ctx.allocation_queue == this.ctx.allocation_queue,
        self.map(r).wf(), parted(m, self.map(r)@, l.take(__i0 as int)),
    decreases l.len() - __i0
//@ loop 0 begin
    let ghost n = __i0 as int; let ghost o = *self;
    proof {
        assert(stored(this, x, n)); assert(tidy(l)); assert(proper(span(l[n])));
        assert(!within(l.take(n), span(l[n]))) by {
            if within(l.take(n), span(l[n])) { let t = l.take(n); let i = choose|i: int| 0 <= i < t.len() && key((#[trigger] t[i]).range) == span(l[n]); assert(l[i] == t[i]); assert(l[i].range.to.bits <= l[n].range.from.bits); }
        }
    }
//@ loop 0 end
    proof {
        fewer(o.map(r), self.map(r), span(l[n]));
        parted_more(m, o.map(r)@, self.map(r)@, l, n);
        assert(self.ctx.pregs@ =~= this.ctx.pregs@.update(r, self.ctx.pregs@[r])); assert(o.ctx.pregs@[r].is_stack == self.ctx.pregs@[r].is_stack); assert(self.frame(this, r, x));
    }
//@ loop 0 after
    let ghost h = *self;
    proof { assert(l.take(l.len() as int) =~= l); }
//@ exit
    proof {
        if this.ctx.bundles@[x].allocation.k() == 1 { leaves(this, *self, r, x); evict(this, *self, r, x); }
    }
//@ end
// ---- the groups that are left over
/// slice::sort_unstable_by_key: a permutation into key order.
spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
spec fn by(p: Seq<int>, a: Ranges, b: Ranges) -> bool { p.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> b[i] == a[#[trigger] p[i]] }
spec fn shuffled(a: Ranges, b: Ranges) -> bool { b.len() == a.len() && exists|p: Seq<int>| is_perm(p, a.len() as int) && #[trigger] by(p, a, b) }
spec fn ordered_by(keys: Seq<ProgPoint>, a: Ranges, b: Ranges) -> bool {
    b.len() == a.len() && exists|p: Seq<int>| is_perm(p, a.len() as int) && #[trigger] by(p, a, b) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]].bits <= keys[#[trigger] p[j]].bits)
}
#[verifier::external_body]
fn vx_sort_unstable_by_key(keys: Vec<ProgPoint>, v: &mut LiveRangeList)
    requires keys@.len() == old(v)@.len()
    ensures ordered_by(keys@, old(v)@, final(v)@)
{ }
/// Ranges in any order, none empty, no two that overlap.
spec fn loose(l: Ranges) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> proper(span(#[trigger] l[i]))
    &&& forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j ==> !over(span(#[trigger] l[i]), span(#[trigger] l[j]))
}
proof fn sorted(keys: Seq<ProgPoint>, a: Ranges, b: Ranges)
    requires loose(a), ordered_by(keys, a, b), keys.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> keys[i] == (#[trigger] a[i]).range.from
    ensures tidy(b), shuffled(a, b)
{
    let p = choose|p: Seq<int>| is_perm(p, a.len() as int) && #[trigger] by(p, a, b) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]].bits <= keys[#[trigger] p[j]].bits);
    assert forall|i: int| 0 <= i < b.len() implies proper(span(#[trigger] b[i])) by { assert(b[i] == a[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).range.to.bits <= (#[trigger] b[j]).range.from.bits by {
        assert(b[i] == a[p[i]] && b[j] == a[p[j]]); assert(p[i] != p[j]);
        assert(keys[p[i]].bits <= keys[p[j]].bits);
        assert(!over(span(a[p[i]]), span(a[p[j]]))); assert(proper(span(a[p[i]])) && proper(span(a[p[j]])));
    }
}
/// The bookkeeping does not mind the order of ranges that are in no register.
proof fn resort<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, x: int)
    requires booked(a), 0 <= x < a.ctx.bundles@.len(), a.ctx.bundles@[x].allocation.k() != 1, b.ctx.pregs == a.ctx.pregs, b.ctx.ranges == a.ctx.ranges,
        b.ctx.bundles@ == a.ctx.bundles@.update(x, LiveBundle { ranges: b.ctx.bundles@[x].ranges, ..a.ctx.bundles@[x] }), shuffled(a.ctx.bundles@[x].ranges@, b.ctx.bundles@[x].ranges@)
    ensures booked(b)
{
    let (l, m) = (a.ctx.bundles@[x].ranges@, b.ctx.bundles@[x].ranges@);
    let p = choose|p: Seq<int>| is_perm(p, l.len() as int) && #[trigger] by(p, l, m);
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() implies #[trigger] owns(b, y, i) by {
        if y == x { assert(m[i] == l[p[i]]); assert(owns(a, x, p[i])); } else { assert(owns(a, y, i)); }
    }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() && b.ctx.bundles@[y].allocation.k() == 1 implies #[trigger] stored(b, y, i) by { assert(y != x); assert(stored(a, y, i)); }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && b.map(t)@.contains_key(k) && !b.fixed(t, k) implies #[trigger] backed(b, t, k) by {
        assert(backed(a, t, k)); regof_reg(PReg { bits: t as u8 });
        assert(a.ctx.pregs@[t].allocations.btree@.contains_key(k));
        assert(a.owner(t, k).0 != x); assert(a.list(a.owner(t, k)) == b.list(b.owner(t, k)));
    }
}
/// The groups left over wait in no register, each of them once, their ranges apart.
spec fn waits<'a, F: Function>(e: Env<'a, F>, b: LiveBundleIndex) -> bool {
    b.0 < e.ctx.bundles@.len() && e.ctx.bundles@[b.0 as int].allocation.k() != 1 && e.ctx.bundles@[b.0 as int].spillset.0 < e.ctx.spillsets@.len() && loose(e.list(b))
}
spec fn leftover<'a, F: Function>(e: Env<'a, F>) -> bool {
    let l = e.ctx.spilled_bundles@;
    &&& forall|i: int| 0 <= i < l.len() ==> waits(e, #[trigger] l[i])
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] != l[j]
}
/// A group has a place: a register, or its spill slot is asked for.
spec fn placed<'a, F: Function>(e: Env<'a, F>, b: LiveBundleIndex) -> bool {
    let x = e.ctx.bundles@[b.0 as int];
    x.ranges@.len() == 0 || x.allocation.k() == 1 || e.ctx.spillsets@[x.spillset.0 as int].required
}
/// Group y is what it was, but for the order of its ranges and where it is.
spec fn keeps(a: LiveBundle, b: LiveBundle) -> bool { b == (LiveBundle { ranges: b.ranges, allocation: b.allocation, ..a }) && shuffled(a.ranges@, b.ranges@) && (b.allocation == a.allocation || b.allocation.k() == 1) }
/// A spill slot that is asked for was, or one of the first n groups needs it.
spec fn needed<'a, F: Function>(o: Env<'a, F>, e: Env<'a, F>, s: int, n: int) -> bool {
    o.ctx.spillsets@[s].required || exists|i: int| 0 <= i < n && needs(e, #[trigger] e.ctx.spilled_bundles@[i], s)
}
spec fn needs<'a, F: Function>(e: Env<'a, F>, b: LiveBundleIndex, s: int) -> bool { e.ctx.bundles@[b.0 as int].spillset.0 == s && e.ctx.bundles@[b.0 as int].ranges@.len() > 0 && e.ctx.bundles@[b.0 as int].allocation.k() != 1 }
/// What holds after the first n groups.
spec fn seen<'a, F: Function>(o: Env<'a, F>, e: Env<'a, F>, n: int) -> bool {
    let l = o.ctx.spilled_bundles@;
    &&& booked(e) && e.ctx.ranges == o.ctx.ranges && e.ctx.spilled_bundles == o.ctx.spilled_bundles && e.ctx.allocation_queue == o.ctx.allocation_queue && e.env == o.env
    &&& e.ctx.bundles@.len() == o.ctx.bundles@.len() && e.ctx.spillsets@.len() == o.ctx.spillsets@.len()
    &&& forall|y: int| 0 <= y < o.ctx.bundles@.len() ==> keeps(o.ctx.bundles@[y], #[trigger] e.ctx.bundles@[y])
    &&& forall|y: int| 0 <= y < o.ctx.bundles@.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] l[i]).0 != y) ==> (#[trigger] e.ctx.bundles@[y]) == o.ctx.bundles@[y]
    &&& forall|i: int| 0 <= i < n ==> placed(e, #[trigger] l[i])
    &&& forall|s: int| 0 <= s < o.ctx.spillsets@.len() ==> (#[trigger] e.ctx.spillsets@[s]) == (SpillSet { required: e.ctx.spillsets@[s].required, ..o.ctx.spillsets@[s] }) && (o.ctx.spillsets@[s].required ==> e.ctx.spillsets@[s].required)
        && (e.ctx.spillsets@[s].required ==> needed(o, e, s, n))
}
proof fn same_order(l: Ranges)
    ensures shuffled(l, l)
{
    let p = Seq::new(l.len(), |i: int| i);
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] p.contains(k) by { assert(p[k] == k); }
    assert(is_perm(p, l.len() as int) && by(p, l, l));
}
/// One more group has been seen to.
proof fn one_more<'a, F: Function>(o: Env<'a, F>, a: Env<'a, F>, e: Env<'a, F>, n: int)
    requires leftover(o), seen(o, a, n), 0 <= n < o.ctx.spilled_bundles@.len(), booked(e), e.ctx.ranges == a.ctx.ranges, e.ctx.spilled_bundles == a.ctx.spilled_bundles, e.ctx.allocation_queue == a.ctx.allocation_queue, e.env == a.env,
        ({ let b = o.ctx.spilled_bundles@[n]; let x = b.0 as int; let s = o.ctx.bundles@[x].spillset.0 as int;
            &&& e.ctx.bundles@.len() == a.ctx.bundles@.len() && keeps(o.ctx.bundles@[x], e.ctx.bundles@[x]) && forall|y: int| 0 <= y < a.ctx.bundles@.len() && y != x ==> #[trigger] e.ctx.bundles@[y] == a.ctx.bundles@[y]
            &&& placed(e, b)
            &&& e.ctx.spillsets@ == a.ctx.spillsets@ || needs(e, b, s) && e.ctx.spillsets@ == a.ctx.spillsets@.update(s, SpillSet { required: true, ..a.ctx.spillsets@[s] }) })
    ensures seen(o, e, n + 1)
{
    let l = o.ctx.spilled_bundles@; let b = l[n]; let x = b.0 as int; let z = o.ctx.bundles@[x].spillset.0 as int;
    assert(waits(o, b));
    assert forall|y: int| 0 <= y < o.ctx.bundles@.len() && (forall|i: int| 0 <= i < n + 1 ==> (#[trigger] l[i]).0 != y) implies (#[trigger] e.ctx.bundles@[y]) == o.ctx.bundles@[y] by { assert(l[n].0 != y); assert(a.ctx.bundles@[y] == o.ctx.bundles@[y]); }
    assert forall|y: int| 0 <= y < o.ctx.bundles@.len() implies keeps(o.ctx.bundles@[y], #[trigger] e.ctx.bundles@[y]) by { if y != x { assert(keeps(o.ctx.bundles@[y], a.ctx.bundles@[y])); } }
    assert forall|i: int| 0 <= i < n + 1 implies placed(e, #[trigger] l[i]) by {
        if i < n { assert(l[i] != l[n]); assert(placed(a, l[i])); assert(waits(o, l[i])); let y = l[i].0 as int; assert(e.ctx.bundles@[y] == a.ctx.bundles@[y]); assert(keeps(o.ctx.bundles@[y], a.ctx.bundles@[y])); }
    }
    assert forall|s: int| 0 <= s < o.ctx.spillsets@.len() implies (#[trigger] e.ctx.spillsets@[s]) == (SpillSet { required: e.ctx.spillsets@[s].required, ..o.ctx.spillsets@[s] }) && (o.ctx.spillsets@[s].required ==> e.ctx.spillsets@[s].required)
        && (e.ctx.spillsets@[s].required ==> needed(o, e, s, n + 1)) by {
        let t = a.ctx.spillsets@[s];
        if t.required {
            assert(needed(o, a, s, n));
            if !o.ctx.spillsets@[s].required {
                let i = choose|i: int| 0 <= i < n && needs(a, #[trigger] a.ctx.spilled_bundles@[i], s);
                assert(l[i] != l[n]); assert(waits(o, l[i])); assert(needs(e, e.ctx.spilled_bundles@[i], s));
            }
        } else if e.ctx.spillsets@[s].required { assert(s == z); assert(needs(e, e.ctx.spilled_bundles@[n], s)); }
    }
}
//@ fn src/ion/spill.rs Env::try_allocating_regs_for_spilled_bundles
//@ impl <'a, F: Function> Env<'a, F>
//@ at bundles
//@ at ranges
//@ at spillsets
//@ spec
    requires booked(*old(self)), leftover(*old(self)), old(self).ctx.bundles@.len() < u32::MAX,
        old(self).ctx.output.stats.spill_bundle_reg_probes + old(self).ctx.spilled_bundles@.len() < usize::MAX, old(self).ctx.output.stats.spill_bundle_reg_success + old(self).ctx.spilled_bundles@.len() < usize::MAX
    ensures seen(*old(self), *final(self), old(self).ctx.spilled_bundles@.len() as int)
//@ entry
    let ghost this = *self; let ghost n = self.ctx.spilled_bundles@.len() as int; let ghost st = self.ctx.output.stats;
    proof { assert forall|y: int| 0 <= y < this.ctx.bundles@.len() implies keeps(this.ctx.bundles@[y], #[trigger] this.ctx.bundles@[y]) by { same_order(this.ctx.bundles@[y].ranges@); } }
//@ loop 0 before
    proof { same(this, *self); assert(seen(this, *self, 0)); }
//@ loop 0
    invariant
        booked(this), leftover(this), this.ctx.bundles@.len() < u32::MAX, this.ctx.spilled_bundles@.len() == n, __n0 == n, __i0 <= n, seen(this, *self, __i0 as int),
        this.ctx.output.stats == st, st.spill_bundle_reg_probes + n < usize::MAX, st.spill_bundle_reg_success + n < usize::MAX,
        self.ctx.output.stats.spill_bundle_reg_probes <= st.spill_bundle_reg_probes + __i0, self.ctx.output.stats.spill_bundle_reg_success <= st.spill_bundle_reg_success + __i0,
    decreases n - __i0
//@ loop 0 begin
    let ghost a = *self; let ghost w = __i0 as int; let ghost b = this.ctx.spilled_bundles@[w]; let ghost x = b.0 as int; let ghost l = this.list(b);
    proof {
        assert(waits(this, b));
        assert forall|i: int| 0 <= i < w implies (#[trigger] this.ctx.spilled_bundles@[i]).0 != x by { assert(this.ctx.spilled_bundles@[i] != b); }
        assert(a.ctx.bundles@[x] == this.ctx.bundles@[x]);
    }
//@ before self.ctx.scratch_conflicts = scratch
    let ghost z = *self;
//@ exit
    proof { same(z, *self); }
//@ before continue
    proof { assert(placed(a, b)); same_order(l); one_more(this, a, *self, w); }
//@ loop 1
    invariant __s1@ == l, __i1 <= l.len(), __o1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> __o1@[k] == (#[trigger] l[k]).range.from
    decreases l.len() - __i1
//@ loop 1 after
    let ghost ks = __o1@;
//@ after vx_sort_unstable_by_key
    proof {
        let keys = Seq::new(l.len(), |k: int| l[k].range.from);
        assert(ordered_by(keys, l, self.list(b)));
        sorted(keys, l, self.list(b));
        assert(self.ctx.bundles@ =~= a.ctx.bundles@.update(x, LiveBundle { ranges: self.ctx.bundles@[x].ranges, ..a.ctx.bundles@[x] }));
    }
//@ loop 2 before
    let ghost c = *self; let ghost q = c.ctx.output.stats.spill_bundle_reg_success;
    proof { resort(a, c, x); }
//@ loop 2
    invariant_except_break
        !success, self.ctx.output.stats.spill_bundle_reg_success == q
    invariant
        bundle == b, x == b.0, x < c.ctx.bundles@.len(), c.list(b).len() > 0, tidy(c.list(b)), c.ctx.bundles@[x].allocation.k() != 1, q < usize::MAX, booked(*self),
        self.ctx.ranges == c.ctx.ranges, self.ctx.spilled_bundles == c.ctx.spilled_bundles, self.ctx.allocation_queue == c.ctx.allocation_queue, self.env == c.env, self.ctx.spillsets == c.ctx.spillsets,
        self.ctx.output.stats.spill_bundle_reg_probes == c.ctx.output.stats.spill_bundle_reg_probes, self.ctx.output.stats.spill_bundle_reg_success <= q + 1,
        self.ctx.bundles@ == c.ctx.bundles@.update(x, LiveBundle { allocation: self.ctx.bundles@[x].allocation, ..c.ctx.bundles@[x] }),
        success ==> self.ctx.bundles@[x].allocation.k() == 1, !success ==> self.ctx.bundles@[x] == c.ctx.bundles@[x],
    decreases (if __nx2 is Some { 1 + __it2.left() } else { 0nat })
//@ loop 2 begin
    proof {
        let d = *self; assert(d.list(b) == c.list(b));
        assert forall|i: int| 0 <= i < d.list(b).len() implies (#[trigger] d.list(b)[i]).index.0 < d.ctx.ranges@.len() && d.ctx.ranges@[d.list(b)[i].index.0 as int].bundle == bundle by { assert(owns(d, x, i)); }
        regof_reg(__nx2->0);
    }
//@ before self.ctx.output.stats.spill_bundle_reg_success
    let ghost d = *self;
    proof { assert(booked(d)); }
//@ before success = true
    proof { same(d, *self); }
//@ before if !success
    let ghost f = *self;
//@ loop 0 end
    proof { same(f, *self); one_more(this, a, *self, w); }
//@ end
/// A group's spill group, if it has one, is on the list and has the group's spill slot.
spec fn linked<'a, F: Function>(e: Env<'a, F>) -> bool {
    forall|s: int| 0 <= s < e.ctx.spillsets@.len() && (#[trigger] e.ctx.spillsets@[s]).spill_bundle.0 != u32::MAX ==> on_list(e, s)
}
spec fn on_list<'a, F: Function>(e: Env<'a, F>, s: int) -> bool { e.ctx.spilled_bundles@.contains(e.ctx.spillsets@[s].spill_bundle) && e.ctx.bundles@[e.ctx.spillsets@[s].spill_bundle.0 as int].spillset.0 == s }
//@ fn src/index.rs!define_index!SpillSetIndex SpillSetIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
/// One more bundle: empty and in no register.
spec fn another(a: Seq<LiveBundle>, b: Seq<LiveBundle>) -> bool { let x = b[a.len() as int]; b =~= a.push(x) && x.ranges@.len() == 0 && x.allocation.k() == 0 }
impl LiveBundles { fn push(&mut self, x: LiveBundle) -> (res: LiveBundleIndex) requires old(self)@.len() < u32::MAX ensures final(self)@ == old(self)@.push(x), res.0 == old(self)@.len() { let n = self.storage.len(); self.storage.push(x); LiveBundleIndex(n as u32) } }
//@ fn src/ion/data_structures.rs LiveBundles::add
//@ spec
    requires old(self)@.len() < u32::MAX
    ensures res.0 == old(self)@.len(), another(old(self)@, final(self)@)
//@ entry
    proof { assert((0u32 >> 29u32) & 7u32 == 0u32) by(bit_vector); }
//@ end
/// The bookkeeping with one more group, of no ranges and in no register.
proof fn grown<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, n: LiveBundle)
    requires booked(a), b.ctx.pregs == a.ctx.pregs, b.ctx.ranges == a.ctx.ranges, b.ctx.bundles@ == a.ctx.bundles@.push(n), n.ranges@.len() == 0, n.allocation.k() == 0
    ensures booked(b)
{
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() && (#[trigger] b.ctx.bundles@[y]).allocation.k() == 1 implies tidy(b.ctx.bundles@[y].ranges@) by { if y < a.ctx.bundles@.len() { assert(a.ctx.bundles@[y].allocation.k() == 1); } }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() implies #[trigger] owns(b, y, i) by { assert(owns(a, y, i)); }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() && b.ctx.bundles@[y].allocation.k() == 1 implies #[trigger] stored(b, y, i) by { assert(stored(a, y, i)); }
    assert forall|t: int, k: LiveRangeKey| 0 <= t < 256 && b.map(t)@.contains_key(k) && !b.fixed(t, k) implies #[trigger] backed(b, t, k) by {
        assert(a.ctx.pregs@[t].allocations.btree@.contains_key(k)); assert(backed(a, t, k)); assert(a.list(a.owner(t, k)) == b.list(b.owner(t, k)));
    }
}
//@ fn src/ion/process.rs Env::get_or_create_spill_bundle
//@ impl <'a, F: Function> Env<'a, F>
//@ at bundles
//@ at ranges
//@ at spillsets
//@ spec
    requires booked(*old(self)), leftover(*old(self)), linked(*old(self)), bundle.0 < old(self).ctx.bundles@.len(), old(self).ctx.bundles@.len() < u32::MAX,
        old(self).ctx.bundles@[bundle.0 as int].spillset.0 < old(self).ctx.spillsets@.len()
    ensures booked(*final(self)), leftover(*final(self)), linked(*final(self)),
        ({ let (o, e) = (*old(self), *final(self)); let s = o.ctx.bundles@[bundle.0 as int].spillset.0 as int;
            match res {
                // there is one, and it is the only one
                Some(b) => e.ctx.spillsets@[s].spill_bundle == b && e.ctx.bundles@[b.0 as int].spillset.0 == s && e.ctx.spilled_bundles@.contains(b)
                    && (if o.ctx.spillsets@[s].spill_bundle.0 != u32::MAX { e == o } else {
                        &&& create_if_absent && b.0 == o.ctx.bundles@.len() && e.ctx.bundles@.len() == b.0 + 1 && e.ctx.bundles@.take(b.0 as int) == o.ctx.bundles@ && e.ctx.bundles@[b.0 as int].ranges@.len() == 0
                        &&& e.ctx.spilled_bundles@ == o.ctx.spilled_bundles@.push(b) && e.ctx.spillsets@ == o.ctx.spillsets@.update(s, SpillSet { spill_bundle: b, ..o.ctx.spillsets@[s] })
                        &&& e.ctx.pregs == o.ctx.pregs && e.ctx.ranges == o.ctx.ranges && e.ctx.allocation_queue == o.ctx.allocation_queue
                    }),
                None => !create_if_absent && o.ctx.spillsets@[s].spill_bundle.0 == u32::MAX && e == o,
            } })
//@ entry
    let ghost o = *self; let ghost s = self.ctx.bundles@[bundle.0 as int].spillset.0 as int;
    proof { if o.ctx.spillsets@[s].spill_bundle.0 != u32::MAX { assert(on_list(o, s)); } }
//@ exit
    proof { if o.ctx.spillsets@[s].spill_bundle.0 == u32::MAX && create_if_absent {
        let e = *self; let b = LiveBundleIndex(o.ctx.bundles@.len() as u32);
        let (p, q) = (o.ctx.spilled_bundles@, e.ctx.spilled_bundles@);
        assert(q == p.push(b)); assert(q[p.len() as int] == b);
        assert(e.ctx.bundles@ =~= o.ctx.bundles@.push(e.ctx.bundles@[b.0 as int])); assert(e.ctx.bundles@.take(b.0 as int) =~= o.ctx.bundles@);
        grown(o, e, e.ctx.bundles@[b.0 as int]);
        assert forall|i: int| 0 <= i < q.len() implies waits(e, #[trigger] q[i]) by { if i < p.len() { assert(waits(o, p[i])); } }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { if j == p.len() { assert(waits(o, p[i])); } }
        assert forall|t: int| 0 <= t < e.ctx.spillsets@.len() && (#[trigger] e.ctx.spillsets@[t]).spill_bundle.0 != u32::MAX implies on_list(e, t) by {
            if t != s { let x = o.ctx.spillsets@[t].spill_bundle; assert(on_list(o, t)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(waits(o, p[i])); assert(q[i] == x); }
        }
    } }
//@ end
}
fn main() {}
