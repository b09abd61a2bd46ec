use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ type BTreeMap VxOrdMap
//@ type SmallVec Vec
//@ type alloc::collections::BinaryHeap VxHeap
//@ type core::cmp::min vx_min
//@ deref self.bundles ctx
//@ deref self.ranges ctx
//@ deref self.allocation_queue ctx
//@ deref self.output ctx
//@ type u8::try_from vx_u8
//@ include ../../common/verus/bundles.rs
fn vx_min(a: u32, b: u32) -> (res: u32) ensures res == (if a < b { a } else { b }) { if a < b { a } else { b } }
//@ item src/lib.rs enum InstPosition
//@ item src/index.rs!define_index!Inst struct Inst
//@ item src/lib.rs struct VReg
//@ item src/lib.rs struct Operand
//@ item src/lib.rs enum OperandConstraint
//@ item src/lib.rs enum OperandKind
/// An operand's parts as decoded from its bits (P01).
uninterp spec fn con(o: Operand) -> OperandConstraint;
uninterp spec fn kind_of(o: Operand) -> OperandKind;
//@ fn src/lib.rs Operand::constraint external
//@ spec
    ensures res == con(self)
//@ end
//@ fn src/lib.rs Operand::kind external
//@ spec
    ensures res == kind_of(self)
//@ end
//@ item src/ion/data_structures.rs struct Use
type UseList = Vec<Use>;
trait Function {}
//@ fn src/index.rs!define_index!Inst Inst::new
//@ spec
    ensures res.0 == i as u32
//@ end
/// The derived order of a struct of one number.
impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProgPoint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &ProgPoint) -> Option<core::cmp::Ordering> { Some(if self.bits < o.bits { core::cmp::Ordering::Less } else if self.bits == o.bits { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) }
}
impl PartialOrd for ProgPoint { #[verifier::external_body] fn partial_cmp(&self, o: &ProgPoint) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl ProgPoint {
    fn min(self, o: ProgPoint) -> (res: ProgPoint) ensures res.bits == (if self.bits < o.bits { self.bits } else { o.bits }) { if self.bits < o.bits { self } else { o } }
    fn max(self, o: ProgPoint) -> (res: ProgPoint) ensures res.bits == (if self.bits < o.bits { o.bits } else { self.bits }) { if self.bits < o.bits { o } else { self } }
}
//@ fn src/lib.rs ProgPoint::new
//@ entry
    let ghost x = inst.0;
    assert(x <= 0x7fff_ffffu32 ==> ((x << 1u32) | 0u32 == 2 * x) && ((x << 1u32) | 1u32 == 2 * x + 1)) by(bit_vector);
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0 + (if pos is After { 1int } else { 0 })
//@ end
//@ fn src/lib.rs ProgPoint::before
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0
//@ end
//@ fn src/lib.rs ProgPoint::inst
//@ spec
    requires self.bits <= 0x7fff_ffff
    ensures res.0 == self.bits / 2
//@ entry
    proof { let b = self.bits; assert(b <= 0x7fff_ffffu32 ==> (((b as i32) >> 1) as usize) as u32 == b / 2) by(bit_vector); }
//@ end
//@ fn src/lib.rs ProgPoint::after
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0 + 1
//@ end
//@ fn src/lib.rs ProgPoint::pos
//@ spec
    ensures res is Before <==> self.bits % 2 == 0
//@ entry
    proof { let b = self.bits; assert(b & 1u32 == b % 2) by(bit_vector); }
//@ end
//@ fn src/index.rs!define_index!Inst Inst::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ fn src/index.rs!define_index!Inst Inst::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!Inst Inst::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!Inst Inst::next
//@ spec
    requires self.0 < u32::MAX
    ensures res.0 == self.0 + 1
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::is_invalid
//@ spec
    ensures res == (self.0 == u32::MAX)
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/ion/data_structures.rs CodeRange::contains
//@ spec
    ensures res == (self.from.bits <= other.from.bits && other.to.bits <= self.to.bits)
//@ end
//@ fn src/ion/data_structures.rs CodeRange::len
//@ spec
    requires self.from.bits <= self.to.bits <= 0x7fff_ffff
    ensures res == self.to.bits / 2 - self.from.bits / 2
//@ end
#[verifier::external_body]
fn vx_u8(x: usize) -> (res: core::result::Result<u8, u64>) ensures x <= 255 ==> res == core::result::Result::<u8, u64>::Ok(x as u8) { unimplemented!() }
/// BinaryHeap by what it holds.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxHeap<T> { x: core::marker::PhantomData<T> }
impl<T> VxHeap<T> {
    uninterp spec fn view(self) -> vstd::multiset::Multiset<T>;
    #[verifier::external_body]
    fn push(&mut self, t: T) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (res: usize) ensures res == self@.len() { unimplemented!() }
}
//@ item src/ion/data_structures.rs struct PrioQueueEntry derive()
//@ item src/ion/data_structures.rs struct PrioQueue derive()
//@ fn src/ion/data_structures.rs PrioQueue::insert
//@ spec
    ensures final(self).heap@ == old(self).heap@.insert(PrioQueueEntry { prio: prio as u32, bundle, hint })
//@ end
/// The summed weight of uses, of which nothing is known: a float, truncated to any u32.
struct SpillWeight { x: u64 }
impl SpillWeight {
    #[verifier::external_body] fn zero() -> SpillWeight { unimplemented!() }
    #[verifier::external_body] fn to_f32(self) -> u32 { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<SpillWeight> for SpillWeight { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: SpillWeight) -> bool { true } open spec fn add_spec(self, o: SpillWeight) -> SpillWeight { arbitrary() } }
impl core::ops::Add<SpillWeight> for SpillWeight { type Output = SpillWeight; #[verifier::external_body] fn add(self, o: SpillWeight) -> SpillWeight { unimplemented!() } }
impl SpillWeight { #[verifier::external_body] fn from_bits(bits: u16) -> SpillWeight { unimplemented!() } }
/// A range that starts with a definition is marked.
spec fn starts_at_def(r: LiveRange) -> bool { r.uses_spill_weight_and_flags & 0x20000000u32 != 0 }
impl LiveRange {
    #[verifier::external_body] fn uses_spill_weight(&self) -> SpillWeight { unimplemented!() }
    /// The weight goes to the lower 29 bits (P20).
    #[verifier::external_body] fn set_uses_spill_weight(&mut self, w: SpillWeight)
        ensures *final(self) == (LiveRange { uses_spill_weight_and_flags: final(self).uses_spill_weight_and_flags, ..*old(self) }), final(self).uses_spill_weight_and_flags & 0xe000_0000u32 == old(self).uses_spill_weight_and_flags & 0xe000_0000u32
    { unimplemented!() }
}
impl LiveRanges {
    fn vx_at_mut(&mut self, i: LiveRangeIndex) -> (res: &mut LiveRange) requires i.0 < old(self)@.len()
        ensures *res == old(self)@[i.0 as int], final(self)@ == old(self)@.update(i.0 as int, *final(res)) { &mut self.storage[i.0 as usize] }
}
//@ item src/ion/data_structures.rs enum LiveRangeFlag
//@ fn src/ion/data_structures.rs LiveRange::set_flag
//@ spec
    ensures *final(self) == (LiveRange { uses_spill_weight_and_flags: (old(self).uses_spill_weight_and_flags | 0x20000000u32) as u32, ..*old(self) })
//@ entry
    proof { assert(1u32 << 29u32 == 0x20000000u32) by(bit_vector); }
//@ end
impl LiveBundles { fn len(&self) -> (res: usize) ensures res == self@.len() { self.storage.len() } }
//@ item src/ion/data_structures.rs const MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT exec MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT == 0xfff_ffff | assert(true);
//@ item src/ion/data_structures.rs const MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT exec MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT == 0xfff_fffe | assert(true);
//@ item src/ion/data_structures.rs const MINIMAL_BUNDLE_SPILL_WEIGHT exec MINIMAL_BUNDLE_SPILL_WEIGHT == 0xfff_fefe | assert(true);
//@ item src/ion/data_structures.rs const BUNDLE_MAX_NORMAL_SPILL_WEIGHT exec BUNDLE_MAX_NORMAL_SPILL_WEIGHT == 0xfff_fefd | assert(true);
spec fn flag(b: LiveBundle, m: u32) -> bool { b.spill_weight_and_props & m != 0 }
spec fn minimal_of(b: LiveBundle) -> bool { flag(b, 0x80000000u32) }
spec fn bit(m: u32, x: bool) -> u32 { if x { m } else { 0u32 } }
proof fn packing(w: u32, m: bool, f: bool, d: bool, s: bool) -> (p: u32)
    requires w <= 0xfff_ffff
    ensures p == w | bit(0x80000000u32, m) | bit(0x40000000u32, f) | bit(0x20000000u32, d) | bit(0x10000000u32, s),
        p & 0xfff_ffffu32 == w, (p & 0x80000000u32 != 0) == m, (p & 0x40000000u32 != 0) == f, (p & 0x20000000u32 != 0) == d, (p & 0x10000000u32 != 0) == s
{
    let (a, b, c, e) = (bit(0x80000000u32, m), bit(0x40000000u32, f), bit(0x20000000u32, d), bit(0x10000000u32, s));
    let p = w | a | b | c | e;
    assert(w <= 0xfff_ffffu32 && (a == 0 || a == 0x80000000u32) && (b == 0 || b == 0x40000000u32) && (c == 0 || c == 0x20000000u32) && (e == 0 || e == 0x10000000u32) && p == w | a | b | c | e
        ==> p & 0xfff_ffffu32 == w && p & 0x80000000u32 == a && p & 0x40000000u32 == b && p & 0x20000000u32 == c && p & 0x10000000u32 == e) by(bit_vector);
    p
}
//@ fn src/ion/data_structures.rs LiveBundle::set_cached_spill_weight_and_props
//@ spec
    requires spill_weight <= 0xfff_ffff
    ensures *final(self) == (LiveBundle { spill_weight_and_props: final(self).spill_weight_and_props, ..*old(self) }), weight(*final(self)) == spill_weight,
        minimal_of(*final(self)) == minimal, flag(*final(self), 0x40000000u32) == fixed, flag(*final(self), 0x20000000u32) == fixed_def, flag(*final(self), 0x10000000u32) == stack
//@ entry
    proof {
        assert((1u32 << 31u32) == 0x80000000u32 && (1u32 << 30u32) == 0x40000000u32 && (1u32 << 29u32) == 0x20000000u32 && (1u32 << 28u32) == 0x10000000u32) by(bit_vector);
        packing(spill_weight, minimal, fixed, fixed_def, stack);
    }
//@ end
//@ fn src/ion/data_structures.rs LiveBundle::cached_minimal
//@ spec
    ensures res == minimal_of(*self)
//@ entry
    proof { assert((1u32 << 31u32) == 0x80000000u32) by(bit_vector); }
//@ end
//@ item src/ion/data_structures.rs struct Stats derive()
struct Output { stats: Stats }
/// The parts of Ctx and Env that are used here (all others dropped).
struct Ctx { pregs: Vec<PRegData>, ranges: LiveRanges, bundles: LiveBundles, allocation_queue: PrioQueue, output: Output }
struct Env<'a, F: Function> { func: &'a F, ctx: Ctx }
spec fn limit_of(o: Operand) -> Option<int> { match con(o) { OperandConstraint::Limit(k) => Some(k as int), _ => None } }
spec fn fix(o: Operand) -> bool { con(o) is FixedReg }
spec fn fixdef(o: Operand) -> bool { con(o) is FixedReg && kind_of(o) is Def }
spec fn on_stack(o: Operand) -> bool { con(o) is Stack }
/// A live range's uses can all be looked at: a limit fits.
spec fn use_ok(o: Operand) -> bool { match limit_of(o) { Some(k) => 0 <= k <= 255, None => true } }
spec fn uses_of(g: Seq<LiveRange>, x: LiveRangeListEntry) -> Seq<Use> { g[x.index.0 as int].uses@ }
/// A bundle as it stands before its properties are looked at.
spec fn ready<'a, F: Function>(e: Env<'a, F>, b: int) -> bool {
    let l = e.ctx.bundles@[b].ranges@;
    &&& tidy(l)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] ready_at(e.ctx.ranges@, l[i])
}
spec fn ready_at(g: Seq<LiveRange>, x: LiveRangeListEntry) -> bool {
    let u = uses_of(g, x);
    &&& x.index.0 < g.len() && x.range.to.bits <= 0x7fff_ffff
    &&& forall|j: int| 0 <= j < u.len() ==> use_ok((#[trigger] u[j]).operand) && u[j].pos.bits < 0x7fff_fff0
}
/// Instructions covered by the first n ranges.
spec fn length(l: Ranges, n: int) -> int decreases n { if n <= 0 { 0 } else { length(l, n - 1) + l[n - 1].range.to.bits / 2 - l[n - 1].range.from.bits / 2 } }
proof fn length_fits(l: Ranges, n: int)
    requires tidy(l), 0 <= n <= l.len()
    ensures 0 <= length(l, n), n > 0 ==> length(l, n) <= l[n - 1].range.to.bits / 2 - l[0].range.from.bits / 2
    decreases n
{
    if n > 0 {
        length_fits(l, n - 1); assert(proper(span(l[n - 1])));
        if n > 1 { assert(l[n - 2].range.to.bits <= l[n - 1].range.from.bits); }
    }
}
//@ fn src/ion/merge.rs Env::compute_bundle_prio
//@ at ctx.bundles
//@ at ctx.ranges
//@ spec
    requires bundle.0 < self.ctx.bundles@.len(), ready(*self, bundle.0 as int)
    ensures res == length(self.list(bundle), self.list(bundle).len() as int)
//@ entry
    let ghost l = self.list(bundle);
//@ loop 0
    invariant __s0@ == l, __i0 <= l.len(), l == self.list(bundle), ready(*self, bundle.0 as int), total ==  length(l, __i0 as int)
    decreases l.len() - __i0
//@ loop 0 begin
    proof { length_fits(l, __i0 as int + 1); length_fits(l, __i0 as int); assert(ready_at(self.ctx.ranges@, l[__i0 as int])); assert(proper(span(l[__i0 as int]))); }
//@ end
/// No use of a range wants one fixed place.
spec fn loose(u: Seq<Use>) -> bool { forall|j: int| 0 <= j < u.len() ==> !fix((#[trigger] u[j]).operand) && !on_stack(u[j].operand) }
spec fn held_by(u: Seq<Use>, n: int, r: Option<u8>) -> bool { forall|j: int| 0 <= j < n ==> (match limit_of((#[trigger] u[j]).operand) { Some(k) => r is Some && r->0 <= k, None => true }) }
spec fn wanted(u: Seq<Use>, r: Option<u8>) -> bool { match r { Some(m) => exists|j: int| 0 <= j < u.len() && limit_of((#[trigger] u[j]).operand) == Some(m as int), None => true } }
/// The least limit of the uses: no more than any (of ranges that could be in any register), and of some use.
spec fn least(g: Seq<LiveRange>, l: Ranges, n: int, r: Option<u8>) -> bool {
    &&& forall|i: int| 0 <= i < n && loose(uses_of(g, #[trigger] l[i])) ==> held_by(uses_of(g, l[i]), uses_of(g, l[i]).len() as int, r)
    &&& r is Some ==> exists|i: int| 0 <= i < l.len() && #[trigger] wanted(uses_of(g, l[i]), r)
}
//@ fn src/ion/merge.rs Env::compute_bundle_limit
//@ at ctx.bundles
//@ at ctx.ranges
//@ spec
    requires bundle.0 < self.ctx.bundles@.len(), ready(*self, bundle.0 as int)
    ensures least(self.ctx.ranges@, self.list(bundle), self.list(bundle).len() as int, res)
//@ entry
    let ghost l = self.list(bundle);
//@ loop 0
    invariant __s0@ == l, __i0 <= l.len(), l == self.list(bundle), bundle.0 < self.ctx.bundles@.len(), ready(*self, bundle.0 as int), least(self.ctx.ranges@, l, __i0 as int, limit)
    decreases l.len() - __i0
//@ loop 0 begin
    let ghost n = __i0 as int;
    proof { assert(ready_at(self.ctx.ranges@, l[n])); }
//@ loop 1
    invariant_except_break
        held_by(__s1@, __i1 as int, limit)
    invariant 0 <= n < l.len(), __s1@ == uses_of(self.ctx.ranges@, l[n]), __i1 <= __s1@.len(), ready_at(self.ctx.ranges@, l[n]), least(self.ctx.ranges@, l, n, limit)
    ensures loose(__s1@) ==> held_by(__s1@, __s1@.len() as int, limit)
    decreases __s1@.len() - __i1
//@ loop 1 begin
    let ghost o = limit; let ghost k = __i1 as int;
//@ loop 1 end
    proof { if limit != o { assert(wanted(__s1@, limit)) by { assert(limit_of(__s1@[k].operand) is Some); } } }
//@ end
/// The least stretch of the program a use needs its location for.
spec fn need(u: Use) -> (int, int) {
    let i = 2 * (u.pos.bits / 2) as int;
    (if kind_of(u.operand) is Def && u.pos.bits % 2 == 1 { i + 1 } else { i }, if kind_of(u.operand) is Use && u.pos.bits % 2 == 0 { i + 1 } else { i + 2 })
}
//@ fn src/ion/process.rs minimal_range_for_use
//@ spec
    requires u.pos.bits < 0x7fff_fff0
    ensures (res.from.bits as int, res.to.bits as int) == need(*u)
//@ end
/// What cannot be split: a reservation, or one range with one use at most and no longer than that needs.
spec fn unsplittable(l: Ranges, r: LiveRange) -> bool {
    r.vreg.0 == u32::MAX || l.len() == 1 && (r.uses@.len() == 0 || r.uses@.len() == 1 && need(r.uses@[0]).0 <= r.range.from.bits && r.range.to.bits <= need(r.uses@[0]).1)
}
spec fn some_fix(u: Seq<Use>, n: int) -> bool { exists|j: int| 0 <= j < n && fix((#[trigger] u[j]).operand) }
spec fn some_fixdef(u: Seq<Use>, n: int) -> bool { exists|j: int| 0 <= j < n && fixdef((#[trigger] u[j]).operand) }
spec fn some_stack(u: Seq<Use>, n: int) -> bool { exists|j: int| 0 <= j < n && on_stack((#[trigger] u[j]).operand) }
/// A bundle's weight and marks are those of its ranges.
spec fn weighed(x: LiveBundle, g: Seq<LiveRange>) -> bool {
    let l = x.ranges@; let r = g[l[0].index.0 as int];
    &&& x.prio == length(l, l.len() as int) && least(g, l, l.len() as int, x.limit)
    &&& minimal_of(x) == unsplittable(l, r)
    &&& minimal_of(x) ==> weight(x) == (if flag(x, 0x40000000u32) { 0xfff_ffffu32 } else { match x.limit { Some(k) => (0xfff_fffe - k) as u32, None => 0xfff_fefeu32 } })
    &&& !minimal_of(x) ==> weight(x) <= 0xfff_fefd
    &&& r.vreg.0 == u32::MAX ==> flag(x, 0x40000000u32)
    &&& r.vreg.0 != u32::MAX && l.len() == 1 ==> {
        let u = r.uses@; let n = u.len() as int;
        &&& flag(x, 0x40000000u32) == some_fix(u, n)
        &&& (!flag(x, 0x40000000u32) || !flag(x, 0x10000000u32)) ==> flag(x, 0x10000000u32) == some_stack(u, n) && flag(x, 0x20000000u32) == some_fixdef(u, n)
    }
}
/// So what cannot be split outweighs what can; a fixed place outweighs a choice; and a tighter choice a wider.
proof fn outweighs(x: LiveBundle, y: LiveBundle, g: Seq<LiveRange>)
    requires weighed(x, g), weighed(y, g), minimal_of(x)
    ensures !minimal_of(y) ==> weight(x) > weight(y),
        flag(x, 0x40000000u32) && minimal_of(y) && !flag(y, 0x40000000u32) ==> weight(x) > weight(y),
        !flag(x, 0x40000000u32) && !flag(y, 0x40000000u32) && minimal_of(y) ==> (match (x.limit, y.limit) { (Some(i), Some(j)) => i < j ==> weight(x) > weight(y), (Some(i), None) => weight(x) > weight(y), _ => true })
{ }
//@ fn src/ion/process.rs Env::recompute_bundle_properties
//@ at ctx.bundles
//@ at ctx.ranges
//@ mut set_cached_spill_weight_and_props
//@ spec
    requires bundle.0 < old(self).ctx.bundles@.len(), ready(*old(self), bundle.0 as int), old(self).list(bundle).len() > 0
    ensures
        *final(self) == (Env { ctx: Ctx { bundles: final(self).ctx.bundles, ..old(self).ctx }, ..*old(self) }),
        final(self).ctx.bundles@ == old(self).ctx.bundles@.update(bundle.0 as int, LiveBundle { prio: final(self).ctx.bundles@[bundle.0 as int].prio, limit: final(self).ctx.bundles@[bundle.0 as int].limit,
            spill_weight_and_props: final(self).ctx.bundles@[bundle.0 as int].spill_weight_and_props, ..old(self).ctx.bundles@[bundle.0 as int] }),
        weighed(final(self).ctx.bundles@[bundle.0 as int], final(self).ctx.ranges@)
//@ entry
    let ghost l = self.list(bundle); let ghost this = *self;
    proof { let u = uses_of(this.ctx.ranges@, l[0]); assert(ready_at(this.ctx.ranges@, l[0])); if u.len() == 1 { assert(use_ok(u[0].operand) && u[0].pos.bits < 0x7fff_fff0); } }
//@ loop 0
    invariant_except_break
        fixed == some_fix(__s0@, __i0 as int), fixed_def == some_fixdef(__s0@, __i0 as int), stack == some_stack(__s0@, __i0 as int)
    invariant __i0 <= __s0@.len(), stack ==> some_stack(__s0@, __s0@.len() as int)
    ensures fixed == some_fix(__s0@, __s0@.len() as int), fixed && stack || fixed_def == some_fixdef(__s0@, __s0@.len() as int) && stack == some_stack(__s0@, __s0@.len() as int)
    decreases __s0@.len() - __i0
//@ loop 1
    invariant __s1@ == l, __i1 <= l.len(), ready(this, bundle.0 as int), l == this.list(bundle), self.ctx.ranges == this.ctx.ranges
    decreases l.len() - __i1
//@ loop 1 begin
    proof { assert(ready_at(this.ctx.ranges@, l[__i1 as int])); }
//@ end
//@ fn src/ion/process.rs Env::minimal_bundle
//@ at ctx.bundles
//@ spec
    requires bundle.0 < self.ctx.bundles@.len()
    ensures res == minimal_of(self.ctx.bundles@[bundle.0 as int])
//@ end
/// The queue of what the first n bundles put there: each that has ranges, once, by its length.
type Queue = vstd::multiset::Multiset<PrioQueueEntry>;
spec fn entry(b: Seq<LiveBundle>, n: int) -> PrioQueueEntry { PrioQueueEntry { prio: b[n].prio, bundle: LiveBundleIndex(n as u32), hint: no_preg() } }
spec fn queue(q: Queue, b: Seq<LiveBundle>, n: int) -> Queue decreases n { if n <= 0 { q } else if b[n - 1].ranges@.len() == 0 { queue(q, b, n - 1) } else { queue(q, b, n - 1).insert(entry(b, n - 1)) } }
proof fn queue_same(q: Queue, a: Seq<LiveBundle>, b: Seq<LiveBundle>, n: int)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures queue(q, a, n) == queue(q, b, n)
    decreases n
{ if n > 0 { queue_same(q, a, b, n - 1); } }
spec fn same_ranges<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>) -> bool {
    &&& b == (Env { ctx: Ctx { bundles: b.ctx.bundles, allocation_queue: b.ctx.allocation_queue, output: b.ctx.output, ..a.ctx }, ..a })
    &&& b.ctx.bundles@.len() == a.ctx.bundles@.len()
    &&& forall|y: int| 0 <= y < a.ctx.bundles@.len() ==> #[trigger] b.ctx.bundles@[y] == (LiveBundle { prio: b.ctx.bundles@[y].prio, limit: b.ctx.bundles@[y].limit, spill_weight_and_props: b.ctx.bundles@[y].spill_weight_and_props, ..a.ctx.bundles@[y] })
}
//@ fn src/ion/merge.rs Env::queue_bundles
//@ at ctx.bundles
//@ at ctx.ranges
//@ spec
    requires old(self).ctx.bundles@.len() < u32::MAX, forall|y: int| 0 <= y < old(self).ctx.bundles@.len() ==> #[trigger] ready(*old(self), y)
    ensures same_ranges(*old(self), *final(self)),
        forall|y: int| 0 <= y < old(self).ctx.bundles@.len() && old(self).ctx.bundles@[y].ranges@.len() > 0 ==> weighed(#[trigger] final(self).ctx.bundles@[y], final(self).ctx.ranges@),
        final(self).ctx.allocation_queue.heap@ == queue(old(self).ctx.allocation_queue.heap@, final(self).ctx.bundles@, old(self).ctx.bundles@.len() as int)
//@ entry
    let ghost this = *self; let ghost q = self.ctx.allocation_queue.heap@; let ghost nb = self.ctx.bundles@.len() as int;
//@ loop 0
    invariant this == *old(self), nb == this.ctx.bundles@.len(), __n0 == nb, __i0 <= nb, nb < u32::MAX, q == this.ctx.allocation_queue.heap@, same_ranges(this, *self),
        forall|y: int| 0 <= y < nb ==> #[trigger] ready(this, y),
        forall|y: int| 0 <= y < __i0 && this.ctx.bundles@[y].ranges@.len() > 0 ==> weighed(#[trigger] self.ctx.bundles@[y], self.ctx.ranges@),
        self.ctx.allocation_queue.heap@ == queue(q, self.ctx.bundles@, __i0 as int)
    decreases nb - __i0
//@ loop 0 begin
    let ghost a = *self; let ghost k = __i0 as int;
    proof { assert(ready(this, k)); assert(a.ctx.bundles@[k].ranges == this.ctx.bundles@[k].ranges); assert(ready(a, k)); }
//@ loop 0 end
    proof {
        let b = *self;
        assert forall|y: int| 0 <= y < k && this.ctx.bundles@[y].ranges@.len() > 0 implies weighed(#[trigger] b.ctx.bundles@[y], b.ctx.ranges@) by { assert(b.ctx.bundles@[y] == a.ctx.bundles@[y]); }
        queue_same(q, a.ctx.bundles@, b.ctx.bundles@, k);
    }
//@ end
//@ fn src/ion/process.rs Env::recompute_range_properties
//@ at ctx.ranges
//@ spec
    requires range.0 < old(self).ctx.ranges@.len()
    ensures
        *final(self) == (Env { ctx: Ctx { ranges: final(self).ctx.ranges, ..old(self).ctx }, ..*old(self) }),
        final(self).ctx.ranges@ == old(self).ctx.ranges@.update(range.0 as int, LiveRange { uses_spill_weight_and_flags: final(self).ctx.ranges@[range.0 as int].uses_spill_weight_and_flags, ..old(self).ctx.ranges@[range.0 as int] }),
        ({ let u = old(self).ctx.ranges@[range.0 as int].uses@; starts_at_def(final(self).ctx.ranges@[range.0 as int]) == (starts_at_def(old(self).ctx.ranges@[range.0 as int]) || u.len() > 0 && kind_of(u[0].operand) is Def) })
//@ entry
    proof {
        assert(forall|a: u32, b: u32| a & 0xe000_0000u32 == b & 0xe000_0000u32 ==> (#[trigger] (a & 0x2000_0000u32) == #[trigger] (b & 0x2000_0000u32))) by(bit_vector);
        assert(forall|a: u32| (#[trigger] (a | 0x2000_0000u32)) & 0x2000_0000u32 != 0) by(bit_vector);
    }
//@ loop 0
    invariant __i0 <= __s0@.len()
    decreases __s0@.len() - __i0
//@ end
} fn main() { }
