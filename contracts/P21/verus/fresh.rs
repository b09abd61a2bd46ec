use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ type BTreeMap VxOrdMap
//@ type SmallVec<[SpillSlotIndex;32]> Vec<SpillSlotIndex>
//@ type SmallVec<[Allocation;2]> Vec<Allocation>
//@ type UnsafeSendSync<LiveRanges> LiveRanges
//@ type UnsafeSendSync<LiveBundles> LiveBundles
//@ type UnsafeSendSync<VRegs> VRegs
//@ type UnsafeSendSync<Bump> Bump
//@ type FxHashMap<ProgPoint,Vec<String>> VxBag<ProgPoint>
//@ type FxHashSet VxBag
//@ type FxHashMap<usize,Operand> VxBag<usize>
//@ type VecDeque VxBag
//@ type alloc::collections::BinaryHeap VxBag
//@ type ion::Stats Stats
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/preg.rs
//@ item src/lib.rs aconst PReg::INVALID exec Self::INVALID == 63 | assert(((0u8 << 6usize) | 63u8) == 63u8) by(bit_vector);
//@ fn src/lib.rs PReg::invalid
//@ spec
    ensures res.bits == 63
//@ end
/// Standing for std's and hashbrown's collections of which only clear() is used here.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxBag<T> { k: core::marker::PhantomData<T> }
impl<T> VxBag<T> {
    uninterp spec fn none(&self) -> bool;
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self).none() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxOrdMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> VxOrdMap<K, V> {
    uninterp spec fn none(&self) -> bool;
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self).none() { unimplemented!() }
}
/// Standing for std's draining iterator (verified).
struct VxDrain<T> { r: Vec<T> }
impl<T> VxDrain<T> {
    spec fn left(&self) -> nat { self.r@.len() }
    fn next(&mut self) -> (res: Option<T>)
        ensures res is Some <==> old(self).left() > 0, final(self).left() == (if old(self).left() > 0 { old(self).left() - 1 } else { 0int })
    { self.r.pop() }
}
#[verifier::external_body]
fn vx_drain_iter<T>(v: &mut Vec<T>) -> (res: VxDrain<T>)
    ensures final(v)@.len() == 0, res.left() == old(v)@.len()
{ unimplemented!() }
/// The arena: every reference to it lives in the live ranges, bundles and variables of its context.
#[verifier::external_body]
struct Bump { x: u8 }
#[verifier::external_body]
struct Arena { x: u8 }
impl Arena { uninterp spec fn clean(&self) -> bool; #[verifier::external_body] fn reset(&mut self) ensures final(self).clean() { unimplemented!() } }
impl Bump {
    uninterp spec fn clean(&self) -> bool;
    #[verifier::external_body]
    fn get_mut(&mut self) -> (res: Option<&mut Arena>)
        ensures res matches Some(a) && (final(a).clean() ==> final(self).clean())
    { unimplemented!() }
}
// values that the reset only drops
#[verifier::external_body] struct CFGInfo { x: u8 }
#[verifier::external_body] struct CFGInfoCtx { x: u8 }
#[verifier::external_body] struct IndexSet { x: u8 }
#[verifier::external_body] struct BlockparamOut { x: u8 }
#[verifier::external_body] struct BlockparamIn { x: u8 }
#[verifier::external_body] struct LiveRange { x: u8 }
#[verifier::external_body] struct LiveBundle { x: u8 }
#[verifier::external_body] struct SpillSet { x: u8 }
#[verifier::external_body] struct VRegData { x: u8 }
#[verifier::external_body] struct PrioQueueEntry { x: u8 }
#[verifier::external_body] struct MultiFixedRegFixup { x: u8 }
#[verifier::external_body] struct Edit { x: u8 }
#[verifier::external_body] struct Operand { x: u8 }
#[verifier::external_body] struct LiveBundleVec { x: u8 }
#[verifier::external_body] struct LiveRangeKey { x: u8 }
#[verifier::external_body] struct MachineEnv { x: u8 }
//@ item src/lib.rs struct ProgPoint
//@ item src/lib.rs struct Allocation
//@ item src/index.rs!define_index!Block struct Block
//@ item src/index.rs!define_index!LiveBundleIndex struct LiveBundleIndex
//@ item src/index.rs!define_index!LiveRangeIndex struct LiveRangeIndex
//@ item src/index.rs!define_index!SpillSetIndex struct SpillSetIndex
//@ item src/index.rs!define_index!VRegIndex struct VRegIndex
//@ item src/index.rs!define_index!SpillSlotIndex struct SpillSlotIndex
trait VxExt { fn preallocate(&mut self, cap: usize) -> (res: &mut Self); }
//@ fn src/lib.rs Vec::preallocate
//@ impl <T> VxExt for Vec<T>
//@ spec
    ensures res@.len() == 0, final(self)@ == final(res)@
//@ end
//@ item src/index.rs!define_index!LiveBundleIndex,LiveBundles,LiveBundle struct LiveBundles derive()
//@ fn src/index.rs!define_index!LiveBundleIndex,LiveBundles,LiveBundle LiveBundles::preallocate
//@ spec
    ensures final(self).storage@.len() == 0
//@ end
//@ item src/index.rs!define_index!LiveRangeIndex,LiveRanges,LiveRange struct LiveRanges derive()
//@ fn src/index.rs!define_index!LiveRangeIndex,LiveRanges,LiveRange LiveRanges::preallocate
//@ spec
    ensures final(self).storage@.len() == 0
//@ end
//@ item src/index.rs!define_index!SpillSetIndex,SpillSets,SpillSet struct SpillSets derive()
//@ fn src/index.rs!define_index!SpillSetIndex,SpillSets,SpillSet SpillSets::preallocate
//@ spec
    ensures final(self).storage@.len() == 0
//@ end
//@ item src/index.rs!define_index!VRegIndex,VRegs,VRegData struct VRegs derive()
//@ fn src/index.rs!define_index!VRegIndex,VRegs,VRegData VRegs::preallocate
//@ spec
    ensures final(self).storage@.len() == 0
//@ end
//@ item src/ion/data_structures.rs struct LiveRangeSet derive()
//@ item src/ion/data_structures.rs struct PRegData derive()
//@ item src/ion/data_structures.rs struct PrioQueue derive()
//@ item src/ion/data_structures.rs struct SpillSetRanges derive()
//@ item src/ion/data_structures.rs struct SpillSlotData derive()
//@ item src/ion/data_structures.rs struct SpillSlotList derive()
//@ item src/ion/data_structures.rs struct Stats derive()
//@ item src/lib.rs struct Output derive()
//@ item src/ion/data_structures.rs struct Ctx derive()
trait Function { fn num_insts(&self) -> (res: usize) ensures res <= 0x3fff_ffff; fn num_blocks(&self) -> usize; }
//@ item src/ion/data_structures.rs struct Env derive()
impl SpillSlotList {
    pub closed spec fn none(&self) -> bool { self.slots@.len() == 0 && self.probe_start == 0 }
    #[verifier::external_body]
    fn default() -> (res: SpillSlotList) ensures res.none() { unimplemented!() }
}
impl Stats {
    #[verifier::external_body]
    fn default() -> (res: Stats) ensures res.zero() { unimplemented!() }
    spec fn zero(&self) -> bool {
        self.livein_blocks == 0 && self.livein_iterations == 0 && self.initial_liverange_count == 0 && self.merged_bundle_count == 0 && self.process_bundle_count == 0
        && self.process_bundle_reg_probes_fixed == 0 && self.process_bundle_reg_success_fixed == 0 && self.evict_bundle_event == 0 && self.evict_bundle_count == 0
        && self.splits == 0 && self.splits_all == 0 && self.final_liverange_count == 0 && self.final_bundle_count == 0 && self.spill_bundle_count == 0
        && self.spill_bundle_reg_probes == 0 && self.spill_bundle_reg_success == 0 && self.blockparam_ins_count == 0 && self.blockparam_outs_count == 0
        && self.halfmoves_count == 0 && self.edits_count == 0
    }
}
spec fn half(c: Ctx, n: nat) -> bool {
    &&& c.pregs@.len() == n
    &&& c.liveins@.len() == 0 && c.liveouts@.len() == 0 && c.blockparam_ins@.len() == 0 && c.blockparam_outs@.len() == 0
    &&& c.ranges.storage@.len() == 0 && c.bundles.storage@.len() == 0 && c.spillsets.storage@.len() == 0 && c.vregs.storage@.len() == 0
    &&& forall|i: int| 0 <= i < c.pregs@.len() ==> free(#[trigger] c.pregs@[i])
}
/// All working state of a run is as in a new context (registers keep their table, with nothing allocated).
spec fn fresh(c: Ctx) -> bool {
    &&& half(c, c.pregs@.len())
    &&& c.allocation_queue.heap.none() && c.spilled_bundles@.len() == 0 && c.spillslots@.len() == 0
    &&& pool(c.scratch_spillset_pool@)
    &&& forall|i: int| 0 <= i < 3 ==> (#[trigger] c.slots_by_class@[i]).none()
    &&& forall|i: int| 0 <= i < 3 ==> (#[trigger] c.extra_spillslots_by_class@[i])@.len() == 0
    &&& forall|i: int| 0 <= i < 3 ==> #[trigger] c.preferred_victim_by_class@[i] .bits == 63
    &&& c.multi_fixed_reg_fixups@.len() == 0 && c.allocated_bundle_count == 0 && c.debug_annotations.none() && c.scratch_bump.clean()
    &&& c.output.allocs@.len() == 0 && c.output.inst_alloc_offsets@.len() == 0 && c.output.num_spillslots == 0 && c.output.debug_locations@.len() == 0
    &&& c.output.edits@.len() == 0 && c.output.stats.zero()
}
spec fn free(p: PRegData) -> bool { !p.is_stack && p.allocations.btree.none() }
spec fn pool(p: Seq<SpillSetRanges>) -> bool { forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).btree.none() }
//@ fn src/ion/mod.rs Env::new
//@ impl <'a, F: Function> Env<'a, F>
//@ spec
    requires pool(old(ctx).scratch_spillset_pool@)
    ensures fresh(*res.ctx), res.ctx.pregs@.len() == old(ctx).pregs@.len(), res.func == func, res.env == env
//@ loop 0
    invariant __i0 <= __s0@.len(), __s0@.len() == n0, forall|j: int| 0 <= j < __i0 ==> free(#[trigger] __s0@[j])
    decreases n0 - __i0
//@ entry
    let ghost n0 = ctx.pregs@.len();
//@ loop 1
    invariant pool(ctx.scratch_spillset_pool@), half(*ctx, n0), ctx.allocation_queue.heap.none(), ctx.spilled_bundles@.len() == 0, ctx.spillslots@.len() == 0, __nx1 is None ==> __it1.left() == 0
    decreases __it1.left() + (if __nx1 is Some { 1int } else { 0int })
//@ before ctx.scratch_bump
    proof { assert(ctx.ranges.storage@.len() == 0 && ctx.bundles.storage@.len() == 0 && ctx.vregs.storage@.len() == 0); }
//@ end
}
fn main() {}
