use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ type BTreeMap VxOrdMap
//@ type SmallVec Vec
//@ type LiveRangeList::new_in vx_new_in
//@ type core::mem::replace vx_replace
//@ deref self.bundles ctx
//@ deref self.ranges ctx
//@ deref self.spillsets ctx
//@ deref self.vregs ctx
//@ deref self.blockparam_outs ctx
//@ type u8::try_from vx_u8
//@ include ../../common/verus/bundles.rs
//@ item src/lib.rs enum InstPosition
//@ item src/index.rs!define_index!Inst struct Inst
//@ item src/lib.rs struct VReg
//@ item src/lib.rs struct Operand
//@ item src/lib.rs enum OperandConstraint
//@ item src/lib.rs enum OperandKind
/// An operand's parts as decoded from its bits (P01).
uninterp spec fn con(o: Operand) -> OperandConstraint;
uninterp spec fn kind_of(o: Operand) -> OperandKind;
uninterp spec fn var_of(o: Operand) -> VReg;
//@ fn src/lib.rs Operand::constraint external
//@ spec
    ensures res == con(self)
//@ end
//@ fn src/lib.rs Operand::kind external
//@ spec
    ensures res == kind_of(self)
//@ end
//@ fn src/lib.rs Operand::vreg external
//@ spec
    ensures res == var_of(self)
//@ end
//@ item src/ion/data_structures.rs struct Use
type UseList = Vec<Use>;
/// What the embedder provides.
trait Function: Sized {
    spec fn v_ni(&self) -> nat;
    spec fn v_ops(&self, i: Inst) -> Seq<Operand>;
    fn num_insts(&self) -> (r: usize) ensures r == self.v_ni();
    fn inst_operands(&self, insn: Inst) -> (r: &[Operand]) requires insn.0 < self.v_ni() ensures r@ == self.v_ops(insn);
}
//@ fn src/index.rs!define_index!Inst Inst::new
//@ spec
    ensures res.0 == i as u32
//@ end
/// The derived order of a struct of one number.
impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProgPoint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &ProgPoint) -> Option<core::cmp::Ordering> { Some(if self.bits < o.bits { core::cmp::Ordering::Less } else if self.bits == o.bits { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) }
}
impl PartialOrd for ProgPoint { #[verifier::external_body] fn partial_cmp(&self, o: &ProgPoint) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl ProgPoint {
    fn min(self, o: ProgPoint) -> (res: ProgPoint) ensures res.bits == (if self.bits < o.bits { self.bits } else { o.bits }) { if self.bits < o.bits { self } else { o } }
    fn max(self, o: ProgPoint) -> (res: ProgPoint) ensures res.bits == (if self.bits < o.bits { o.bits } else { self.bits }) { if self.bits < o.bits { o } else { self } }
}
//@ fn src/lib.rs ProgPoint::new
//@ entry
    let ghost x = inst.0;
    assert(x <= 0x7fff_ffffu32 ==> ((x << 1u32) | 0u32 == 2 * x) && ((x << 1u32) | 1u32 == 2 * x + 1)) by(bit_vector);
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0 + (if pos is After { 1int } else { 0 })
//@ end
//@ fn src/lib.rs ProgPoint::before
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0
//@ end
//@ fn src/lib.rs ProgPoint::inst
//@ spec
    requires self.bits <= 0x7fff_ffff
    ensures res.0 == self.bits / 2
//@ entry
    proof { let b = self.bits; assert(b <= 0x7fff_ffffu32 ==> (((b as i32) >> 1) as usize) as u32 == b / 2) by(bit_vector); }
//@ end
/// The order of ranges: one before the other.
impl vstd::std_specs::cmp::PartialEqSpecImpl for CodeRange {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &CodeRange) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for CodeRange {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &CodeRange) -> Option<core::cmp::Ordering> { Some(ord(key(*self), key(*o))) }
}
//@ fn src/ion/data_structures.rs CodeRange::partial_cmp
//@ impl PartialOrd for CodeRange
//@ end
//@ fn src/ion/data_structures.rs CodeRange::cmp
//@ spec
    ensures res == ord(key(*self), key(*other))
//@ end
//@ fn src/ion/data_structures.rs CodeRange::join
//@ spec
    ensures res.from.bits == (if self.from.bits < other.from.bits { self.from.bits } else { other.from.bits }), res.to.bits == (if self.to.bits < other.to.bits { other.to.bits } else { self.to.bits })
//@ end
//@ item src/lib.rs aconst VReg::MAX_BITS
//@ item src/lib.rs aconst VReg::MAX exec Self::MAX == 0x3fff_ffff | assert((1usize << 30usize) == 0x4000_0000usize) by(bit_vector);
spec fn class_bits(c: RegClass) -> u32 { match c { RegClass::Int => 0u32, RegClass::Float => 1u32, RegClass::Vector => 2u32 } }
//@ fn src/lib.rs VReg::new
//@ spec
    requires virt_reg <= 0x3fff_ffff
    ensures (res.bits & 3u32) == class_bits(class)
//@ entry
    proof { let v = virt_reg as u32; assert(((v << 2u32) | 0u32) & 3u32 == 0u32) by(bit_vector); assert(((v << 2u32) | 1u32) & 3u32 == 1u32) by(bit_vector); assert(((v << 2u32) | 2u32) & 3u32 == 2u32) by(bit_vector); }
//@ end
impl VReg { spec fn num(self) -> u32 { self.bits >> 2u32 } }
//@ fn src/lib.rs VReg::vreg
//@ spec
    ensures res == self.num()
//@ entry
    proof { let b = self.bits; assert((b >> 2usize) == (b >> 2u32)) by(bit_vector); }
//@ end
//@ fn src/lib.rs VReg::class
//@ spec
    requires (self.bits & 3u32) != 3u32
    ensures class_bits(res) == (self.bits & 3u32)
//@ entry
    proof { let b = self.bits; assert((b & 3u32) <= 3u32) by(bit_vector); }
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ item src/index.rs!define_index!SpillSlotIndex struct SpillSlotIndex
//@ item src/index.rs!define_index!Block struct Block
//@ item src/ion/data_structures.rs struct VRegData derive()
//@ item src/ion/data_structures.rs struct SpillSet derive()
/// Variables are named by their index or by themselves.
trait VxIx: Sized { spec fn ix(self) -> nat; fn at(self) -> (res: usize) ensures res == self.ix(); }
impl VxIx for VRegIndex { spec fn ix(self) -> nat { self.0 as nat } fn at(self) -> usize { self.0 as usize } }
impl VxIx for VReg { spec fn ix(self) -> nat { self.num() as nat } fn at(self) -> usize { self.vreg() } }
struct VRegs { storage: Vec<VRegData> }
impl VRegs {
    spec fn view(&self) -> Seq<VRegData> { self.storage@ }
    fn len(&self) -> (res: usize) ensures res == self@.len() { self.storage.len() }
    fn vx_at<I: VxIx>(&self, i: I) -> (res: &VRegData) requires i.ix() < self@.len() ensures *res == self@[i.ix() as int] { &self.storage[i.at()] }
}
struct SpillSets { storage: Vec<SpillSet> }
impl SpillSets {
    spec fn view(&self) -> Seq<SpillSet> { self.storage@ }
    fn vx_at(&self, i: SpillSetIndex) -> (res: &SpillSet) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
    fn vx_at_mut(&mut self, i: SpillSetIndex) -> (res: &mut SpillSet) requires i.0 < old(self)@.len()
        ensures *res == old(self)@[i.0 as int], final(self)@ == old(self)@.update(i.0 as int, *final(res)) { &mut self.storage[i.0 as usize] }
}
impl LiveRanges {
    fn vx_at_mut(&mut self, i: LiveRangeIndex) -> (res: &mut LiveRange) requires i.0 < old(self)@.len()
        ensures *res == old(self)@[i.0 as int], final(self)@ == old(self)@.update(i.0 as int, *final(res)) { &mut self.storage[i.0 as usize] }
}
struct Bump { u: u64 }
impl Bump { fn clone(&self) -> Bump { Bump { u: 0 } } }
#[verifier::external_body]
fn vx_u8(x: usize) -> (res: core::result::Result<u8, u64>) ensures x <= 255 ==> res == core::result::Result::<u8, u64>::Ok(x as u8) { unimplemented!() }
impl LiveBundles { fn push(&mut self, x: LiveBundle) -> (res: LiveBundleIndex) requires old(self)@.len() < u32::MAX ensures final(self)@ == old(self)@.push(x), res.0 == old(self)@.len() { let n = self.storage.len(); self.storage.push(x); LiveBundleIndex(n as u32) } }
impl SpillSets { fn push(&mut self, x: SpillSet) -> (res: SpillSetIndex) requires old(self)@.len() < u32::MAX ensures final(self)@ == old(self)@.push(x), res.0 == old(self)@.len() { let n = self.storage.len(); self.storage.push(x); SpillSetIndex(n as u32) } }
//@ fn src/index.rs!define_index!SpillSetIndex SpillSetIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!SpillSlotIndex SpillSlotIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!LiveBundleIndex LiveBundleIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/ion/data_structures.rs LiveBundles::add
//@ spec
    requires old(self)@.len() < u32::MAX
    ensures res.0 == old(self)@.len(), fresh(old(self)@, final(self)@)
//@ entry
    proof { assert((0u32 >> 29u32) & 7u32 == 0u32) by(bit_vector); }
//@ end
/// One more bundle: empty, in no register, without properties.
spec fn fresh(a: Seq<LiveBundle>, b: Seq<LiveBundle>) -> bool {
    let x = b[a.len() as int];
    b =~= a.push(x) && x.ranges@.len() == 0 && x.allocation.k() == 0 && x.spill_weight_and_props == 0 && x.limit is None
}
//@ item src/ion/data_structures.rs struct BlockparamOut derive(Clone,Copy)
fn vx_new_in(b: Bump) -> (res: LiveRangeList) ensures res@.len() == 0 { Vec::new() }
#[verifier::external_body]
fn vx_replace<T>(d: &mut T, s: T) -> (res: T) ensures res == *old(d), *final(d) == s { core::mem::replace(d, s) }
struct VxString { }
fn vx_format() -> (res: VxString) { VxString { } }
spec fn flag(b: LiveBundle, m: u32) -> bool { b.spill_weight_and_props & m != 0 }
/// z is marked as fixed, having a fixed definition, or on the stack where x or y is.
spec fn marked(x: LiveBundle, y: LiveBundle, z: LiveBundle) -> bool {
    &&& flag(z, 0x40000000u32) == (flag(x, 0x40000000u32) || flag(y, 0x40000000u32))
    &&& flag(z, 0x20000000u32) == (flag(x, 0x20000000u32) || flag(y, 0x20000000u32))
    &&& flag(z, 0x10000000u32) == (flag(x, 0x10000000u32) || flag(y, 0x10000000u32))
}
proof fn marking()
    ensures forall|w: u32| #![auto] ((w | 0x40000000u32) & 0x40000000u32 != 0) && ((w | 0x40000000u32) & 0x20000000u32 == w & 0x20000000u32) && ((w | 0x40000000u32) & 0x10000000u32 == w & 0x10000000u32),
        forall|w: u32| #![auto] ((w | 0x20000000u32) & 0x20000000u32 != 0) && ((w | 0x20000000u32) & 0x40000000u32 == w & 0x40000000u32) && ((w | 0x20000000u32) & 0x10000000u32 == w & 0x10000000u32),
        forall|w: u32| #![auto] ((w | 0x10000000u32) & 0x10000000u32 != 0) && ((w | 0x10000000u32) & 0x20000000u32 == w & 0x20000000u32) && ((w | 0x10000000u32) & 0x40000000u32 == w & 0x40000000u32)
{
    assert forall|w: u32| #![auto] ((w | 0x40000000u32) & 0x40000000u32 != 0) && ((w | 0x40000000u32) & 0x20000000u32 == w & 0x20000000u32) && ((w | 0x40000000u32) & 0x10000000u32 == w & 0x10000000u32) by { assert(((w | 0x40000000u32) & 0x40000000u32 != 0) && ((w | 0x40000000u32) & 0x20000000u32 == w & 0x20000000u32) && ((w | 0x40000000u32) & 0x10000000u32 == w & 0x10000000u32)) by(bit_vector); }
    assert forall|w: u32| #![auto] ((w | 0x20000000u32) & 0x20000000u32 != 0) && ((w | 0x20000000u32) & 0x40000000u32 == w & 0x40000000u32) && ((w | 0x20000000u32) & 0x10000000u32 == w & 0x10000000u32) by { assert(((w | 0x20000000u32) & 0x20000000u32 != 0) && ((w | 0x20000000u32) & 0x40000000u32 == w & 0x40000000u32) && ((w | 0x20000000u32) & 0x10000000u32 == w & 0x10000000u32)) by(bit_vector); }
    assert forall|w: u32| #![auto] ((w | 0x10000000u32) & 0x10000000u32 != 0) && ((w | 0x10000000u32) & 0x20000000u32 == w & 0x20000000u32) && ((w | 0x10000000u32) & 0x40000000u32 == w & 0x40000000u32) by { assert(((w | 0x10000000u32) & 0x10000000u32 != 0) && ((w | 0x10000000u32) & 0x20000000u32 == w & 0x20000000u32) && ((w | 0x10000000u32) & 0x40000000u32 == w & 0x40000000u32)) by(bit_vector); }
}
//@ fn src/ion/data_structures.rs LiveBundle::cached_fixed
//@ spec
    ensures res == flag(*self, 0x40000000u32)
//@ entry
    proof { assert((1u32 << 30u32) == 0x40000000u32) by(bit_vector); }
//@ end
//@ fn src/ion/data_structures.rs LiveBundle::cached_fixed_def
//@ spec
    ensures res == flag(*self, 0x20000000u32)
//@ entry
    proof { assert((1u32 << 29u32) == 0x20000000u32) by(bit_vector); }
//@ end
//@ fn src/ion/data_structures.rs LiveBundle::cached_stack
//@ spec
    ensures res == flag(*self, 0x10000000u32)
//@ entry
    proof { assert((1u32 << 28u32) == 0x10000000u32) by(bit_vector); }
//@ end
//@ fn src/ion/data_structures.rs LiveBundle::set_cached_fixed
//@ spec
    ensures *final(self) == (LiveBundle { spill_weight_and_props: (old(self).spill_weight_and_props | 0x40000000u32) as u32, ..*old(self) })
//@ entry
    proof { assert((1u32 << 30u32) == 0x40000000u32) by(bit_vector); }
//@ end
//@ fn src/ion/data_structures.rs LiveBundle::set_cached_fixed_def
//@ spec
    ensures *final(self) == (LiveBundle { spill_weight_and_props: (old(self).spill_weight_and_props | 0x20000000u32) as u32, ..*old(self) })
//@ entry
    proof { assert((1u32 << 29u32) == 0x20000000u32) by(bit_vector); }
//@ end
//@ fn src/ion/data_structures.rs LiveBundle::set_cached_stack
//@ spec
    ensures *final(self) == (LiveBundle { spill_weight_and_props: (old(self).spill_weight_and_props | 0x10000000u32) as u32, ..*old(self) })
//@ entry
    proof { assert((1u32 << 28u32) == 0x10000000u32) by(bit_vector); }
//@ end
/// The parts of Ctx and Env that are used here (all others dropped; so are the annotations).
struct Ctx { pregs: Vec<PRegData>, ranges: LiveRanges, bundles: LiveBundles, spillsets: SpillSets, vregs: VRegs, blockparam_outs: Vec<BlockparamOut>, scratch_bump: Bump }
impl Ctx { fn bump(&self) -> Bump { Bump { u: 0 } } }
struct Env<'a, F: Function> { func: &'a F, ctx: Ctx, annotations_enabled: bool }
impl<'a, F: Function> Env<'a, F> {
    fn annotate(&mut self, p: ProgPoint, s: VxString) ensures *final(self) == *old(self) { }
    /// The two bundles' requirements have a location in common (P10).
    uninterp spec fn agree(self, a: LiveBundleIndex, b: LiveBundleIndex) -> bool;
    #[verifier::external_body]
    fn merge_bundle_requirements(&self, a: LiveBundleIndex, b: LiveBundleIndex) -> (res: core::result::Result<u64, u64>) ensures res is Ok <==> self.agree(a, b) { unimplemented!() }
}
spec fn smaller(a: Option<u8>, b: Option<u8>) -> Option<u8> { match (a, b) { (Some(x), Some(y)) => Some(if x < y { x } else { y }), (Some(x), None) => a, _ => b } }
//@ fn src/ion/merge.rs Env::merge_bundle_properties
//@ at ctx.bundles
//@ mut set_cached_fixed
//@ mut set_cached_fixed_def
//@ mut set_cached_stack
//@ spec
    requires from.0 < old(self).ctx.bundles@.len(), to.0 < old(self).ctx.bundles@.len(), from != to
    ensures
        *final(self) == (Env { ctx: Ctx { bundles: final(self).ctx.bundles, ..old(self).ctx }, ..*old(self) }),
        final(self).ctx.bundles@ == old(self).ctx.bundles@.update(to.0 as int, LiveBundle { spill_weight_and_props: final(self).ctx.bundles@[to.0 as int].spill_weight_and_props,
            limit: smaller(old(self).ctx.bundles@[from.0 as int].limit, old(self).ctx.bundles@[to.0 as int].limit), ..old(self).ctx.bundles@[to.0 as int] }),
        marked(old(self).ctx.bundles@[from.0 as int], old(self).ctx.bundles@[to.0 as int], final(self).ctx.bundles@[to.0 as int]),
//@ entry
    proof { marking(); }
//@ end

/// slice::sort_unstable_by_key: a permutation into key order.
spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
#[verifier::opaque]
spec fn ordered_by(keys: Seq<ProgPoint>, a: Ranges, b: Ranges) -> bool {
    b.len() == a.len() && exists|p: Seq<int>| is_perm(p, a.len() as int) && #[trigger] by(p, b, a) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]].bits <= keys[#[trigger] p[j]].bits)
}
#[verifier::external_body]
fn vx_sort_unstable_by_key(keys: Vec<ProgPoint>, v: &mut LiveRangeList)
    requires keys@.len() == old(v)@.len()
    ensures ordered_by(keys@, old(v)@, final(v)@)
{ }
/// slice::binary_search.
#[verifier::opaque]
spec fn in_order(keys: Seq<ProgPoint>) -> bool { forall|i: int, j: int| 0 <= i < j < keys.len() ==> (#[trigger] keys[i]).bits <= (#[trigger] keys[j]).bits }
#[verifier::opaque]
spec fn searched(keys: Seq<ProgPoint>, key: ProgPoint, res: core::result::Result<usize, usize>) -> bool {
    match res {
        Ok(i) => keys[i as int] == key,
        Err(i) => (forall|j: int| 0 <= j < i ==> (#[trigger] keys[j]).bits < key.bits) && (forall|j: int| i <= j < keys.len() ==> (#[trigger] keys[j]).bits > key.bits) }
}
#[verifier::external_body]
fn vx_binary_search(keys: &Vec<ProgPoint>, key: &ProgPoint) -> (res: core::result::Result<usize, usize>)
    requires in_order(keys@)
    ensures searched(keys@, *key, res), match res { Ok(i) => i < keys@.len(), Err(i) => i <= keys@.len() }
{ unimplemented!() }
spec fn starts(l: Ranges) -> Seq<ProgPoint> { Seq::new(l.len(), |i: int| l[i].range.from) }
proof fn starts_ordered(l: Ranges)
    requires tidy(l)
    ensures in_order(starts(l))
{
    reveal(in_order);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] starts(l)[i]).bits <= (#[trigger] starts(l)[j]).bits by { assert(l[i].range.to.bits <= l[j].range.from.bits); assert(proper(span(l[i]))); }
}
/// A bundle's ranges are in order, are live ranges, and are of variables of the class of its spill set.
spec fn typed<'a, F: Function>(e: Env<'a, F>, b: int) -> bool {
    let l = e.ctx.bundles@[b].ranges@; let s = e.ctx.bundles@[b].spillset.0 as int;
    &&& tidy(l) && s < e.ctx.spillsets@.len() && e.ctx.bundles@[b].allocation.k() <= 2
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).index.0 < e.ctx.ranges@.len() && l[i].range.to.bits <= 0x7fff_ffff && of_class(e, l[i].index.0 as int, e.ctx.spillsets@[s].class)
}
spec fn of_class<'a, F: Function>(e: Env<'a, F>, x: int, c: RegClass) -> bool { let v = e.ctx.ranges@[x].vreg.0 as int; v < e.ctx.vregs@.len() && e.ctx.vregs@[v].class == Some(c) }
/// The spill set's range covers the bundle's ranges.
spec fn covers(s: SpillSet, l: Ranges) -> bool { forall|i: int| 0 <= i < l.len() ==> s.range.from.bits <= (#[trigger] l[i]).range.from.bits && l[i].range.to.bits <= s.range.to.bits }
spec fn clear(a: Ranges, b: Ranges) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> !over(span(#[trigger] a[i]), span(#[trigger] b[j])) }
/// A range of a bundle with a fixed definition counts from the start of its first instruction.
spec fn wide(b: LiveBundle, e: LiveRangeListEntry) -> LiveRangeKey { LiveRangeKey { from: if flag(b, 0x20000000u32) { (e.range.from.bits / 2 * 2) as u32 } else { e.range.from.bits }, to: e.range.to.bits } }
spec fn wide_apart(x: LiveBundle, y: LiveBundle, i: int, j: int) -> bool { !over(wide(x, x.ranges@[i]), wide(y, y.ranges@[j])) }
spec fn wide_clear(x: LiveBundle, y: LiveBundle) -> bool { forall|i: int, j: int| 0 <= i < x.ranges@.len() && 0 <= j < y.ranges@.len() ==> #[trigger] wide_apart(x, y, i, j) }
/// Neither fixed, nor limited, nor on the stack.
spec fn bare(b: LiveBundle) -> bool { b.limit is None && !flag(b, 0x40000000u32) && !flag(b, 0x10000000u32) }
/// n consists of what a and b consist of.
spec fn shuffled(n: Ranges, a: Ranges, b: Ranges) -> bool { exists|p: Seq<int>| is_perm(p, (a + b).len() as int) && #[trigger] by(p, n, a + b) }
spec fn by(p: Seq<int>, n: Ranges, o: Ranges) -> bool { n.len() == o.len() && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == o[p[i]] }
spec fn mentions(l: Ranges, n: int, x: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] l[k]).index.0 == x }
/// The first n ranges of l belong to bundle t now.
spec fn moved(a: Seq<LiveRange>, b: Seq<LiveRange>, l: Ranges, n: int, t: LiveBundleIndex) -> bool {
    &&& a.len() == b.len()
    &&& forall|x: int| 0 <= x < a.len() ==> #[trigger] b[x] == (if mentions(l, n, x) { LiveRange { bundle: t, ..a[x] } } else { a[x] })
}
/// All of f's ranges are t's.
spec fn merged<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex) -> bool {
    let (x, y) = (a.ctx.bundles@[f.0 as int], a.ctx.bundles@[t.0 as int]); let (u, v) = (b.ctx.bundles@[f.0 as int], b.ctx.bundles@[t.0 as int]);
    &&& b == (Env { ctx: Ctx { ranges: b.ctx.ranges, bundles: b.ctx.bundles, spillsets: b.ctx.spillsets, ..a.ctx }, ..a })
    &&& b.ctx.bundles@ == a.ctx.bundles@.update(f.0 as int, u).update(t.0 as int, v)
    &&& u == (LiveBundle { ranges: u.ranges, ..x }) && u.ranges@.len() == 0
    &&& v == (LiveBundle { ranges: v.ranges, spill_weight_and_props: v.spill_weight_and_props, limit: smaller(x.limit, y.limit), ..y })
    &&& marked(x, y, v)
    &&& shuffled(v.ranges@, y.ranges@, x.ranges@) && tidy(v.ranges@)
    &&& moved(a.ctx.ranges@, b.ctx.ranges@, x.ranges@, x.ranges@.len() as int, t)
    &&& y.ranges@.len() > 0 ==> b.ctx.spillsets@ == a.ctx.spillsets@.update(y.spillset.0 as int, SpillSet { range: b.ctx.spillsets@[y.spillset.0 as int].range, ..a.ctx.spillsets@[y.spillset.0 as int] })
    &&& y.ranges@.len() > 0 && covers(a.ctx.spillsets@[x.spillset.0 as int], x.ranges@) && covers(a.ctx.spillsets@[y.spillset.0 as int], y.ranges@) ==> covers(b.ctx.spillsets@[y.spillset.0 as int], v.ranges@)
}
/// In order by start and disjoint: one after the other.
proof fn lined(n: Ranges, a: Ranges, b: Ranges, p: Seq<int>)
    requires tidy(a), tidy(b), clear(b, a), is_perm(p, (a + b).len() as int), by(p, n, a + b), forall|i: int, j: int| 0 <= i < j < n.len() ==> (#[trigger] n[i]).range.from.bits <= (#[trigger] n[j]).range.from.bits
    ensures tidy(n)
{
    let c = a + b;
    assert forall|i: int| 0 <= i < n.len() implies proper(span(#[trigger] n[i])) by { let k = p[i]; if k < a.len() { assert(c[k] == a[k]); } else { assert(c[k] == b[k - a.len()]); } }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).range.to.bits <= (#[trigger] n[j]).range.from.bits by {
        let (k, m) = (p[i], p[j]);
        assert(k != m); assert(n[i] == c[k] && n[j] == c[m]);
        assert(proper(span(n[i])) && proper(span(n[j])));
        if k < a.len() { assert(c[k] == a[k]); } else { assert(c[k] == b[k - a.len()]); }
        if m < a.len() { assert(c[m] == a[m]); } else { assert(c[m] == b[m - a.len()]); }
        assert(!over(span(n[i]), span(n[j])));
    }
}
proof fn alone(lf: Ranges, lt: Ranges)
    requires lt.len() == 0
    ensures shuffled(lf, lt, lf)
{
    let p = Seq::new(lf.len(), |i: int| i);
    assert(lt + lf =~= lf);
    assert forall|k: int| 0 <= k < lf.len() implies #[trigger] p.contains(k) by { assert(p[k] == k); }
    assert(is_perm(p, (lt + lf).len() as int) && by(p, lf, lt + lf));
}
/// One more put at its place.
proof fn placed(n: Ranges, a: Ranges, x: LiveRangeListEntry, k: int) -> (p: Seq<int>)
    requires 0 <= k <= a.len(), n == a.insert(k, x)
    ensures is_perm(p, (a + seq![x]).len() as int), by(p, n, a + seq![x])
{
    let p = Seq::new(n.len(), |i: int| if i < k { i } else if i == k { a.len() as int } else { i - 1 });
    let c = a + seq![x];
    assert forall|m: int| 0 <= m < c.len() implies #[trigger] p.contains(m) by { let i = if m < k { m } else if m == a.len() { k } else { m + 1 }; assert(p[i] == m); }
    assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] == c[p[i]] by {}
    p
}
spec fn found_at(l: Ranges, k: ProgPoint, pos: usize) -> bool { searched(starts(l), k, Ok(pos)) && pos < l.len() || searched(starts(l), k, Err(pos)) && pos <= l.len() }
proof fn sought(n: Ranges, lt: Ranges, lf: Ranges, pos: usize)
    requires tidy(lt), tidy(lf), clear(lf, lt), lf.len() == 1, found_at(lt, lf[0].range.from, pos), n == lt.insert(pos as int, lf[0])
    ensures tidy(n), shuffled(n, lt, lf)
{
    reveal(searched);
    assert(lf =~= seq![lf[0]]);
    let p = placed(n, lt, lf[0], pos as int);
    let k = starts(lt);
    assert(proper(span(lf[0])));
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).range.from.bits <= (#[trigger] n[j]).range.from.bits by {
        let (u, v) = (if i < pos { i } else { i - 1 }, if j < pos { j } else { j - 1 });
        if i != pos && j != pos { assert(n[i] == lt[u] && n[j] == lt[v]); assert(lt[u].range.to.bits <= lt[v].range.from.bits); assert(proper(span(lt[u]))); }
        else if i == pos { assert(n[j] == lt[v]); assert(k[v] == lt[v].range.from); if searched(k, lf[0].range.from, Ok(pos)) && pos < lt.len() { assert(k[pos as int] == lt[pos as int].range.from); assert(proper(span(lt[pos as int]))); assert(over(span(lf[0]), span(lt[pos as int]))); } }
        else { assert(n[i] == lt[u]); assert(k[u] == lt[u].range.from); if searched(k, lf[0].range.from, Ok(pos)) && pos < lt.len() { assert(k[pos as int] == lt[pos as int].range.from); assert(proper(span(lt[pos as int]))); assert(over(span(lf[0]), span(lt[pos as int]))); } }
    }
    lined(n, lt, lf, p);
}
proof fn sorted(n: Ranges, lt: Ranges, lf: Ranges)
    requires tidy(lt), tidy(lf), clear(lf, lt), ordered_by(starts(lt + lf), lt + lf, n)
    ensures tidy(n), shuffled(n, lt, lf)
{
    reveal(ordered_by);
    let c = lt + lf; let k = starts(c);
    let p = choose|p: Seq<int>| is_perm(p, c.len() as int) && #[trigger] by(p, n, c) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> k[#[trigger] p[i]].bits <= k[#[trigger] p[j]].bits);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).range.from.bits <= (#[trigger] n[j]).range.from.bits by { assert(n[i] == c[p[i]] && n[j] == c[p[j]]); assert(k[p[i]].bits <= k[p[j]].bits); }
    lined(n, lt, lf, p);
}
proof fn shuffled_within(n: Ranges, a: Ranges, b: Ranges)
    requires shuffled(n, a, b)
    ensures forall|i: int| 0 <= i < n.len() ==> a.contains(#[trigger] n[i]) || b.contains(n[i]), n.len() == a.len() + b.len()
{
    let c = a + b; let p = choose|p: Seq<int>| is_perm(p, c.len() as int) && #[trigger] by(p, n, c);
    assert forall|i: int| 0 <= i < n.len() implies a.contains(#[trigger] n[i]) || b.contains(n[i]) by { let k = p[i]; if k < a.len() { assert(c[k] == a[k]); } else { assert(c[k] == b[k - a.len()]); } }
}
proof fn moved_more(a: Seq<LiveRange>, o: Seq<LiveRange>, b: Seq<LiveRange>, l: Ranges, n: int, t: LiveBundleIndex)
    requires moved(a, o, l, n, t), 0 <= n < l.len(), l[n].index.0 < a.len(), b == o.update(l[n].index.0 as int, LiveRange { bundle: t, ..o[l[n].index.0 as int] })
    ensures moved(a, b, l, n + 1, t)
{
    assert forall|x: int| 0 <= x < a.len() implies #[trigger] b[x] == (if mentions(l, n + 1, x) { LiveRange { bundle: t, ..a[x] } } else { a[x] }) by {
        assert(o[x] == (if mentions(l, n, x) { LiveRange { bundle: t, ..a[x] } } else { a[x] }));
        if mentions(l, n, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] l[k]).index.0 == x; assert(l[k].index.0 == x); }
        else if mentions(l, n + 1, x) { let k = choose|k: int| 0 <= k < n + 1 && (#[trigger] l[k]).index.0 == x; assert(k == n); }
        if x == l[n].index.0 { assert(mentions(l, n + 1, x)); }
    }
}
/// A live range of another bundle is not moved.
proof fn stayed<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex, x: int)
    requires assigned(a), merged(a, b, f, t), f.0 < a.ctx.bundles@.len(), 0 <= x < a.ctx.ranges@.len(), a.ctx.ranges@[x].bundle != f
    ensures b.ctx.ranges@[x] == a.ctx.ranges@[x]
{
    let l = a.list(f);
    if mentions(l, l.len() as int, x) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).index.0 == x; assert(owns(a, f.0 as int, k)); }
}
/// Merging keeps the bookkeeping.
proof fn merge<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex)
    requires assigned(a), merged(a, b, f, t), f != t, f.0 < a.ctx.bundles@.len(), t.0 < a.ctx.bundles@.len(), a.ctx.bundles@[f.0 as int].allocation.k() == 0, a.ctx.bundles@[t.0 as int].allocation.k() == 0
    ensures assigned(b)
{
    let (lf, lt, n) = (a.list(f), a.list(t), b.list(t));
    shuffled_within(n, lt, lf);
    assert forall|r: int| 0 <= r < 256 implies b.map(r) == a.map(r) by {}
    assert forall|x: int| 0 <= x < a.ctx.ranges@.len() implies #[trigger] b.ctx.ranges@[x].bundle == a.ctx.ranges@[x].bundle || b.ctx.ranges@[x].bundle == t by {}
    assert(b.wf()) by {
        assert forall|r: int, k: LiveRangeKey| 0 <= r < 256 && #[trigger] b.ctx.pregs@[r].allocations.btree@.contains_key(k) implies b.ctx.pregs@[r].allocations.btree@[k].0 == u32::MAX ||
            b.ctx.pregs@[r].allocations.btree@[k].0 < b.ctx.ranges@.len() && b.ctx.ranges@[b.ctx.pregs@[r].allocations.btree@[k].0 as int].bundle.0 < b.ctx.bundles@.len() by {
            assert(a.ctx.pregs@[r].allocations.btree@.contains_key(k));
        }
    }
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() && y != f.0 && y != t.0 implies #[trigger] b.ctx.bundles@[y] == a.ctx.bundles@[y] by {}
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() implies tidy((#[trigger] b.ctx.bundles@[y]).ranges@) by { if y != f.0 && y != t.0 { assert(tidy(a.ctx.bundles@[y].ranges@)); } }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() implies #[trigger] owns(b, y, i) by {
        if y == t.0 {
            if lf.contains(n[i]) { let k = choose|k: int| 0 <= k < lf.len() && lf[k] == n[i]; assert(owns(a, f.0 as int, k)); assert(mentions(lf, lf.len() as int, n[i].index.0 as int)) by { assert(lf[k].index.0 == n[i].index.0); } }
            else { let k = choose|k: int| 0 <= k < lt.len() && lt[k] == n[i]; assert(owns(a, t.0 as int, k)); stayed(a, b, f, t, n[i].index.0 as int); }
        } else if y != f.0 { assert(owns(a, y, i)); stayed(a, b, f, t, a.ctx.bundles@[y].ranges@[i].index.0 as int); }
    }
    assert forall|y: int, i: int| 0 <= y < b.ctx.bundles@.len() && 0 <= i < b.ctx.bundles@[y].ranges@.len() && b.ctx.bundles@[y].allocation.k() == 1 implies #[trigger] stored(b, y, i) by { assert(stored(a, y, i)); }
    assert forall|r: int, k: LiveRangeKey| 0 <= r < 256 && b.map(r)@.contains_key(k) && !b.fixed(r, k) implies #[trigger] backed(b, r, k) by {
        assert(backed(a, r, k)); let o = a.owner(r, k);
        assert(a.ctx.pregs@[r].allocations.btree@.contains_key(k));
        regof_reg(PReg { bits: r as u8 });
        stayed(a, b, f, t, a.map(r)@[k].0 as int);
        assert(b.list(o) == a.list(o));
    }
}
/// All bundles stay of one class.
proof fn merge_typed<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex, y: int)
    requires merged(a, b, f, t), f != t, f.0 < a.ctx.bundles@.len(), t.0 < a.ctx.bundles@.len(), typed(a, f.0 as int), typed(a, t.0 as int), 0 <= y < a.ctx.bundles@.len(), typed(a, y), a.list(t).len() > 0,
        a.ctx.spillsets@[a.ctx.bundles@[f.0 as int].spillset.0 as int].class == a.ctx.spillsets@[a.ctx.bundles@[t.0 as int].spillset.0 as int].class
    ensures typed(b, y)
{
    let (lf, lt, n) = (a.list(f), a.list(t), b.list(t));
    shuffled_within(n, lt, lf);
    let s = a.ctx.bundles@[y].spillset.0 as int; let c = a.ctx.spillsets@[s].class; let l = b.ctx.bundles@[y].ranges@;
    assert(b.ctx.bundles@[y].spillset == a.ctx.bundles@[y].spillset && b.ctx.spillsets@[s].class == c);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).index.0 < b.ctx.ranges@.len() && l[i].range.to.bits <= 0x7fff_ffff && of_class(b, l[i].index.0 as int, c) by {
        if y == t.0 {
            if lf.contains(n[i]) { let k = choose|k: int| 0 <= k < lf.len() && lf[k] == n[i]; assert(of_class(a, lf[k].index.0 as int, c)); }
            else { let k = choose|k: int| 0 <= k < lt.len() && lt[k] == n[i]; assert(of_class(a, lt[k].index.0 as int, c)); }
        } else { assert(a.ctx.bundles@[y].ranges@[i] == l[i]); assert(of_class(a, l[i].index.0 as int, c)); }
    }
}
proof fn conclude<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex)
    requires f != t, f.0 < a.ctx.bundles@.len(), t.0 < a.ctx.bundles@.len(), typed(a, f.0 as int), typed(a, t.0 as int), a.ctx.bundles@[f.0 as int].allocation.k() == 0, a.ctx.bundles@[t.0 as int].allocation.k() == 0,
        a.ctx.spillsets@[a.ctx.bundles@[f.0 as int].spillset.0 as int].class == a.ctx.spillsets@[a.ctx.bundles@[t.0 as int].spillset.0 as int].class,
        b == (Env { ctx: Ctx { ranges: b.ctx.ranges, bundles: b.ctx.bundles, spillsets: b.ctx.spillsets, ..a.ctx }, ..a }),
        b.ctx.bundles@.len() == a.ctx.bundles@.len(), forall|y: int| 0 <= y < a.ctx.bundles@.len() && y != f.0 && y != t.0 ==> b.ctx.bundles@[y] == a.ctx.bundles@[y],
        b.ctx.bundles@[f.0 as int] == (LiveBundle { ranges: b.ctx.bundles@[f.0 as int].ranges, ..a.ctx.bundles@[f.0 as int] }), b.list(f).len() == 0,
        b.ctx.bundles@[t.0 as int] == (LiveBundle { ranges: b.ctx.bundles@[t.0 as int].ranges, spill_weight_and_props: b.ctx.bundles@[t.0 as int].spill_weight_and_props,
            limit: smaller(a.ctx.bundles@[f.0 as int].limit, a.ctx.bundles@[t.0 as int].limit), ..a.ctx.bundles@[t.0 as int] }),
        marked(a.ctx.bundles@[f.0 as int], a.ctx.bundles@[t.0 as int], b.ctx.bundles@[t.0 as int]),
        shuffled(b.list(t), a.list(t), a.list(f)), tidy(b.list(t)), moved(a.ctx.ranges@, b.ctx.ranges@, a.list(f), a.list(f).len() as int, t),
        a.list(t).len() > 0 ==> widened(a, b, f, t),
    ensures merged(a, b, f, t), assigned(a) ==> assigned(b), a.list(t).len() > 0 ==> forall|y: int| 0 <= y < a.ctx.bundles@.len() && #[trigger] typed(a, y) ==> typed(b, y)
{
    let (x, y) = (a.ctx.bundles@[f.0 as int], a.ctx.bundles@[t.0 as int]); let (u, v) = (b.ctx.bundles@[f.0 as int], b.ctx.bundles@[t.0 as int]); let s = y.spillset.0 as int;
    assert(b.ctx.bundles@ =~= a.ctx.bundles@.update(f.0 as int, u).update(t.0 as int, v));
    if y.ranges@.len() > 0 {
        assert(b.ctx.spillsets@ =~= a.ctx.spillsets@.update(s, SpillSet { range: b.ctx.spillsets@[s].range, ..a.ctx.spillsets@[s] }));
        if covers(a.ctx.spillsets@[x.spillset.0 as int], x.ranges@) && covers(a.ctx.spillsets@[s], y.ranges@) { shuffled_within(v.ranges@, y.ranges@, x.ranges@); }
    }
    if assigned(a) { merge(a, b, f, t); }
    if y.ranges@.len() > 0 { assert forall|z: int| 0 <= z < a.ctx.bundles@.len() && #[trigger] typed(a, z) implies typed(b, z) by { merge_typed(a, b, f, t, z); } }
}
/// t's spill set covers what f's covers, too.
spec fn widened<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex) -> bool {
    let (s, u) = (a.ctx.bundles@[t.0 as int].spillset.0 as int, a.ctx.bundles@[f.0 as int].spillset.0 as int); let (x, y, z) = (a.ctx.spillsets@[s].range, a.ctx.spillsets@[u].range, b.ctx.spillsets@[s]);
    &&& b.ctx.spillsets@.len() == a.ctx.spillsets@.len() && z == (SpillSet { range: z.range, ..a.ctx.spillsets@[s] })
    &&& forall|i: int| 0 <= i < a.ctx.spillsets@.len() && i != s ==> b.ctx.spillsets@[i] == a.ctx.spillsets@[i]
    &&& z.range.from.bits <= x.from.bits && z.range.from.bits <= y.from.bits && z.range.to.bits >= x.to.bits && z.range.to.bits >= y.to.bits
}
proof fn wide_enough(x: LiveBundle, y: LiveBundle)
    requires wide_clear(x, y)
    ensures clear(x.ranges@, y.ranges@)
{
    assert forall|i: int, j: int| 0 <= i < x.ranges@.len() && 0 <= j < y.ranges@.len() implies !over(span(#[trigger] x.ranges@[i]), span(#[trigger] y.ranges@[j])) by { assert(wide_apart(x, y, i, j)); }
}
/// What ends by the next range of the other one is apart from all that follow.
proof fn step(x: LiveBundle, y: LiveBundle, i: int, j: int)
    requires tidy(x.ranges@), tidy(y.ranges@), 0 <= i < x.ranges@.len(), 0 <= j < y.ranges@.len()
    ensures wide(x, x.ranges@[i]).from >= y.ranges@[j].range.to.bits ==> forall|k: int| i <= k < x.ranges@.len() ==> #[trigger] wide_apart(x, y, k, j),
        wide(y, y.ranges@[j]).from >= x.ranges@[i].range.to.bits ==> forall|k: int| j <= k < y.ranges@.len() ==> #[trigger] wide_apart(x, y, i, k),
{
    assert forall|k: int| i <= k < x.ranges@.len() implies wide(x, #[trigger] x.ranges@[k]).from >= wide(x, x.ranges@[i]).from by { if i < k { assert(x.ranges@[i].range.to.bits <= x.ranges@[k].range.from.bits); assert(proper(span(x.ranges@[i]))); } }
    assert forall|k: int| j <= k < y.ranges@.len() implies wide(y, #[trigger] y.ranges@[k]).from >= wide(y, y.ranges@[j]).from by { if j < k { assert(y.ranges@[j].range.to.bits <= y.ranges@[k].range.from.bits); assert(proper(span(y.ranges@[j]))); } }
}
//@ fn src/ion/data_structures.rs Env::vreg
//@ impl <'a, F: Function> Env<'a, F>
//@ at ctx.vregs
//@ spec
    requires index.0 < self.ctx.vregs@.len() <= 0x3fff_ffff, self.ctx.vregs@[index.0 as int].class is Some
    ensures (res.bits & 3u32) == class_bits(self.ctx.vregs@[index.0 as int].class->0)
//@ end
//@ fn src/ion/merge.rs Env::merge_bundles
//@ attr verifier::rlimit(60)
//@ at ctx.bundles
//@ at ctx.ranges
//@ at ctx.spillsets
//@ at ctx.vregs
//@ mut insert
//@ mut extend_from_slice
//@ lift adjust_range_start self
fn vx_adjust_range_start<'a, F: Function>(this: &Env<'a, F>, $1: LiveBundleIndex, $2: CodeRange) -> (res: ProgPoint)
    requires $1.0 < this.ctx.bundles@.len(), $2.from.bits <= 0x7fff_ffff
    ensures res.bits == (if flag(this.ctx.bundles@[$1.0 as int], 0x20000000u32) { $2.from.bits / 2 * 2 } else { $2.from.bits as int })
//@ spec
    requires from.0 < old(self).ctx.bundles@.len(), to.0 < old(self).ctx.bundles@.len(), old(self).ctx.vregs@.len() <= 0x3fff_ffff, typed(*old(self), from.0 as int), typed(*old(self), to.0 as int)
    ensures
        // nothing is done
        !res || from == to || old(self).list(from).len() == 0 ==> *final(self) == *old(self),
        // merged: it was allowed
        res && from != to ==> {
            let (x, y) = (old(self).ctx.bundles@[from.0 as int], old(self).ctx.bundles@[to.0 as int]);
            &&& old(self).ctx.spillsets@[x.spillset.0 as int].class == old(self).ctx.spillsets@[y.spillset.0 as int].class
            &&& x.allocation.k() == 0 && y.allocation.k() == 0
            &&& clear(x.ranges@, y.ranges@) && wide_clear(x, y)
            &&& old(self).agree(from, to) || bare(x) && bare(y)
        },
        res && from != to && old(self).list(from).len() > 0 ==> merged(*old(self), *final(self), from, to),
        // so what must hold of all bundles still does
        assigned(*old(self)) ==> assigned(*final(self)),
        old(self).list(to).len() > 0 ==> forall|y: int| 0 <= y < old(self).ctx.bundles@.len() && #[trigger] typed(*old(self), y) ==> typed(*final(self), y),
//@ entry
    hide(assigned); hide(shuffled); hide(merged);
    let ghost this = *self; let ghost lf = self.list(from); let ghost lt = self.list(to);
//@ loop 0
    invariant *self == this, typed(this, from.0 as int), lf == this.list(from), __s0@ == lf, __i0 <= lf.len(), from_rc == this.ctx.spillsets@[this.ctx.bundles@[from.0 as int].spillset.0 as int].class, this.ctx.vregs@.len() <= 0x3fff_ffff
    decreases lf.len() - __i0
//@ loop 0 begin
    proof { assert(of_class(this, lf[__i0 as int].index.0 as int, from_rc)); }
//@ loop 1
    invariant *self == this, typed(this, to.0 as int), lt == this.list(to), __s1@ == lt, __i1 <= lt.len(), to_rc == this.ctx.spillsets@[this.ctx.bundles@[to.0 as int].spillset.0 as int].class, this.ctx.vregs@.len() <= 0x3fff_ffff
    decreases lt.len() - __i1
//@ loop 1 begin
    proof { assert(of_class(this, lt[__i1 as int].index.0 as int, to_rc)); }
//@ loop 2
    invariant *self == this, this == *old(self), from.0 < this.ctx.bundles@.len(), to.0 < this.ctx.bundles@.len(), typed(this, from.0 as int), typed(this, to.0 as int), lf == this.list(from), lt == this.list(to), ranges_from@ == lf, ranges_to@ == lt,
        0 <= range_count <= 200, idx_from <= lf.len(), idx_to <= lt.len(),
        forall|i: int, j: int| 0 <= i < idx_from && 0 <= j < lt.len() ==> #[trigger] wide_apart(this.ctx.bundles@[from.0 as int], this.ctx.bundles@[to.0 as int], i, j),
        forall|i: int, j: int| 0 <= i < lf.len() && 0 <= j < idx_to ==> #[trigger] wide_apart(this.ctx.bundles@[from.0 as int], this.ctx.bundles@[to.0 as int], i, j),
    decreases lf.len() - idx_from + lt.len() - idx_to
//@ loop 3
    invariant list@ == lf, __i3 <= lf.len(), from.0 < this.ctx.bundles@.len(), typed(this, from.0 as int), lf == this.list(from),
        *self == (Env { ctx: Ctx { ranges: self.ctx.ranges, bundles: self.ctx.bundles, ..this.ctx }, ..this }),
        moved(this.ctx.ranges@, self.ctx.ranges@, lf, __i3 as int, to), self.ctx.bundles == held,
    decreases lf.len() - __i3
//@ loop 2 begin
    proof { step(this.ctx.bundles@[from.0 as int], this.ctx.bundles@[to.0 as int], idx_from as int, idx_to as int); }
//@ loop 2 after
    proof { wide_enough(this.ctx.bundles@[from.0 as int], this.ctx.bundles@[to.0 as int]); }
//@ loop 3 before
    let ghost held = self.ctx.bundles;
//@ loop 3 begin
    let ghost o = self.ctx.ranges@; let ghost n = __i3 as int;
//@ loop 3 end
    proof { moved_more(this.ctx.ranges@, o, self.ctx.ranges@, lf, n, to); }
//@ loop 4 before
    let ghost held = self.ctx.bundles;
//@ loop 4
    invariant from_list@ == lf, __i4 <= lf.len(), from.0 < this.ctx.bundles@.len(), typed(this, from.0 as int), lf == this.list(from),
        *self == (Env { ctx: Ctx { ranges: self.ctx.ranges, bundles: self.ctx.bundles, ..this.ctx }, ..this }),
        moved(this.ctx.ranges@, self.ctx.ranges@, lf, __i4 as int, to), self.ctx.bundles == held,
    decreases lf.len() - __i4
//@ loop 4 begin
    let ghost o = self.ctx.ranges@; let ghost n = __i4 as int;
//@ loop 4 end
    proof { moved_more(this.ctx.ranges@, o, self.ctx.ranges@, lf, n, to); }
//@ loop 5
    invariant __s5@ == lt, __i5 <= lt.len(), __o5@.len() == __i5, forall|k: int| #![trigger __o5@[k]] #![trigger lt[k]] 0 <= k < __i5 ==> __o5@[k] == lt[k].range.from
    decreases lt.len() - __i5
//@ loop 5 after
    proof { assert(__o5@ =~= starts(lt)); starts_ordered(lt); }
//@ loop 6 after
    proof { assert(__o6@ =~= starts(lt + lf)); }
//@ loop 6
    invariant __s6@ == lt + lf, __i6 <= (lt + lf).len(), __o6@.len() == __i6, forall|k: int| 0 <= k < __i6 ==> __o6@[k] == (#[trigger] (lt + lf)[k]).range.from
    decreases (lt + lf).len() - __i6
//@ after ranges.insert(pos
    proof { assert(lf =~= seq![lf[0]]); sought(self.list(to), lt, lf, pos); }
//@ after vx_sort_unstable_by_key
    proof { assert(ordered_by(starts(lt + lf), lt + lf, self.list(to))); sorted(self.list(to), lt, lf); }
//@ before let mut last_range
    let ghost ln = self.list(to); let ghost mid = *self;
    proof { shuffled_within(ln, lt, lf); }
//@ loop 7
    invariant *self == mid, to.0 < mid.ctx.bundles@.len(), ln == mid.list(to), __n7 == ln.len(), __i7 <= ln.len(), tidy(ln), __i7 == 0 ==> last_range is None, __i7 > 0 ==> last_range == Some(ln[__i7 - 1].range),
        forall|i: int| 0 <= i < ln.len() ==> (#[trigger] ln[i]).index.0 < mid.ctx.ranges@.len()
    decreases ln.len() - __i7
//@ before (*self.ctx.bundles.vx_at_mut(to)).ranges = list
    proof { alone(lf, lt); }
//@ after self.merge_bundle_properties(from, to) #2
    proof { conclude(this, *self, from, to); }
//@ end

// ---- the bundles that allocation starts from
spec fn special(c: OperandConstraint) -> bool { c is FixedReg || c is Stack || c is Limit }
spec fn fixdef(o: Operand) -> bool { con(o) is FixedReg && kind_of(o) == OperandKind::Def }
/// A bundle's markings tell of this use.
spec fn tells(b: LiveBundle, o: Operand) -> bool { (special(con(o)) ==> !bare(b)) && (fixdef(o) ==> flag(b, 0x20000000u32)) }
spec fn told<'a, F: Function>(e: Env<'a, F>, b: int, i: int) -> bool {
    let u = e.ctx.ranges@[e.ctx.bundles@[b].ranges@[i].index.0 as int].uses@;
    forall|j: int| 0 <= j < u.len() ==> tells(e.ctx.bundles@[b], (#[trigger] u[j]).operand)
}
/// The live range is of one of the first n variables.
spec fn early_var<'a, F: Function>(e: Env<'a, F>, b: int, i: int, n: int) -> bool { e.ctx.ranges@[e.ctx.bundles@[b].ranges@[i].index.0 as int].vreg.0 < n }
spec fn fine<'a, F: Function>(e: Env<'a, F>, b: int, n: int) -> bool {
    let l = e.ctx.bundles@[b].ranges@;
    &&& typed(e, b) && e.ctx.bundles@[b].allocation.k() == 0 && e.ctx.bundles@[b].spillset.0 == b && covers(e.ctx.spillsets@[e.ctx.bundles@[b].spillset.0 as int], l)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] owns(e, b, i)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] told(e, b, i)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] early_var(e, b, i, n)
}
/// A variable's live range is in the bundle that it names.
spec fn listed_in<'a, F: Function>(e: Env<'a, F>, v: int, i: int) -> bool {
    let x = e.ctx.vregs@[v].ranges@[i]; let b = e.ctx.ranges@[x.index.0 as int].bundle;
    b.0 < e.ctx.bundles@.len() && e.list(b).contains(x)
}
spec fn world<'a, F: Function>(e: Env<'a, F>, n: int) -> bool {
    &&& e.ctx.bundles@.len() <= n && e.ctx.spillsets@.len() == e.ctx.bundles@.len()
    &&& forall|b: int| 0 <= b < e.ctx.bundles@.len() ==> #[trigger] fine(e, b, n)
    &&& forall|v: int, i: int| 0 <= v < n && 0 <= i < e.ctx.vregs@[v].ranges@.len() ==> #[trigger] listed_in(e, v, i)
}
spec fn use_ok(o: Operand) -> bool { con(o) matches OperandConstraint::Limit(k) ==> k <= 255 }
/// What building live ranges leaves: each variable's are its own, in order; limits fit in a byte.
spec fn own_range<'a, F: Function>(e: Env<'a, F>, v: int, i: int) -> bool {
    let x = e.ctx.vregs@[v].ranges@[i]; let r = e.ctx.ranges@[x.index.0 as int];
    &&& x.index.0 < e.ctx.ranges@.len() && r.vreg.0 == v && x.range.to.bits <= 0x7fff_ffff
    &&& forall|j: int| 0 <= j < r.uses@.len() ==> use_ok((#[trigger] r.uses@[j]).operand)
}
spec fn own_var<'a, F: Function>(e: Env<'a, F>, v: int) -> bool {
    let l = e.ctx.vregs@[v].ranges@;
    &&& tidy(l) && (l.len() > 0 ==> e.ctx.vregs@[v].class is Some)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] own_range(e, v, i)
}
spec fn live_var<'a, F: Function>(e: Env<'a, F>, v: nat) -> bool { v < e.ctx.vregs@.len() && e.ctx.vregs@[v as int].ranges@.len() > 0 }
/// A reused operand and what it reuses are live.
spec fn reuse_ok<'a, F: Function>(e: Env<'a, F>, i: int, k: int) -> bool {
    let o = e.func.v_ops(Inst(i as u32));
    con(o[k]) matches OperandConstraint::Reuse(j) ==> j < o.len() && live_var(e, var_of(o[k]).num() as nat) && live_var(e, var_of(o[j as int]).num() as nat)
}
spec fn built<'a, F: Function>(e: Env<'a, F>) -> bool {
    &&& e.ctx.vregs@.len() <= 0x3fff_ffff && e.ctx.ranges@.len() < u32::MAX
    &&& forall|v: int| 0 <= v < e.ctx.vregs@.len() ==> #[trigger] own_var(e, v)
    &&& e.func.v_ni() <= 0x3fff_ffff && forall|i: int, k: int| 0 <= i < e.func.v_ni() && 0 <= k < e.func.v_ops(Inst(i as u32)).len() ==> #[trigger] reuse_ok(e, i, k)
    &&& forall|i: int| 0 <= i < e.ctx.blockparam_outs@.len() ==> live_var(e, (#[trigger] e.ctx.blockparam_outs@[i]).from_vreg.0 as nat) && live_var(e, e.ctx.blockparam_outs@[i].to_vreg.0 as nat)
}
/// Registers hold reservations only.
spec fn reserved<'a, F: Function>(e: Env<'a, F>) -> bool {
    &&& e.ctx.pregs@.len() == 256 && forall|r: int| 0 <= r < 256 ==> (#[trigger] e.ctx.pregs@[r]).allocations.btree.wf()
    &&& forall|r: int, k: LiveRangeKey| 0 <= r < 256 && #[trigger] e.ctx.pregs@[r].allocations.btree@.contains_key(k) ==> e.fixed(r, k)
}
/// Nothing but bundles, their live ranges' up-links and spill sets has changed.
spec fn since<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>) -> bool {
    &&& b == (Env { ctx: Ctx { ranges: b.ctx.ranges, bundles: b.ctx.bundles, spillsets: b.ctx.spillsets, ..a.ctx }, ..a })
    &&& b.ctx.ranges@.len() == a.ctx.ranges@.len() && forall|x: int| 0 <= x < a.ctx.ranges@.len() ==> #[trigger] b.ctx.ranges@[x] == (LiveRange { bundle: b.ctx.ranges@[x].bundle, ..a.ctx.ranges@[x] })
}
proof fn built_since<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>)
    requires since(a, b), built(a)
    ensures built(b)
{
    assert forall|v: int| 0 <= v < b.ctx.vregs@.len() implies #[trigger] own_var(b, v) by { assert(own_var(a, v)); assert forall|i: int| 0 <= i < b.ctx.vregs@[v].ranges@.len() implies #[trigger] own_range(b, v, i) by { assert(own_range(a, v, i)); } }
    assert forall|i: int, k: int| 0 <= i < b.func.v_ni() && 0 <= k < b.func.v_ops(Inst(i as u32)).len() implies #[trigger] reuse_ok(b, i, k) by { assert(reuse_ok(a, i, k)); }
}
/// So the bookkeeping of register assignments starts out right.
proof fn starts_assigned<'a, F: Function>(e: Env<'a, F>, n: int)
    requires world(e, n), reserved(e), e.ctx.ranges@.len() < u32::MAX
    ensures assigned(e)
{
    assert forall|b: int| 0 <= b < e.ctx.bundles@.len() implies tidy((#[trigger] e.ctx.bundles@[b]).ranges@) by { assert(fine(e, b, n)); }
    assert forall|b: int, i: int| 0 <= b < e.ctx.bundles@.len() && 0 <= i < e.ctx.bundles@[b].ranges@.len() implies #[trigger] owns(e, b, i) by { assert(fine(e, b, n)); }
    assert forall|b: int, i: int| 0 <= b < e.ctx.bundles@.len() && 0 <= i < e.ctx.bundles@[b].ranges@.len() && e.ctx.bundles@[b].allocation.k() == 1 implies #[trigger] stored(e, b, i) by { assert(fine(e, b, n)); }
}
/// A bundle for one more variable.
spec fn made<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, v: int) -> bool {
    let n = a.ctx.bundles@.len() as int; let l = a.ctx.vregs@[v].ranges@; let x = b.ctx.bundles@[n]; let s = b.ctx.spillsets@[a.ctx.spillsets@.len() as int];
    &&& since(a, b) && b.ctx.bundles@ == a.ctx.bundles@.push(x) && b.ctx.spillsets@ == a.ctx.spillsets@.push(s)
    &&& x.ranges@ == l && x.allocation.k() == 0 && x.spillset.0 == a.ctx.spillsets@.len() && a.ctx.vregs@[v].class == Some(s.class) && covers(s, l)
    &&& moved(a.ctx.ranges@, b.ctx.ranges@, l, l.len() as int, LiveBundleIndex(n as u32))
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] told(b, n, i)
}
proof fn make<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, v: int)
    requires made(a, b, v), built(a), world(a, v), 0 <= v < a.ctx.vregs@.len()
    ensures world(b, v + 1)
{
    let n = a.ctx.bundles@.len() as int; let l = a.ctx.vregs@[v].ranges@;
    assert(own_var(a, v));
    assert forall|y: int| 0 <= y < b.ctx.bundles@.len() implies #[trigger] fine(b, y, v + 1) by {
        let m = b.ctx.bundles@[y].ranges@; let s = b.ctx.bundles@[y].spillset.0 as int;
        if y < n {
            assert(fine(a, y, v));
            assert(b.ctx.bundles@[y] == a.ctx.bundles@[y] && b.ctx.spillsets@[s] == a.ctx.spillsets@[s]);
            assert forall|i: int| #![trigger owns(b, y, i)] #![trigger told(b, y, i)] #![trigger early_var(b, y, i, v + 1)] #![trigger m[i]] 0 <= i < m.len() implies owns(b, y, i) && told(b, y, i) && early_var(b, y, i, v + 1) && of_class(b, m[i].index.0 as int, b.ctx.spillsets@[s].class) by {
                assert(owns(a, y, i) && told(a, y, i) && early_var(a, y, i, v)); let x = m[i].index.0 as int;
                assert(of_class(a, x, a.ctx.spillsets@[s].class));
                if mentions(l, l.len() as int, x) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).index.0 == x; assert(own_range(a, v, k)); assert(false); }
                assert(b.ctx.ranges@[x] == a.ctx.ranges@[x]);
            }
            assert(typed(b, y));
        } else {
            assert(m == l);
            assert forall|i: int| #![trigger owns(b, y, i)] #![trigger told(b, y, i)] #![trigger early_var(b, y, i, v + 1)] #![trigger m[i]] 0 <= i < m.len() implies owns(b, y, i) && told(b, y, i) && early_var(b, y, i, v + 1) && of_class(b, m[i].index.0 as int, b.ctx.spillsets@[s].class) && m[i].index.0 < b.ctx.ranges@.len() && m[i].range.to.bits <= 0x7fff_ffff by {
                assert(own_range(a, v, i)); let x = m[i].index.0 as int;
                assert(mentions(l, l.len() as int, x)) by { assert(l[i].index.0 == x); }
                assert(b.ctx.ranges@[x].bundle.0 == n);
            }
            assert(typed(b, y));
        }
    }
    assert forall|w: int, i: int| 0 <= w < v + 1 && 0 <= i < b.ctx.vregs@[w].ranges@.len() implies #[trigger] listed_in(b, w, i) by {
        let x = b.ctx.vregs@[w].ranges@[i];
        if w < v {
            assert(listed_in(a, w, i)); assert(own_var(a, w)); assert(own_range(a, w, i));
            if mentions(l, l.len() as int, x.index.0 as int) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).index.0 == x.index.0; assert(own_range(a, v, k)); assert(false); }
            assert(b.ctx.ranges@[x.index.0 as int] == a.ctx.ranges@[x.index.0 as int]);
            assert(b.list(b.ctx.ranges@[x.index.0 as int].bundle) == a.list(a.ctx.ranges@[x.index.0 as int].bundle));
        } else {
            assert(own_range(a, v, i)); assert(mentions(l, l.len() as int, x.index.0 as int)) by { assert(l[i].index.0 == x.index.0); }
            assert(b.ctx.bundles@[n].ranges@[i] == x);
        }
    }
}
proof fn skipped<'a, F: Function>(a: Env<'a, F>, v: int)
    requires world(a, v), 0 <= v < a.ctx.vregs@.len(), a.ctx.vregs@[v].ranges@.len() == 0
    ensures world(a, v + 1)
{
    assert forall|y: int| 0 <= y < a.ctx.bundles@.len() implies #[trigger] fine(a, y, v + 1) by {
        assert(fine(a, y, v)); let m = a.ctx.bundles@[y].ranges@;
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] early_var(a, y, i, v + 1) by { assert(early_var(a, y, i, v)); }
    }
}
proof fn shuffled_all(n: Ranges, a: Ranges, b: Ranges)
    requires shuffled(n, a, b)
    ensures forall|x: LiveRangeListEntry| a.contains(x) || b.contains(x) ==> #[trigger] n.contains(x)
{
    let c = a + b; let p = choose|p: Seq<int>| is_perm(p, c.len() as int) && #[trigger] by(p, n, c);
    assert forall|x: LiveRangeListEntry| a.contains(x) || b.contains(x) implies #[trigger] n.contains(x) by {
        let k = if a.contains(x) { choose|k: int| 0 <= k < a.len() && a[k] == x } else { a.len() + choose|k: int| 0 <= k < b.len() && b[k] == x };
        assert(c[k] == x);
        assert(p.contains(k));
        let i = choose|i: int| 0 <= i < p.len() && p[i] == k;
        assert(n[i] == c[p[i]]);
    }
}
/// Marked like both, it tells of the uses of both.
proof fn tells_both(x: LiveBundle, y: LiveBundle, z: LiveBundle, o: Operand)
    requires marked(x, y, z), z.limit == smaller(x.limit, y.limit), tells(x, o) || tells(y, o)
    ensures tells(z, o)
{}
proof fn world_merged<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, f: LiveBundleIndex, t: LiveBundleIndex, n: int)
    requires merged(a, b, f, t), world(a, n), f != t, f.0 < a.ctx.bundles@.len(), t.0 < a.ctx.bundles@.len(), a.list(t).len() > 0, built(a), n == a.ctx.vregs@.len(),
        forall|y: int| 0 <= y < a.ctx.bundles@.len() && #[trigger] typed(a, y) ==> typed(b, y)
    ensures world(b, n), since(a, b)
{
    let (lf, lt, m) = (a.list(f), a.list(t), b.list(t));
    let (x, y, z) = (a.ctx.bundles@[f.0 as int], a.ctx.bundles@[t.0 as int], b.ctx.bundles@[t.0 as int]);
    assert(fine(a, f.0 as int, n) && fine(a, t.0 as int, n));
    shuffled_within(m, lt, lf); shuffled_all(m, lt, lf);
    assert forall|w: int| 0 <= w < b.ctx.bundles@.len() implies #[trigger] fine(b, w, n) by {
        assert(fine(a, w, n)); let l = b.ctx.bundles@[w].ranges@;
        assert(typed(a, w));
        assert forall|i: int| #![trigger owns(b, w, i)] #![trigger told(b, w, i)] #![trigger early_var(b, w, i, n)] 0 <= i < l.len() implies owns(b, w, i) && told(b, w, i) && early_var(b, w, i, n) by {
            let q = l[i].index.0 as int;
            if w == t.0 {
                if lf.contains(m[i]) {
                    let k = choose|k: int| 0 <= k < lf.len() && lf[k] == m[i]; assert(owns(a, f.0 as int, k) && told(a, f.0 as int, k) && early_var(a, f.0 as int, k, n));
                    assert(mentions(lf, lf.len() as int, q)) by { assert(lf[k].index.0 == q); }
                    let u = b.ctx.ranges@[q].uses@; assert(u == a.ctx.ranges@[q].uses@);
                    assert forall|j: int| 0 <= j < u.len() implies tells(z, (#[trigger] u[j]).operand) by { tells_both(x, y, z, u[j].operand); }
                } else {
                    let k = choose|k: int| 0 <= k < lt.len() && lt[k] == m[i]; assert(owns(a, t.0 as int, k) && told(a, t.0 as int, k) && early_var(a, t.0 as int, k, n));
                    apart_of(a, f, q, n);
                    let u = b.ctx.ranges@[q].uses@; assert(u == a.ctx.ranges@[q].uses@);
                    assert forall|j: int| 0 <= j < u.len() implies tells(z, (#[trigger] u[j]).operand) by { tells_both(x, y, z, u[j].operand); }
                }
            } else if w != f.0 {
                assert(b.ctx.bundles@[w] == a.ctx.bundles@[w]);
                assert(owns(a, w, i) && told(a, w, i) && early_var(a, w, i, n)); apart_of(a, f, q, n);
            }
        }
    }
    assert forall|v: int, i: int| 0 <= v < n && 0 <= i < b.ctx.vregs@[v].ranges@.len() implies #[trigger] listed_in(b, v, i) by {
        assert(listed_in(a, v, i)); assert(own_var(a, v)); assert(own_range(a, v, i)); let e = a.ctx.vregs@[v].ranges@[i]; let q = e.index.0 as int;
        if a.ctx.ranges@[q].bundle == f { let k = choose|k: int| 0 <= k < lf.len() && lf[k] == e; assert(mentions(lf, lf.len() as int, q)) by { assert(lf[k].index.0 == q); } assert(m.contains(e)); }
        else { apart_of(a, f, q, n); if a.ctx.ranges@[q].bundle == t { assert(m.contains(e)); } }
    }
    assert forall|q: int| 0 <= q < a.ctx.ranges@.len() implies #[trigger] b.ctx.ranges@[q] == (LiveRange { bundle: b.ctx.ranges@[q].bundle, ..a.ctx.ranges@[q] }) by {}
}
/// What names another bundle is not in f's list.
proof fn apart_of<'a, F: Function>(a: Env<'a, F>, f: LiveBundleIndex, q: int, n: int)
    requires fine(a, f.0 as int, n), a.ctx.ranges@[q].bundle != f
    ensures !mentions(a.list(f), a.list(f).len() as int, q)
{
    let l = a.list(f);
    if mentions(l, l.len() as int, q) { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).index.0 == q; assert(owns(a, f.0 as int, k)); }
}
spec fn uses_of<'a, F: Function>(e: Env<'a, F>, x: LiveRangeListEntry) -> Seq<Use> { e.ctx.ranges@[x.index.0 as int].uses@ }
/// What is noted of the uses looked at.
spec fn seen(o: Operand, fixed: bool, fixed_def: bool, stack: bool, limited: bool) -> bool { (special(con(o)) ==> fixed || stack || limited) && (fixdef(o) ==> fixed_def) }
spec fn all_seen(u: Seq<Use>, fixed: bool, fixed_def: bool, stack: bool, limited: bool) -> bool { forall|j: int| 0 <= j < u.len() ==> seen((#[trigger] u[j]).operand, fixed, fixed_def, stack, limited) }
/// A live variable's first range is in a bundle.
proof fn home<'a, F: Function>(e: Env<'a, F>, n: int, v: int)
    requires world(e, n), built(e), n == e.ctx.vregs@.len(), live_var(e, v as nat), v >= 0
    ensures ({ let x = e.ctx.vregs@[v].ranges@[0].index; let b = e.ctx.ranges@[x.0 as int].bundle;
        x.0 < e.ctx.ranges@.len() && b.0 < e.ctx.bundles@.len() && e.list(b).len() > 0 && typed(e, b.0 as int) })
{
    assert(own_var(e, v)); assert(own_range(e, v, 0)); assert(listed_in(e, v, 0));
    let b = e.ctx.ranges@[e.ctx.vregs@[v].ranges@[0].index.0 as int].bundle; assert(fine(e, b.0 as int, n));
}
//@ fn src/ion/merge.rs Env::merge_vreg_bundles
//@ attr verifier::rlimit(60)
//@ at ctx.bundles
//@ at ctx.ranges
//@ at ctx.spillsets
//@ at ctx.vregs
//@ mut set_cached_fixed
//@ mut set_cached_fixed_def
//@ mut set_cached_stack
//@ spec
    requires built(*old(self)), old(self).ctx.bundles@.len() == 0, old(self).ctx.spillsets@.len() == 0
    ensures since(*old(self), *final(self)), world(*final(self), old(self).ctx.vregs@.len() as int), reserved(*old(self)) ==> assigned(*final(self))
//@ entry
    hide(assigned); hide(merged); hide(shuffled);
    let ghost this = *self; let ghost nv = self.ctx.vregs@.len() as int;
    proof { marking(); }
//@ loop 0
    invariant this == *old(self), nv == this.ctx.vregs@.len(), __n0 == nv, __i0 <= nv, since(this, *self), built(this), world(*self, __i0 as int)
    decreases nv - __i0
//@ loop 0 begin
    let ghost a = *self; let ghost v = __i0 as int; let ghost l = a.ctx.vregs@[v].ranges@;
    proof { built_since(this, a); assert(own_var(a, v)); if l.len() == 0 { skipped(a, v); } }
//@ loop 1 before
    let ghost held = *self;
    proof { assert(l =~= self.list(bundle)); }
//@ loop 1
    invariant __s1@ == l, __i1 <= l.len(), own_var(a, v), l == a.ctx.vregs@[v].ranges@, held.ctx.ranges == a.ctx.ranges,
        *self == (Env { ctx: Ctx { ranges: self.ctx.ranges, ..held.ctx }, ..held }),
        moved(a.ctx.ranges@, self.ctx.ranges@, l, __i1 as int, bundle),
        forall|k: int| 0 <= k < __i1 ==> range.from.bits <= (#[trigger] l[k]).range.from.bits && l[k].range.to.bits <= range.to.bits
    decreases l.len() - __i1
//@ loop 1 begin
    let ghost o = self.ctx.ranges@; let ghost n = __i1 as int;
    proof { assert(own_range(a, v, n)); }
//@ loop 1 end
    proof { moved_more(a.ctx.ranges@, o, self.ctx.ranges@, l, n, bundle); }
//@ before let mut fixed = false
    let ghost w = *self;
//@ loop 2
    invariant *self == w, __s2@ == l, __i2 <= l.len(), own_var(a, v), l == a.ctx.vregs@[v].ranges@, moved(a.ctx.ranges@, w.ctx.ranges@, l, l.len() as int, bundle),
        forall|i: int| 0 <= i < __i2 ==> all_seen(uses_of(w, #[trigger] l[i]), fixed, fixed_def, stack, limit is Some)
    decreases l.len() - __i2
//@ loop 2 begin
    let ghost n = __i2 as int;
    proof { assert(own_range(a, v, n)); }
//@ loop 3
    invariant_except_break
        forall|j: int| 0 <= j < __i3 ==> seen((#[trigger] __s3@[j]).operand, fixed, fixed_def, stack, limit is Some)
    invariant *self == w, 0 <= n < l.len(), __s3@ == uses_of(w, l[n]), __i3 <= __s3@.len(),
        forall|j: int| 0 <= j < __s3@.len() ==> use_ok((#[trigger] __s3@[j]).operand),
        forall|i: int| 0 <= i < n ==> all_seen(uses_of(w, #[trigger] l[i]), fixed, fixed_def, stack, limit is Some),
    ensures all_seen(__s3@, fixed, fixed_def, stack, limit is Some)
    decreases __s3@.len() - __i3
//@ loop 0 end
    proof {
        marking();
        let b = *self; let k = a.ctx.bundles@.len() as int; let z = b.ctx.bundles@[k];
        assert((fixed ==> flag(z, 0x40000000u32)) && (fixed_def ==> flag(z, 0x20000000u32)) && (stack ==> flag(z, 0x10000000u32)) && z.limit == limit);
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] told(b, k, i) by {
            let u = uses_of(w, l[i]); assert(all_seen(u, fixed, fixed_def, stack, limit is Some));
            assert forall|j: int| 0 <= j < u.len() implies tells(b.ctx.bundles@[k], (#[trigger] u[j]).operand) by { assert(seen(u[j].operand, fixed, fixed_def, stack, limit is Some)); }
        }
        assert(b.ctx.bundles@ =~= a.ctx.bundles@.push(b.ctx.bundles@[k]));
        assert(made(a, b, v));
        make(a, b, v);
    }
//@ slice 5
//@ loop 4
    invariant this == *old(self), nv == this.ctx.vregs@.len(), __n4 == this.func.v_ni(), __i4 <= __n4, since(this, *self), built(this), world(*self, nv)
    decreases __n4 - __i4
//@ loop 5
    invariant this == *old(self), nv == this.ctx.vregs@.len(), __s5@ == this.func.v_ops(inst), __i5 <= __s5@.len(), inst.0 < this.func.v_ni(), since(this, *self), built(this), world(*self, nv)
    decreases __s5@.len() - __i5
//@ loop 5 begin
    let ghost a = *self; let ghost k = __i5 as int;
    proof { built_since(this, a); assert(reuse_ok(a, inst.0 as int, k)); assert(Inst(inst.0) == inst); }
//@ before let src_bundle
    proof { home(a, nv, src_vreg.num() as int); home(a, nv, dst_vreg.num() as int); }
//@ after self.merge_bundles(dest_bundle, src_bundle)
    proof { if *self != a { world_merged(a, *self, dest_bundle, src_bundle, nv); } }
//@ loop 6
    invariant this == *old(self), nv == this.ctx.vregs@.len(), __n6 == this.ctx.blockparam_outs@.len(), __i6 <= __n6, since(this, *self), built(this), world(*self, nv)
    decreases __n6 - __i6
//@ loop 6 begin
    let ghost a = *self; let ghost k = __i6 as int;
    proof { built_since(this, a); assert(live_var(a, a.ctx.blockparam_outs@[k].from_vreg.0 as nat)); home(a, nv, a.ctx.blockparam_outs@[k].from_vreg.0 as int); home(a, nv, a.ctx.blockparam_outs@[k].to_vreg.0 as int); }
//@ loop 6 end
    proof { if *self != a { world_merged(a, *self, from_bundle, to_bundle, nv); } }
//@ loop 6 after
    proof { if reserved(this) { starts_assigned(*self, nv); } }
//@ end
} fn main() { }
