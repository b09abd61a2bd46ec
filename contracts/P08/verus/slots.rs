use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ type BTreeMap VxOrdMap
//@ type SmallVec Vec
//@ type core::cmp::min vx_min
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/preg.rs
//@ include ../../common/verus/alloc.rs
fn vx_min(a: usize, b: usize) -> (res: usize) ensures res == (if a < b { a } else { b }) { if a < b { a } else { b } }
//@ item src/lib.rs struct ProgPoint
//@ fn src/lib.rs ProgPoint::to_index
//@ spec
    ensures res == self.bits
//@ end
//@ item src/lib.rs struct SpillSlot
//@ item src/lib.rs aconst SpillSlot::MAX exec Self::MAX == 0xff_ffff | assert((1usize << 24usize) == 0x100_0000usize) by(bit_vector);
//@ fn src/lib.rs SpillSlot::new
//@ spec
    requires slot <= 0xff_ffff
    ensures res.bits == slot
//@ end
//@ fn src/lib.rs Allocation::stack
//@ spec
    requires slot.bits <= 0xff_ffff
    ensures res.k() == 2, res.idx() == slot.bits
//@ entry
    proof { let b = slot.bits; let i = b as usize;
        assert(i <= 0xff_ffffusize ==> i < (1usize << 28usize)) by(bit_vector);
        assert(b <= 0xff_ffffu32 ==> (((2u32 << 29u32) | b) >> 29u32) & 7u32 == 2) by(bit_vector);
        assert(b <= 0xff_ffffu32 ==> ((2u32 << 29u32) | b) & 0x0fff_ffffu32 == b) by(bit_vector);
    }
//@ end
impl Allocation { spec fn idx(self) -> u32 { self.bits & 0x0fff_ffffu32 } }
//@ item src/index.rs!define_index!LiveBundleIndex struct LiveBundleIndex
//@ item src/index.rs!define_index!SpillSetIndex struct SpillSetIndex
//@ item src/index.rs!define_index!SpillSlotIndex struct SpillSlotIndex
//@ fn src/index.rs!define_index!SpillSetIndex SpillSetIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!SpillSlotIndex SpillSlotIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!SpillSlotIndex SpillSlotIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!SpillSlotIndex SpillSlotIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!SpillSlotIndex SpillSlotIndex::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ include ../../common/verus/ordmap.rs
//@ item src/ion/data_structures.rs struct SpillSet derive()
//@ item src/ion/data_structures.rs struct SpillSetRanges derive()
impl SpillSetRanges { pub closed spec fn blank(&self) -> bool { self.btree@ == Map::<LiveRangeKey, SpillSetIndex>::empty() } }
impl Default for SpillSetRanges {
    #[verifier::external_body]
    fn default() -> (res: SpillSetRanges) ensures res.blank() { unimplemented!() }
}
//@ item src/ion/data_structures.rs struct SpillSlotData derive()
//@ item src/ion/data_structures.rs struct SpillSlotList derive()
//@ fn src/ion/data_structures.rs SpillSlotList::next_index
//@ spec
    requires index < self.slots@.len()
    ensures res < self.slots@.len()
//@ end
struct SpillSets { storage: Vec<SpillSet> }
impl SpillSets {
    spec fn view(&self) -> Seq<SpillSet> { self.storage@ }
    fn len(&self) -> (res: usize) ensures res == self@.len() { self.storage.len() }
    fn vx_at(&self, i: SpillSetIndex) -> (res: &SpillSet) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
    fn vx_at_mut(&mut self, i: SpillSetIndex) -> (res: &mut SpillSet) requires i.0 < old(self)@.len()
        ensures *res == old(self)@[i.0 as int], final(self)@ == old(self)@.update(i.0 as int, *final(res)) { &mut self.storage[i.0 as usize] }
}
/// The parts of Output, Ctx and Env that slot allocation uses (all others dropped).
struct Output { num_spillslots: usize }
struct Ctx { spillsets: SpillSets, spillslots: Vec<SpillSlotData>, slots_by_class: [SpillSlotList; 3], scratch_spillset_pool: Vec<SpillSetRanges>, output: Output }
trait Function {
    spec fn size(&self, c: RegClass) -> nat;
    spec fn last(&self) -> bool;
    fn spillslot_size(&self, regclass: RegClass) -> (res: usize) ensures res == self.size(regclass);
    fn multi_spillslot_named_by_last_slot(&self) -> (res: bool) ensures res == self.last();
}
struct Env<'a, F: Function> { func: &'a F, ctx: Ctx }

spec fn pow2(s: u32) -> bool { s != 0 && s & ((s - 1) as u32) == 0 }
pub assume_specification [u32::is_power_of_two] (x: u32) -> (res: bool)
    ensures res == (x != 0 && x & ((x - 1) as u32) == 0);
/// The first place of a slot of that size, given its name.
spec fn start(a: Allocation, size: u32, last: bool) -> int { if last { a.idx() - (size - 1) } else { a.idx() as int } }
/// A slot of that size: aligned, at or above lo, ending at or below hi.
spec fn placed(a: Allocation, size: u32, last: bool, lo: int, hi: int) -> bool {
    let s = start(a, size, last);
    &&& a.k() == 2 &&& lo <= s &&& s + size <= hi &&& s % size as int == 0
}
proof fn align(o: u32, s: u32)
    requires pow2(s), o <= 0x7fff_ffff, s <= 0x7fff_ffff
    ensures o <= ((o + s - 1) as u32) & !((s - 1) as u32) < o + s, (((o + s - 1) as u32) & !((s - 1) as u32)) as int % s as int == 0
{
    let m = (s - 1) as u32; let t = (o + m) as u32;
    assert(s != 0 && s & m == 0 && m == sub(s, 1) && o <= 0x7fff_ffff && s <= 0x7fff_ffff && t == add(o, m) ==> o <= t & !m && sub(t & !m, o) < s) by(bit_vector);
    assert(s != 0 && s & m == 0 && m == sub(s, 1) ==> (t & !m) % s == 0) by(bit_vector);
}
//@ fn src/ion/spill.rs Env::allocate_spillslot
//@ impl <'a, F: Function> Env<'a, F>
//@ spec
    requires pow2(size), old(self).ctx.output.num_spillslots + 2 * size <= 0xff_ffff
    ensures placed(res, size, old(self).func.last(), old(self).ctx.output.num_spillslots as int, final(self).ctx.output.num_spillslots as int),
        final(self).ctx.output.num_spillslots < old(self).ctx.output.num_spillslots + 2 * size,
        final(self).func == old(self).func, final(self).ctx.spillsets == old(self).ctx.spillsets, final(self).ctx.spillslots == old(self).ctx.spillslots,
        final(self).ctx.slots_by_class == old(self).ctx.slots_by_class, final(self).ctx.scratch_spillset_pool == old(self).ctx.scratch_spillset_pool
//@ entry
    proof { align(self.ctx.output.num_spillslots as u32, size); }
//@ end
//@ fn src/ion/spill.rs Env::spillslot_can_fit_spillset
//@ impl <'a, F: Function> Env<'a, F>
//@ at spillsets
//@ spec
    requires spillslot.0 < old(self).ctx.spillslots@.len() < u32::MAX, spillset.0 < old(self).ctx.spillsets@.len(),
        old(self).ctx.spillslots@[spillslot.0 as int].ranges.btree.wf(), proper(key(old(self).ctx.spillsets@[spillset.0 as int].range))
    ensures res == !old(self).ctx.spillslots@[spillslot.0 as int].ranges.btree.hit(key(old(self).ctx.spillsets@[spillset.0 as int].range)),
        *final(self) == *old(self)
//@ end
/// One more range in a slot's map.
proof fn more<V>(a: VxOrdMap<LiveRangeKey, V>, b: VxOrdMap<LiveRangeKey, V>, k: LiveRangeKey, v: V)
    requires a.wf(), proper(k), !a.hit(k), b@ == a@.insert(k, v)
    ensures b.wf(), !a@.contains_key(k)
{
    assert(!a@.contains_key(k)) by { if a@.contains_key(k) { assert(over(k, k)); } }
    assert forall|x: LiveRangeKey, y: LiveRangeKey| #[trigger] b@.contains_key(x) && #[trigger] b@.contains_key(y) && x != y implies !over(x, y) by {
        if x == k { assert(a@.contains_key(y)); assert(over(x, y) == over(y, x)); } else if y == k { assert(a@.contains_key(x)); }
    }
}
//@ fn src/ion/spill.rs Env::allocate_spillset_to_spillslot
//@ impl <'a, F: Function> Env<'a, F>
//@ at spillsets
//@ spec
    requires spillslot.0 < old(self).ctx.spillslots@.len() < u32::MAX, spillset.0 < old(self).ctx.spillsets@.len(),
        old(self).ctx.spillslots@[spillslot.0 as int].ranges.btree.wf(), proper(key(old(self).ctx.spillsets@[spillset.0 as int].range)),
        !old(self).ctx.spillslots@[spillslot.0 as int].ranges.btree.hit(key(old(self).ctx.spillsets@[spillset.0 as int].range))
    ensures put_in(*old(self), *final(self), spillset, spillslot)
//@ entry
    let ghost this = *self;
//@ exit
    proof {
        let i = spillslot.0 as int; let k = key(this.ctx.spillsets@[spillset.0 as int].range);
        more(this.ctx.spillslots@[i].ranges.btree, self.ctx.spillslots@[i].ranges.btree, k, spillset);
    }
//@ end
spec fn put_in<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, s: SpillSetIndex, k: SpillSlotIndex) -> bool {
    let (x, y) = (a.ctx.spillslots@[k.0 as int], b.ctx.spillslots@[k.0 as int]); let r = key(a.ctx.spillsets@[s.0 as int].range);
    &&& b.func == a.func && b.ctx.output == a.ctx.output && b.ctx.slots_by_class == a.ctx.slots_by_class && b.ctx.scratch_spillset_pool == a.ctx.scratch_spillset_pool
    &&& b.ctx.spillsets@ == a.ctx.spillsets@.update(s.0 as int, SpillSet { slot: k, ..a.ctx.spillsets@[s.0 as int] })
    &&& b.ctx.spillslots@ == a.ctx.spillslots@.update(k.0 as int, y)
    &&& y.slots == x.slots && y.alloc == x.alloc
    &&& y.ranges.btree@ == x.ranges.btree@.insert(r, s) && y.ranges.btree.wf() && !x.ranges.btree@.contains_key(r)
}
// ---- the invariant of slot sharing, over the first n spill sets
spec fn size_of_class<F: Function>(f: F, c: RegClass) -> u32 { f.size(c) as u32 }
spec fn ix(c: RegClass) -> int { match c { RegClass::Int => 0, RegClass::Float => 1, RegClass::Vector => 2 } }
spec fn listed<'a, F: Function>(e: Env<'a, F>, c: RegClass) -> bool {
    let l = e.ctx.slots_by_class@[ix(c)];
    &&& l.slots@.len() == 0 || l.probe_start < l.slots@.len()
    &&& forall|j: int| 0 <= j < l.slots@.len() ==> (#[trigger] l.slots@[j]).0 < e.ctx.spillslots@.len() && e.ctx.spillslots@[l.slots@[j].0 as int].slots == size_of_class(*e.func, c)
}
/// Spill set i is in its slot: one of its class's size, that holds its range for it.
spec fn housed<'a, F: Function>(e: Env<'a, F>, i: int) -> bool {
    let s = e.ctx.spillsets@[i]; let d = e.ctx.spillslots@[s.slot.0 as int];
    s.slot.0 < e.ctx.spillslots@.len() && d.slots == size_of_class(*e.func, s.class) && d.ranges.btree@.contains_key(key(s.range)) && d.ranges.btree@[key(s.range)].0 == i
}
spec fn sized<'a, F: Function>(e: Env<'a, F>) -> bool {
    forall|k: int| 0 <= k < e.ctx.spillslots@.len() ==> (#[trigger] e.ctx.spillslots@[k]).ranges.btree.wf() && (exists|c: RegClass| e.ctx.spillslots@[k].slots == size_of_class(*e.func, c))
}
spec fn shared<'a, F: Function>(e: Env<'a, F>, n: int) -> bool {
    &&& forall|c: RegClass| #[trigger] listed(e, c)
    &&& sized(e)
    &&& forall|i: int| 0 <= i < n && (#[trigger] e.ctx.spillsets@[i]).required ==> housed(e, i)
    &&& forall|j: int| 0 <= j < e.ctx.scratch_spillset_pool@.len() ==> (#[trigger] e.ctx.scratch_spillset_pool@[j]).blank()
}
/// The sets are those of a, but for their slots.
spec fn same_sets<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>) -> bool {
    &&& a.func == b.func && a.ctx.spillsets@.len() == b.ctx.spillsets@.len()
    &&& forall|i: int| 0 <= i < a.ctx.spillsets@.len() ==> #[trigger] b.ctx.spillsets@[i] == (SpillSet { slot: b.ctx.spillsets@[i].slot, ..a.ctx.spillsets@[i] })
}
spec fn fits<F: Function>(f: F, m: int) -> bool { forall|c: RegClass| f.size(c) <= m && pow2(#[trigger] f.size(c) as u32) }
/// b has the lists of slots in order, and at most one new slot, of class cl and empty.
spec fn grown<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>) -> bool {
    let n = a.ctx.spillslots@.len();
    &&& forall|c: RegClass| #[trigger] listed(b, c)
    &&& b.func == a.func && b.ctx.spillsets == a.ctx.spillsets
    &&& b.ctx.spillslots@ == a.ctx.spillslots@ || b.ctx.spillslots@.len() == n + 1 && b.ctx.spillslots@.take(n as int) == a.ctx.spillslots@
    &&& forall|j: int| 0 <= j < b.ctx.scratch_spillset_pool@.len() ==> (#[trigger] b.ctx.scratch_spillset_pool@[j]).blank()
}
proof fn regrown<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, n: int, cl: RegClass)
    requires shared(a, n), grown(a, b), n <= a.ctx.spillsets@.len(),
        b.ctx.spillslots@.len() > a.ctx.spillslots@.len() ==> b.ctx.spillslots@.last().slots == size_of_class(*b.func, cl) && b.ctx.spillslots@.last().ranges.blank()
    ensures shared(b, n)
{
    let k = a.ctx.spillslots@.len() as int;
    assert forall|j: int| 0 <= j < k implies b.ctx.spillslots@[j] == #[trigger] a.ctx.spillslots@[j] by { if b.ctx.spillslots@.len() > k { assert(b.ctx.spillslots@.take(k)[j] == b.ctx.spillslots@[j]); } }
    assert forall|i: int| 0 <= i < n && (#[trigger] b.ctx.spillsets@[i]).required implies housed(b, i) by { assert(housed(a, i)); }
    assert(sized(b)) by {
        assert forall|j: int| 0 <= j < b.ctx.spillslots@.len() implies (#[trigger] b.ctx.spillslots@[j]).ranges.btree.wf() && (exists|c: RegClass| b.ctx.spillslots@[j].slots == size_of_class(*b.func, c)) by {
            if j < k { assert(b.ctx.spillslots@[j] == a.ctx.spillslots@[j]); }
        }
    }
}
proof fn step<'a, F: Function>(a: Env<'a, F>, b: Env<'a, F>, s: SpillSetIndex, k: SpillSlotIndex)
    requires shared(a, s.0 as int), s.0 < a.ctx.spillsets@.len(), k.0 < a.ctx.spillslots@.len(), put_in(a, b, s, k),
        a.ctx.spillslots@[k.0 as int].slots == size_of_class(*a.func, a.ctx.spillsets@[s.0 as int].class),
    ensures shared(b, s.0 + 1)
{
    assert forall|c: RegClass| #[trigger] listed(b, c) by { assert(listed(a, c)); let l = a.ctx.slots_by_class@[ix(c)]; 
        assert forall|j: int| 0 <= j < l.slots@.len() implies (#[trigger] l.slots@[j]).0 < b.ctx.spillslots@.len() && b.ctx.spillslots@[l.slots@[j].0 as int].slots == size_of_class(*b.func, c) by { let o = a.ctx.spillslots@[l.slots@[j].0 as int]; }
    }
    assert(sized(b)) by {
        assert forall|j: int| 0 <= j < b.ctx.spillslots@.len() implies (#[trigger] b.ctx.spillslots@[j]).ranges.btree.wf() && (exists|c: RegClass| b.ctx.spillslots@[j].slots == size_of_class(*b.func, c)) by {
            let o = a.ctx.spillslots@[j];
        }
    }
    assert forall|i: int| 0 <= i < s.0 + 1 && (#[trigger] b.ctx.spillsets@[i]).required implies housed(b, i) by {
        if i < s.0 { assert(a.ctx.spillsets@[i] == b.ctx.spillsets@[i]); assert(housed(a, i)); }
    }
}
//@ fn src/ion/spill.rs Env::allocate_spillslots
//@ impl <'a, F: Function> Env<'a, F>
//@ at spillsets
//@ ghost m: int
//@ spec
    requires old(self).ctx.spillslots@.len() == 0, shared(*old(self), 0), old(self).ctx.spillsets@.len() < u32::MAX,
        forall|i: int| 0 <= i < old(self).ctx.spillsets@.len() && (#[trigger] old(self).ctx.spillsets@[i]).required ==> proper(key(old(self).ctx.spillsets@[i].range)),
        fits(*old(self).func, m), 0 <= m, old(self).ctx.output.num_spillslots + old(self).ctx.spillsets@.len() * (2 * m) <= 0xff_ffff
    ensures same_sets(*old(self), *final(self)),
        shared(*final(self), final(self).ctx.spillsets@.len() as int),
        forall|i: int, j: int| 0 <= i < j < final(self).ctx.spillsets@.len() && (#[trigger] final(self).ctx.spillsets@[i]).required && (#[trigger] final(self).ctx.spillsets@[j]).required
            && final(self).ctx.spillsets@[i].slot == final(self).ctx.spillsets@[j].slot ==> !over(key(final(self).ctx.spillsets@[i].range), key(final(self).ctx.spillsets@[j].range)),
        laid(*final(self), final(self).ctx.spillslots@.len() as int, old(self).ctx.output.num_spillslots as int)
//@ entry
    let ghost this = *self;
//@ loop 0
    invariant shared(*self, __i0 as int), same_sets(this, *self), __n0 == this.ctx.spillsets@.len(), __i0 <= __n0, __n0 < u32::MAX,
        self.ctx.output == this.ctx.output, self.ctx.spillslots@.len() <= __i0, fits(*this.func, m), 0 <= m, m <= 0xff_ffff || __n0 == 0,
        forall|i: int| 0 <= i < this.ctx.spillsets@.len() && (#[trigger] this.ctx.spillsets@[i]).required ==> proper(key(this.ctx.spillsets@[i].range)),
    decreases __n0 - __i0
//@ loop 0 before
    proof {
        let n = this.ctx.spillsets@.len() as int;
        assert(m <= 0xff_ffff || n == 0) by (nonlinear_arith) requires 0 <= m, 0 <= n, n * (2 * m) <= 0xff_ffff;
    }
//@ after let spillset = SpillSetIndex::new(spillset)
    proof { assert(this.ctx.spillsets@[spillset.0 as int].required == self.ctx.spillsets@[spillset.0 as int].required); assert(0 < __n0); }
//@ after let class = 
    let ghost cl = self.ctx.spillsets@[spillset.0 as int].class;
//@ loop 1
    invariant_except_break shared(*self, spillset.0 as int), !success, __n1 == 0 || i < self.ctx.slots_by_class@[class as int].slots@.len()
    invariant same_sets(this, *self), spillset.0 < __n0, __n0 == this.ctx.spillsets@.len(), __n0 < u32::MAX, __i1 <= __n1,
        class == ix(cl), cl == this.ctx.spillsets@[spillset.0 as int].class, this.ctx.spillsets@[spillset.0 as int].required, 
        self.ctx.output == this.ctx.output, self.ctx.spillslots@.len() <= spillset.0,
        proper(key(this.ctx.spillsets@[spillset.0 as int].range)),
    ensures shared(*self, spillset.0 + (if success { 1int } else { 0int }))
    decreases __n1 - __i1
//@ before if self.spillslot_can_fit_spillset(spillslot, spillset)
    proof { assert(listed(*self, cl)); assert(self.ctx.slots_by_class@[class as int].slots@[i as int] == spillslot); assert(sized(*self)); let e1 = *self;
        assert forall|b: Self| #[trigger] put_in(e1, b, spillset, spillslot) implies shared(b, spillset.0 + 1) by { step(e1, b, spillset, spillslot); }
    }
//@ loop 1 before
    proof { assert(listed(*self, cl)); }
//@ after self.ctx.slots_by_class[class].probe_start = self.ctx.slots_by_class[class].slots.len() - 1
    let ghost e1 = *self;
    proof {
        assert forall|c: RegClass| #[trigger] listed(e1, c) by {
            assert(listed(e9, c)); let l = e1.ctx.slots_by_class@[ix(c)].slots@; let o = e9.ctx.slots_by_class@[ix(c)].slots@;
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).0 < e1.ctx.spillslots@.len() && e1.ctx.spillslots@[l[j].0 as int].slots == size_of_class(*e1.func, c) by {
                if j < o.len() { assert(l[j] == o[j]); assert(e9.ctx.spillslots@[o[j].0 as int] == e1.ctx.spillslots@[l[j].0 as int]); }
            }
        }
        assert(e1.ctx.spillslots@.take(e9.ctx.spillslots@.len() as int) =~= e9.ctx.spillslots@);
        regrown(e9, e1, spillset.0 as int, cl);
        assert forall|b: Self| #[trigger] put_in(e1, b, spillset, spillslot) implies shared(b, spillset.0 + 1) by { step(e1, b, spillset, spillslot); }
    }
//@ before success = true;
    let ghost e2 = *self;
//@ before break;
    proof { assert forall|c: RegClass| #[trigger] listed(*self, c) by { assert(listed(e2, c)); } regrown(e2, *self, spillset.0 + 1, cl); }
//@ before let spillslot = SpillSlotIndex::new
    let ghost e9 = *self;
//@ loop 2
    invariant same_sets(this, *self), shared(*self, this.ctx.spillsets@.len() as int), __n2 == self.ctx.spillslots@.len(), __i2 <= __n2 <= this.ctx.spillsets@.len(),
        this.ctx.output.num_spillslots <= self.ctx.output.num_spillslots <= this.ctx.output.num_spillslots + __i2 * (2 * m),
        fits(*this.func, m), 0 <= m, this.ctx.output.num_spillslots + this.ctx.spillsets@.len() * (2 * m) <= 0xff_ffff,
        laid(*self, __i2 as int, this.ctx.output.num_spillslots as int),
    decreases __n2 - __i2
//@ loop 2 begin
    let ghost e0 = *self; let ghost k0 = __i2 as int;
    proof {
        let n = this.ctx.spillsets@.len() as int;
        assert(sized(*self)); let d = self.ctx.spillslots@[k0];
        let c = choose|c: RegClass| d.slots == size_of_class(*self.func, c);
        assert(this.func.size(c) <= m && pow2(this.func.size(c) as u32));
        assert(k0 * (2 * m) + 2 * m == (k0 + 1) * (2 * m)) by (nonlinear_arith);
        assert((k0 + 1) * (2 * m) <= n * (2 * m)) by (nonlinear_arith) requires k0 + 1 <= n, 0 <= m;
        assert(2 * m <= 0xff_ffff) by (nonlinear_arith) requires 0 <= k0, 0 <= m, (k0 + 1) * (2 * m) <= 0xff_ffff;
        assert(d.slots <= m);
    }
//@ loop 2 end
    proof {
        assert forall|j: int| 0 <= j < __n2 implies (#[trigger] self.ctx.spillslots@[j]).slots == e0.ctx.spillslots@[j].slots && self.ctx.spillslots@[j].ranges == e0.ctx.spillslots@[j].ranges && (j != k0 ==> self.ctx.spillslots@[j] == e0.ctx.spillslots@[j]) by {}
        assert forall|c: RegClass| #[trigger] listed(*self, c) by { assert(listed(e0, c)); let l = e0.ctx.slots_by_class@[ix(c)].slots@;
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).0 < self.ctx.spillslots@.len() && self.ctx.spillslots@[l[j].0 as int].slots == size_of_class(*self.func, c) by { let o = e0.ctx.spillslots@[l[j].0 as int]; }
        }
        assert(sized(*self)) by {
            assert forall|j: int| 0 <= j < self.ctx.spillslots@.len() implies (#[trigger] self.ctx.spillslots@[j]).ranges.btree.wf() && (exists|c: RegClass| self.ctx.spillslots@[j].slots == size_of_class(*self.func, c)) by { assert(sized(e0)); let o = e0.ctx.spillslots@[j]; let c = choose|c: RegClass| o.slots == size_of_class(*e0.func, c); assert(self.ctx.spillslots@[j].slots == size_of_class(*self.func, c)); }
        }
        assert forall|i: int| 0 <= i < this.ctx.spillsets@.len() && (#[trigger] self.ctx.spillsets@[i]).required implies housed(*self, i) by { assert(housed(e0, i)); }
    }
//@ end
/// The first n slots lie apart, in the frame from lo up.
spec fn laid<'a, F: Function>(e: Env<'a, F>, n: int, lo: int) -> bool {
    let l = e.func.last();
    &&& forall|k: int| 0 <= k < n ==> placed((#[trigger] e.ctx.spillslots@[k]).alloc, e.ctx.spillslots@[k].slots, l, lo, e.ctx.output.num_spillslots as int)
    &&& forall|j: int, k: int| 0 <= j < k < n ==> start((#[trigger] e.ctx.spillslots@[j]).alloc, e.ctx.spillslots@[j].slots, l) + e.ctx.spillslots@[j].slots <= start((#[trigger] e.ctx.spillslots@[k]).alloc, e.ctx.spillslots@[k].slots, l)
}
}
fn main() {}
