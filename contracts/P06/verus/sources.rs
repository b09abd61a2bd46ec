use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ type BTreeMap VxOrdMap
//@ type SmallVec Vec
//@ deref pregs ctx
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/preg.rs
//@ include ../../common/verus/alloc.rs
//@ item src/lib.rs struct ProgPoint
//@ fn src/lib.rs ProgPoint::to_index
//@ spec
    ensures res == self.bits
//@ end
//@ item src/lib.rs struct SpillSlot
//@ item src/lib.rs aconst SpillSlot::MAX exec Self::MAX == 0xff_ffff | assert((1usize << 24usize) == 0x100_0000usize) by(bit_vector);
//@ fn src/lib.rs SpillSlot::new
//@ spec
    requires slot <= 0xff_ffff
    ensures res.bits == slot
//@ end
//@ fn src/lib.rs Allocation::stack
//@ spec
    requires slot.bits <= 0xff_ffff
    ensures res.k() == 2, res.idx() == slot.bits
//@ entry
    proof { let b = slot.bits; let i = b as usize;
        assert(i <= 0xff_ffffusize ==> i < (1usize << 28usize)) by(bit_vector);
        assert(b <= 0xff_ffffu32 ==> (((2u32 << 29u32) | b) >> 29u32) & 7u32 == 2) by(bit_vector);
        assert(b <= 0xff_ffffu32 ==> ((2u32 << 29u32) | b) & 0x0fff_ffffu32 == b) by(bit_vector);
    }
//@ end
impl Allocation { spec fn idx(self) -> u32 { self.bits & 0x0fff_ffffu32 } }
//@ fn src/lib.rs PReg::index
//@ spec
    ensures res == self.bits
//@ end
spec fn reg(p: PReg) -> Allocation { Allocation { bits: (1u32 << 29u32) | (p.bits as u32) } }
//@ fn src/lib.rs Allocation::reg
//@ spec
    ensures res == reg(preg), res.k() == 1
//@ entry
    proof {
        let b = preg.bits;
        assert(b as usize <= 255 && 255usize < (1usize << 28usize)) by(bit_vector);
        assert((((1u32 << 29u32) | b as u32) >> 29u32) & 7u32 == 1u32) by(bit_vector);
    }
//@ end
//@ fn src/lib.rs Allocation::is_stack
//@ spec
    requires self.k() <= 2
    ensures res == (self.k() == 2)
//@ end
//@ fn src/lib.rs Allocation::as_reg external
//@ spec
    requires self.k() <= 2
    ensures res is Some <==> self.k() == 1, res is Some ==> self == reg(res->0) && res->0 == regof(self)
//@ end
/// The register an allocation of the register kind names.
uninterp spec fn regof(a: Allocation) -> PReg;
//@ include ../../common/verus/ordmap.rs
//@ item src/index.rs!define_index!LiveRangeIndex struct LiveRangeIndex
//@ item src/ion/data_structures.rs struct LiveRangeSet derive()
//@ item src/ion/data_structures.rs struct PRegData derive()
//@ item src/lib.rs struct VReg
//@ item src/ion/data_structures.rs struct PosWithPrio
//@ item src/ion/data_structures.rs struct InsertedMove derive()
/// RegTraversalIter by the registers it has yet to yield (P09: each at most once, and all of them).
#[verifier::external_body]
struct RegTraversalIter { x: u64 }
impl RegTraversalIter {
    uninterp spec fn rest(self) -> Set<PReg>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<PReg>)
        ensures match res { Some(r) => old(self).rest().contains(r) && final(self).rest() == old(self).rest().remove(r), None => old(self).rest() == Set::<PReg>::empty() && final(self).rest() == old(self).rest() }
    { unimplemented!() }
}
/// The parts of Ctx and Env that are used here (all others dropped).
struct Ctx { pregs: Vec<PRegData> }
struct Env { ctx: Ctx }
impl Env {
    spec fn wf(self) -> bool { self.ctx.pregs@.len() == 256 && forall|i: int| 0 <= i < 256 ==> (#[trigger] self.ctx.pregs@[i]).allocations.btree.wf() }
    /// Nothing is allocated to the register at the point of the key.
    spec fn idle(self, p: PReg, k: LiveRangeKey) -> bool { !self.ctx.pregs@[p.bits as int].allocations.btree.hit(k) }
}
/// No move of the group mentions a.
spec fn unused(moves: Seq<InsertedMove>, a: Allocation) -> bool { forall|i: int| 0 <= i < moves.len() ==> (#[trigger] moves[i]).from_alloc != a && moves[i].to_alloc != a }
//@ fn src/ion/moves.rs Env::resolve_inserted_moves/find_free_reg
//@ captures (this: &Env, moves: &Vec<InsertedMove>, key: LiveRangeKey, dedicated_scratch: &mut Option<PReg>, scratch_iter: &mut RegTraversalIter) -> Option<Allocation>
//@ spec
    requires this.wf(), proper(key)
    ensures
        // the dedicated register, once, and then the registers that are free and out of the group's way, each once
        (*old(dedicated_scratch)) is Some ==> res == Some(reg((*old(dedicated_scratch))->0)) && (*final(dedicated_scratch)) is None && *final(scratch_iter) == *old(scratch_iter),
        (*old(dedicated_scratch)) is None ==> (*final(dedicated_scratch)) is None && match res {
            Some(a) => exists|p: PReg| a == reg(p) && #[trigger] old(scratch_iter).rest().contains(p) && !final(scratch_iter).rest().contains(p) && this.idle(p, key) && unused(moves@, a),
            // none is left: each remaining register is taken or in the way
            None => forall|p: PReg| #[trigger] old(scratch_iter).rest().contains(p) ==> !this.idle(p, key) || !unused(moves@, reg(p)),
        },
        forall|p: PReg| #[trigger] final(scratch_iter).rest().contains(p) ==> old(scratch_iter).rest().contains(p),
//@ loop 0
    invariant_except_break
        this.wf(), proper(key), (*dedicated_scratch) is None, (*old(dedicated_scratch)) is None,
        forall|p: PReg| #[trigger] scratch_iter.rest().contains(p) ==> old(scratch_iter).rest().contains(p),
        forall|p: PReg| #[trigger] old(scratch_iter).rest().contains(p) && !scratch_iter.rest().contains(p) ==> !this.idle(p, key) || !unused(moves@, reg(p)),
    ensures
        (*dedicated_scratch) is None, (*old(dedicated_scratch)) is None,
        forall|p: PReg| !#[trigger] scratch_iter.rest().contains(p),
        forall|p: PReg| #[trigger] old(scratch_iter).rest().contains(p) ==> !this.idle(p, key) || !unused(moves@, reg(p)),
    decreases scratch_iter.rest().len()
//@ loop 1
    invariant_except_break !__o1, forall|i: int| 0 <= i < __i1 ==> (#[trigger] moves@[i]).from_alloc != alloc && moves@[i].to_alloc != alloc
    invariant __i1 <= moves@.len()
    ensures __o1 == !unused(moves@, alloc)
    decreases moves@.len() - __i1
//@ end
//@ fn src/ion/moves.rs Env::resolve_inserted_moves/get_stackslot
//@ captures (stackslot_idx: &mut usize) -> Allocation
//@ spec
    requires *old(stackslot_idx) <= 0xff_ffff
    ensures *final(stackslot_idx) == *old(stackslot_idx) + 1, res.k() == 2, res.idx() == 0xff_ffff - *old(stackslot_idx)
//@ end
//@ fn src/ion/moves.rs Env::resolve_inserted_moves/is_stack_alloc
//@ captures (this: &Env) -> bool
//@ spec
    requires this.wf(), alloc.k() <= 2
    ensures res == (if alloc.k() == 1 { this.ctx.pregs@[regof(alloc).bits as int].is_stack } else { alloc.k() == 2 })
//@ end
}
fn main() {}
