use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/alloc.rs
//@ include ../../common/verus/preg.rs
//@ include ../../common/verus/stdlib.rs
//@ item src/lib.rs struct ProgPoint
//@ fn src/lib.rs ProgPoint::to_index
//@ spec
    ensures res == self.bits
//@ end
//@ item src/lib.rs enum Edit
/// The class of a register, a function of its bits.
uninterp spec fn cls(p: PReg) -> RegClass;
/// The register an allocation of the register kind names.
uninterp spec fn regof(a: Allocation) -> PReg;
//@ fn src/lib.rs PReg::class external
//@ spec
    ensures res == cls(self)
//@ end
//@ fn src/lib.rs Allocation::is_reg
//@ spec
    requires self.k() <= 2
    ensures res == (self.k() == 1)
//@ end
//@ fn src/lib.rs Allocation::as_reg external
//@ spec
    ensures res is Some <==> self.k() == 1, res is Some ==> res->0 == regof(self)
//@ end
//@ item src/ion/data_structures.rs struct PosWithPrio
//@ fn src/ion/data_structures.rs u64_key
//@ spec
    ensures res == b * 0x1_0000_0000 + a
//@ entry
    proof { let x = a as u64; let y = b as u64; assert(x <= 0xffff_ffffu64 && y <= 0xffff_ffffu64 ==> x | (y << 32u64) == add(mul(y, 0x1_0000_0000u64), x)) by(bit_vector); }
//@ end
/// The order of edits: by point, then by the priority of their group.
spec fn le(a: PosWithPrio, b: PosWithPrio) -> bool { a.pos.bits < b.pos.bits || a.pos.bits == b.pos.bits && a.prio <= b.prio }
//@ fn src/ion/data_structures.rs PosWithPrio::key
//@ spec
    ensures res == key_of(self)
//@ end
spec fn key_of(p: PosWithPrio) -> int { p.pos.bits * 0x1_0000_0000 + p.prio }
//@ item src/ion/data_structures.rs struct Edits derive()
//@ fn src/ion/data_structures.rs Edits::with_capacity
//@ spec
    ensures res.edits@.len() == 0
//@ end
//@ fn src/ion/data_structures.rs Edits::len
//@ spec
    ensures res == self.edits@.len()
//@ end
spec fn mv(from: Allocation, to: Allocation) -> Edit { Edit::Move { from, to } }
//@ fn src/ion/data_structures.rs Edits::add
//@ spec
    requires from.k() <= 2, to.k() <= 2, from.k() == 1 && to.k() == 1 ==> cls(regof(from)) == cls(regof(to))
    ensures final(self).edits@ == (if from == to { old(self).edits@ } else { old(self).edits@.push((pos_prio, mv(from, to))) })
//@ end
/// b is a in order of point and priority, edits that agree on both staying in the order they have in a.
spec fn ordered(a: Seq<(PosWithPrio, Edit)>, b: Seq<(PosWithPrio, Edit)>) -> bool {
    exists|p: Seq<int>| is_perm(p, a.len() as int) && (forall|i: int| 0 <= i < p.len() ==> b[i] == a[#[trigger] p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> le(a[#[trigger] p[i]].0, a[#[trigger] p[j]].0) && (a[p[i]].0 == a[p[j]].0 ==> p[i] < p[j]))
}
//@ fn src/ion/data_structures.rs Edits::sort
//@ spec
    ensures final(self).edits@.len() == old(self).edits@.len(), ordered(old(self).edits@, final(self).edits@)
//@ loop 0
    invariant __i0 <= __s0@.len(), __o0@.len() == __i0, __s0@ == old(self).edits@, self.edits@ == old(self).edits@, forall|j: int| 0 <= j < __i0 ==> #[trigger] __o0@[j] == key_of(__s0@[j].0)
    decreases __s0@.len() - __i0
//@ end
//@ item src/lib.rs struct VReg
//@ fn src/lib.rs VReg::class external
//@ spec
    ensures res == vcls(self)
//@ end
/// The class of a value, a function of its bits.
uninterp spec fn vcls(v: VReg) -> RegClass;
//@ item src/ion/data_structures.rs enum InsertMovePrio
//@ item src/ion/data_structures.rs struct InsertedMove derive()
//@ item src/ion/data_structures.rs struct InsertedMoves derive()
/// The place of a group in the order of the groups at its point.
spec fn rank(p: InsertMovePrio) -> int {
    match p {
        InsertMovePrio::InEdgeMoves => 0, InsertMovePrio::Regular => 1, InsertMovePrio::MultiFixedRegInitial => 2,
        InsertMovePrio::MultiFixedRegSecondary => 3, InsertMovePrio::ReusedInput => 4, InsertMovePrio::OutEdgeMoves => 5,
    }
}
//@ fn src/ion/data_structures.rs InsertedMoves::push
//@ spec
    requires from_alloc.k() <= 2, to_alloc.k() <= 2,
        from_alloc != to_alloc ==> (from_alloc.k() == 1 ==> cls(regof(from_alloc)) == vcls(to_vreg)) && (to_alloc.k() == 1 ==> cls(regof(to_alloc)) == vcls(to_vreg)),
    ensures from_alloc == to_alloc ==> final(self).moves@ == old(self).moves@,
        from_alloc != to_alloc ==> final(self).moves@.len() == old(self).moves@.len() + 1 && final(self).moves@.drop_last() == old(self).moves@
            && final(self).moves@.last().pos_prio.pos == pos && final(self).moves@.last().pos_prio.prio == rank(prio)
            && final(self).moves@.last().from_alloc == from_alloc && final(self).moves@.last().to_alloc == to_alloc && final(self).moves@.last().to_vreg == to_vreg,
//@ end
}
fn main() {}
