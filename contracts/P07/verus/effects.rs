use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ type FxHashMap VxMap
//@ deref cfginfo ctx
//@ deref output ctx
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/alloc.rs
//@ include ../../common/verus/preg.rs
//@ include ../../common/verus/block.rs
/// PRegSet by its mathematical content; its operations are proved in P02.
#[verifier::external_body]
#[derive(Clone, Copy)]
struct PRegSet { x: u64 }
impl PRegSet { uninterp spec fn set(self) -> Set<PReg>; }
//@ item src/index.rs!define_index!Inst struct Inst
//@ fn src/index.rs!define_index!Inst Inst::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!Inst Inst::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!Inst Inst::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!Inst Inst::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ fn src/index.rs!define_index!Inst Inst::next
//@ spec
    requires self.0 != u32::MAX
    ensures res.0 == self.0 + 1
//@ end
//@ item src/lib.rs struct ProgPoint
//@ item src/lib.rs enum InstPosition
impl ProgPoint {
    spec fn i(self) -> int { self.bits as int / 2 }
    spec fn after(self) -> bool { self.bits % 2 == 1 }
    /// The first instruction that starts at or after the point.
    spec fn first(self) -> int { if self.after() { self.i() + 1 } else { self.i() } }
}
//@ fn src/lib.rs ProgPoint::inst
//@ spec
    requires self.bits < 0x8000_0000
    ensures res.0 == self.i()
//@ entry
    proof { let b = self.bits; assert(b < 0x8000_0000u32 ==> (((b as i32) >> 1i32) as usize) as u32 == b / 2) by(bit_vector); assert(b < 0x8000_0000u32 ==> (((b as i32) >> 1i32) as usize) <= 0x7fff_ffff) by(bit_vector); }
//@ end
//@ fn src/lib.rs ProgPoint::pos
//@ spec
    ensures res is After <==> self.after()
//@ entry
    proof { let b = self.bits; assert(b & 1u32 == b % 2) by(bit_vector); }
//@ end
//@ item src/lib.rs enum OperandKind
//@ item src/lib.rs struct Operand
/// The kind of an operand, a function of its bits (P03 decides which).
uninterp spec fn okind(o: Operand) -> OperandKind;
//@ fn src/lib.rs Operand::kind external
//@ spec
    ensures res == okind(self)
//@ end
//@ fn src/lib.rs Allocation::reg external
//@ spec
    ensures res == as_reg(preg)
//@ end
/// The allocation that names a register.
uninterp spec fn as_reg(p: PReg) -> Allocation;
// ---- sources of loops
trait VxFrom<T> { spec fn vs(&self) -> Seq<T>; fn vx_from(&self, i: usize) -> (r: &[T]) requires i <= self.vs().len() ensures r@ == self.vs().skip(i as int); }
impl<T> VxFrom<T> for Vec<T> { spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_from(&self, i: usize) -> (r: &[T]) { &self[i..] } }
trait VxInto: Sized { type Out; spec fn rel(self, r: Self::Out) -> bool; fn vx_into(self) -> (r: Self::Out) ensures self.rel(r); }
fn vx_into_iter<A: VxInto>(a: A) -> (res: A::Out) ensures a.rel(res) { a.vx_into() }
/// Standing for PRegSet's iterator: each member of the set is yielded before it ends (P02).
#[verifier::external_body]
struct VxRegs { x: u64 }
impl VxRegs {
    uninterp spec fn rest(self) -> Set<PReg>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<PReg>)
        ensures match res { Some(r) => old(self).rest().contains(r) && final(self).rest() == old(self).rest().remove(r), None => old(self).rest() == Set::<PReg>::empty() && final(self).rest() == old(self).rest() }
    { unimplemented!() }
}
impl VxInto for PRegSet { type Out = VxRegs; spec fn rel(self, r: VxRegs) -> bool { r.rest() == self.set() }
    #[verifier::external_body] fn vx_into(self) -> (r: VxRegs) { unimplemented!() } }
/// Standing for an array's iterator by value.
struct VxArr { a: [Option<PReg>; 3], i: usize }
impl VxArr {
    fn next(&mut self) -> (res: Option<Option<PReg>>)
        requires old(self).i <= 3
        ensures final(self).a == old(self).a, final(self).i <= 3, old(self).i < 3 ==> res == Some(old(self).a[old(self).i as int]) && final(self).i == old(self).i + 1, old(self).i == 3 ==> res is None && final(self).i == 3
    { if self.i < 3 { let r = self.a[self.i]; self.i = self.i + 1; Some(r) } else { None } }
}
impl VxInto for [Option<PReg>; 3] { type Out = VxArr; spec fn rel(self, r: VxArr) -> bool { r.a == self && r.i == 0 } fn vx_into(self) -> (r: VxArr) { VxArr { a: self, i: 0 } } }
trait Function: Sized {
    spec fn v_ni(&self) -> nat;
    spec fn v_ops(&self, i: Inst) -> Seq<Operand>;
    spec fn v_clobbers(&self, i: Inst) -> PRegSet;
    fn inst_operands(&self, insn: Inst) -> (r: &[Operand]) requires insn.0 < self.v_ni() ensures r@ == self.v_ops(insn);
    fn inst_clobbers(&self, insn: Inst) -> (r: PRegSet) requires insn.0 < self.v_ni() ensures r == self.v_clobbers(insn);
}
/// The parts of MachineEnv, CFGInfo, Output, Ctx and Env that are used here (all others dropped).
struct MachineEnv { scratch_by_class: [Option<PReg>; 3] }
struct CFGInfo { insn_block: Vec<Block> }
struct Output { allocs: Vec<Allocation>, inst_alloc_offsets: Vec<u32> }
struct Ctx { cfginfo: CFGInfo, output: Output }
struct Env<'a, F: Function> { func: &'a F, env: &'a MachineEnv, ctx: &'a Ctx }
impl<'a, F: Function> Env<'a, F> {
    /// Where operand j of instruction i was put.
    spec fn at(self, i: Inst, j: int) -> Allocation { self.ctx.output.allocs@[self.ctx.output.inst_alloc_offsets@[i.0 as int] as int + j] }
    /// Instruction i may change what a holds: a is where one of its results was put, a register it clobbers, or a dedicated scratch register.
    spec fn writes(self, i: Inst, a: Allocation) -> bool {
        ||| exists|j: int| 0 <= j < self.func.v_ops(i).len() && okind(#[trigger] self.func.v_ops(i)[j]) is Def && self.at(i, j) == a
        ||| exists|p: PReg| #[trigger] self.func.v_clobbers(i).set().contains(p) && as_reg(p) == a
        ||| exists|c: int| 0 <= c < 3 && (#[trigger] self.env.scratch_by_class[c]) is Some && as_reg(self.env.scratch_by_class[c]->0) == a
    }
    /// The tables have an entry for every instruction and operand.
    spec fn wf(self) -> bool {
        &&& self.func.v_ni() < 0x4000_0000
        &&& self.ctx.cfginfo.insn_block@.len() == self.func.v_ni() && self.ctx.output.inst_alloc_offsets@.len() == self.func.v_ni()
        &&& forall|i: Inst| i.0 < self.func.v_ni() ==> self.ctx.output.inst_alloc_offsets@[i.0 as int] + (#[trigger] self.func.v_ops(i)).len() <= self.ctx.output.allocs@.len()
    }
    /// Some instruction from s on and before e may change what a holds.
    spec fn touched(self, s: int, e: int, a: Allocation) -> bool { exists|i: Inst| s <= i.0 < e && #[trigger] self.writes(i, a) }
}
//@ fn src/ion/moves.rs Env::get_alloc
//@ impl <'a, F: Function> Env<'a, F>
//@ spec
    requires self.wf(), inst.0 < self.func.v_ni(), slot < self.func.v_ops(inst).len()
    ensures res == self.at(inst, slot as int)
//@ end
// ---- the tracker, by the facts it records (its operations are proved in tracker.rs)
#[verifier::external_body]
struct RedundantMoveEliminator { x: u64 }
impl RedundantMoveEliminator {
    uninterp spec fn copy(&self, from: Allocation, to: Allocation) -> bool;
    uninterp spec fn linked(&self) -> bool;
    #[verifier::external_body]
    fn clear(&mut self)
        ensures final(self).linked(), forall|f: Allocation, t: Allocation| !#[trigger] final(self).copy(f, t)
    { unimplemented!() }
    #[verifier::external_body]
    fn clear_alloc(&mut self, alloc: Allocation)
        requires old(self).linked()
        ensures final(self).linked(), forall|f: Allocation, t: Allocation| #[trigger] final(self).copy(f, t) ==> old(self).copy(f, t) && f != alloc && t != alloc
    { unimplemented!() }
}
/// What b records is recorded in a and names nothing that an instruction from s on and before e may change.
spec fn pruned<'a, F: Function>(v: Env<'a, F>, a: RedundantMoveEliminator, b: RedundantMoveEliminator, s: int, e: int) -> bool {
    b.linked() && forall|f: Allocation, t: Allocation| #[trigger] b.copy(f, t) ==> a.copy(f, t) && !v.touched(s, e, f) && !v.touched(s, e, t)
}
/// The same, by the positions of the loops over instruction i: its first n operands, the clobbers not in rest, the first c scratch registers.
spec fn part<'a, F: Function>(e: Env<'a, F>, i: Inst, n: int, rest: Set<PReg>, c: int, a: Allocation) -> bool {
    ||| exists|j: int| 0 <= j < n && okind(#[trigger] e.func.v_ops(i)[j]) is Def && e.at(i, j) == a
    ||| exists|p: PReg| #[trigger] e.func.v_clobbers(i).set().contains(p) && !rest.contains(p) && as_reg(p) == a
    ||| exists|k: int| 0 <= k < c && (#[trigger] e.env.scratch_by_class[k]) is Some && as_reg(e.env.scratch_by_class[k]->0) == a
}
spec fn pruned_part<'a, F: Function>(v: Env<'a, F>, a: RedundantMoveEliminator, b: RedundantMoveEliminator, s: int, e: int, n: int, rest: Set<PReg>, c: int) -> bool {
    pruned(v, a, b, s, e) && forall|f: Allocation, t: Allocation| #[trigger] b.copy(f, t) ==> !part(v, Inst(e as u32), n, rest, c, f) && !part(v, Inst(e as u32), n, rest, c, t)
}
/// The registers the loop has not come to.
spec fn left(it: VxRegs, nx: Option<PReg>) -> Set<PReg> { match nx { Some(r) => it.rest().insert(r), None => it.rest() } }
proof fn clean<'a, F: Function>(v: Env<'a, F>, s: int, k: int, a: Allocation)
    requires !v.touched(s, k, a), 0 <= k <= u32::MAX, !part(v, Inst(k as u32), v.func.v_ops(Inst(k as u32)).len() as int, Set::<PReg>::empty(), 3, a)
    ensures !v.touched(s, k + 1, a)
{
    if v.touched(s, k + 1, a) {
        let i = choose|i: Inst| s <= i.0 < k + 1 && #[trigger] v.writes(i, a);
        if i.0 < k { assert(v.touched(s, k, a)); } else { assert(i == Inst(k as u32)); }
    }
}
//@ fn src/ion/moves.rs Env::resolve_inserted_moves/redundant_move_process_side_effects
//@ spec
    requires this.wf(), old(redundant_moves).linked(), from.i() < this.func.v_ni(), to.i() < this.func.v_ni()
    ensures final(redundant_moves).linked(),
        this.ctx.cfginfo.insn_block@[from.i()] != this.ctx.cfginfo.insn_block@[to.i()] ==> forall|f: Allocation, t: Allocation| !#[trigger] final(redundant_moves).copy(f, t),
        pruned(*this, *old(redundant_moves), *final(redundant_moves), from.first(), to.first())
//@ loop 0
    invariant this.wf(), from.i() < this.func.v_ni(), to.i() < this.func.v_ni(), __n0 == to.first(), __n0 <= this.func.v_ni(), from.first() <= __i0, __i0 <= __n0 || __i0 == from.first(),
        pruned(*this, *old(redundant_moves), *redundant_moves, from.first(), __i0 as int),
        this.ctx.cfginfo.insn_block@[from.i()] == this.ctx.cfginfo.insn_block@[to.i()],
    decreases __n0 - __i0
//@ loop 0 end
    proof {
        let k = __i0 - 1;
        assert forall|f: Allocation, t: Allocation| #[trigger] redundant_moves.copy(f, t) implies !this.touched(from.first(), k + 1, f) && !this.touched(from.first(), k + 1, t) by {
            clean(*this, from.first(), k, f); clean(*this, from.first(), k, t);
        }
    }
//@ loop 1
    invariant this.wf(), __i0 == inst.0 + 1, inst.0 < this.func.v_ni(), __s1@ == this.func.v_ops(inst), __i1 <= __s1@.len(), from.first() <= inst.0,
        pruned_part(*this, *old(redundant_moves), *redundant_moves, from.first(), inst.0 as int, __i1 as int, this.func.v_clobbers(inst).set(), 0)
    decreases __s1@.len() - __i1
//@ loop 2
    invariant this.wf(), __i0 == inst.0 + 1, inst.0 < this.func.v_ni(), from.first() <= inst.0,
        __nx2 is None ==> __it2.rest() == Set::<PReg>::empty(),
        pruned_part(*this, *old(redundant_moves), *redundant_moves, from.first(), inst.0 as int, this.func.v_ops(inst).len() as int, left(__it2, __nx2), 0)
    decreases (if __nx2 is Some { __it2.rest().len() + 1 } else { 0 })
//@ loop 3
    invariant this.wf(), __i0 == inst.0 + 1, inst.0 < this.func.v_ni(), from.first() <= inst.0,
        __it3.a == this.env.scratch_by_class, __it3.i <= 3, match __nx3 { Some(x) => __it3.i >= 1 && x == __it3.a[__it3.i - 1], None => __it3.i == 3 },
        pruned_part(*this, *old(redundant_moves), *redundant_moves, from.first(), inst.0 as int, this.func.v_ops(inst).len() as int, Set::<PReg>::empty(), if __nx3 is Some { __it3.i - 1 } else { 3 })
    decreases (if __nx3 is Some { 4 - __it3.i } else { 0 })
//@ end
}
fn main() {}
