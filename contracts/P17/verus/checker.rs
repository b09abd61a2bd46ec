use vstd::prelude::*;
use core::hash::Hash;
use core::ops::Range;
verus! {
//@ type implIterator<Item=&mutCheckerValue> VxValuesMut<'_,Allocation,CheckerValue>
//@ type implIterator<Item=(&Allocation,&mutCheckerValue)> VxIterMut<'_,Allocation,CheckerValue>
//@ type core::iter::once vx_once
//@ type ion::Stats ()
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/hashmap.rs
//@ include ../../common/verus/preg.rs
//@ item src/lib.rs struct VReg
//@ item src/lib.rs aconst VReg::MAX_BITS
//@ item src/lib.rs aconst VReg::MAX exec Self::MAX == 0x3fff_ffff | assert((1usize << 30usize) == 0x4000_0000usize) by(bit_vector);
//@ fn src/lib.rs VReg::vreg
//@ spec
    ensures res == self.num()
//@ end
impl VReg { spec fn num(self) -> nat { (self.bits >> 2) as nat } }
//@ include ../../common/verus/pregset_abs.rs
/// Collecting the iteration (each member once, P02).
#[verifier::external_body]
fn vx_collect(s: PRegSet) -> (res: Vec<PReg>)
    ensures forall|i: int| 0 <= i < res@.len() ==> s.mem(#[trigger] res@[i]),
        forall|r: PReg| #[trigger] s.mem(r) ==> exists|i: int| 0 <= i < res@.len() && #[trigger] res@[i] == r,
        forall|i: int, j: int| 0 <= i < j < res@.len() ==> #[trigger] res@[i] != #[trigger] res@[j]
{ Vec::new() }
//@ item src/lib.rs struct Operand
//@ item src/lib.rs enum OperandConstraint
//@ item src/lib.rs enum OperandKind
//@ item src/lib.rs enum OperandPos
//@ item src/lib.rs enum AllocationKind
//@ item src/lib.rs struct Allocation
//@ item src/lib.rs struct MachineEnv derive()
//@ item src/index.rs!define_index!Inst struct Inst derive(Clone,Copy,PartialEq,Eq,Structural)
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Inst {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &Inst) -> Option<core::cmp::Ordering> { Some(if self.0 < o.0 { core::cmp::Ordering::Less } else if self.0 == o.0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) }
}
impl PartialOrd for Inst { #[verifier::external_body] fn partial_cmp(&self, o: &Inst) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
//@ include ../../common/verus/block.rs
/// What the packed encodings mean (P01).
uninterp spec fn con(o: Operand) -> OperandConstraint;
uninterp spec fn kind(o: Operand) -> OperandKind;
uninterp spec fn at(o: Operand) -> OperandPos;
uninterp spec fn var(o: Operand) -> VReg;
uninterp spec fn akind(a: Allocation) -> AllocationKind;
uninterp spec fn areg(a: Allocation) -> Option<PReg>;
uninterp spec fn of_reg(r: PReg) -> Allocation;
uninterp spec fn nothing() -> Allocation;
//@ fn src/lib.rs Operand::constraint external
//@ spec
    ensures res == con(self)
//@ end
//@ fn src/lib.rs Operand::kind external
//@ spec
    ensures res == kind(self)
//@ end
//@ fn src/lib.rs Operand::pos external
//@ spec
    ensures res == at(self)
//@ end
//@ fn src/lib.rs Operand::vreg external
//@ spec
    ensures res == var(self)
//@ end
spec fn nonalloc(o: Operand) -> Option<PReg> { match con(o) { OperandConstraint::FixedReg(p) => if var(o).num() == 0x3fff_ffff { Some(p) } else { None }, _ => None } }
//@ fn src/lib.rs Operand::as_fixed_nonallocatable
//@ spec
    ensures res == nonalloc(self)
//@ end
//@ fn src/lib.rs Allocation::none external
//@ spec
    ensures res == nothing()
//@ end
//@ fn src/lib.rs Allocation::kind external
//@ spec
    ensures res == akind(self), res is Reg <==> areg(self) is Some
//@ end
//@ fn src/lib.rs Allocation::as_reg external
//@ spec
    ensures res == areg(self)
//@ end
//@ fn src/lib.rs Allocation::is_stack external
//@ spec
    ensures res == (akind(self) is Stack)
//@ end
//@ fn src/lib.rs Allocation::reg external
//@ spec
    ensures res == of_reg(preg)
//@ end
//@ item src/checker.rs enum CheckerError derive()
//@ item src/checker.rs enum CheckerValue derive()
//@ item src/checker.rs enum CheckerState derive()
//@ item src/checker.rs enum CheckerInst derive()
// ---- what the embedder provides (src/lib.rs trait Function): the methods the checker calls, under assumed contracts
//@ item src/index.rs struct InstRange
trait Function: Sized {
    spec fn v_nb(&self) -> nat;
    spec fn v_entry(&self) -> Block;
    spec fn v_succs(&self, b: Block) -> Seq<Block>;
    spec fn v_range(&self, b: Block) -> InstRange;
    spec fn v_ops(&self, i: Inst) -> Seq<Operand>;
    spec fn v_clobbers(&self, i: Inst) -> PRegSet;
    spec fn v_params(&self, b: Block) -> Seq<VReg>;
    spec fn v_args(&self, b: Block, k: int) -> Seq<VReg>;
    spec fn v_branch(&self, i: Inst) -> bool;
    fn block_insns(&self, block: Block) -> (r: InstRange) requires block.0 < self.v_nb() ensures r == self.v_range(block);
    fn inst_operands(&self, insn: Inst) -> (r: &[Operand]) ensures r@ == self.v_ops(insn);
    fn inst_clobbers(&self, insn: Inst) -> (r: PRegSet) ensures r == self.v_clobbers(insn);
    fn block_params(&self, block: Block) -> (r: &[VReg]) requires block.0 < self.v_nb() ensures r@ == self.v_params(block);
    fn is_branch(&self, insn: Inst) -> (r: bool) ensures r == self.v_branch(insn);
    fn branch_blockparams(&self, block: Block, insn: Inst, succ_idx: usize) -> (r: &[VReg]) requires block.0 < self.v_nb(), insn.0 == self.v_range(block).1.0 - 1, succ_idx < self.v_succs(block).len() ensures r@ == self.v_args(block, succ_idx as int);
    fn num_blocks(&self) -> (r: usize) ensures r == self.v_nb();
    fn entry_block(&self) -> (r: Block) ensures r == self.v_entry();
    fn block_succs(&self, block: Block) -> (r: &[Block]) requires block.0 < self.v_nb() ensures r@ == self.v_succs(block);
}
spec fn well_formed<F: Function>(f: F) -> bool {
    &&& forall|b: Block| b.0 < f.v_nb() ==> (#[trigger] f.v_range(b)).0.0 < f.v_range(b).1.0 <= 0x7fff_ffff
    &&& forall|a: Block, b: Block| a.0 < b.0 < f.v_nb() ==> (#[trigger] f.v_range(a)).1.0 <= (#[trigger] f.v_range(b)).0.0
    &&& forall|b: Block, i: Inst| b.0 < f.v_nb() && #[trigger] f.v_range(b).has(i) && f.v_branch(i) ==> i.0 == f.v_range(b).1.0 - 1
    &&& forall|b: Block, k: int| b.0 < f.v_nb() && 0 <= k < f.v_succs(b).len() ==> (#[trigger] f.v_args(b, k)).len() == f.v_params(f.v_succs(b)[k]).len()
    &&& f.v_nb() <= u32::MAX && f.v_entry().0 < f.v_nb()
    &&& forall|b: Block, i: int| b.0 < f.v_nb() && 0 <= i < f.v_succs(b).len() ==> (#[trigger] f.v_succs(b)[i]).0 < f.v_nb()
}
//@ include ../../common/verus/inst.rs
//@ include ../../common/verus/output.rs
//@ item src/checker.rs struct Checker derive()
/// The comparison of the element types used here is equality.
pub assume_specification<T: core::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (res: bool) ensures res == s@.contains(*x);
/// Vec::extend with copies.
#[verifier::external_body]
fn vx_extend<T: Copy>(v: &mut Vec<T>, w: &Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }

/// core::iter::once(x).collect(): the set of x.
fn vx_once<K>(x: K) -> (res: K) ensures res == x { x }
fn vx_collect1<K>(x: K) -> (res: FxHashSet<K>) ensures res@ == Set::<K>::empty().insert(x) { let mut s: FxHashSet<K> = FxHashSet::default(); let _ = s.insert(x); s }
// ---- what a value and a state mean
spec fn has(v: CheckerValue, x: VReg) -> bool { v matches CheckerValue::VRegs(s) ==> s@.contains(x) }
spec fn tops(s: CheckerState) -> bool { s is Top }
spec fn amap(s: CheckerState) -> Map<Allocation, CheckerValue> { s->Allocations_0@ }
/// Location a is known to hold variable x. In a state no path reaches, every location holds every variable.
spec fn holds(s: CheckerState, a: Allocation, x: VReg) -> bool { s is Top || (amap(s).dom().contains(a) && has(amap(s)[a], x)) }
/// What is known at a point: which locations hold which variables; None where no path gets.
type Facts = spec_fn(Allocation, VReg) -> bool;
type Know = Option<Facts>;
spec fn h(k: Know, a: Allocation, x: VReg) -> bool { k is None || (k->Some_0)(a, x) }
spec fn abs(s: CheckerState) -> Know { if s is Top { None } else { Some(|a: Allocation, x: VReg| holds(s, a, x)) } }
spec fn meet(j: Know, k: Know) -> Know { if j is None { k } else if k is None { j } else { Some(|a: Allocation, x: VReg| h(j, a, x) && h(k, a, x)) } }
/// No location holds the universe.
spec fn wf(s: CheckerState) -> bool { s is Allocations ==> forall|a: Allocation| #[trigger] amap(s).dom().contains(a) ==> amap(s)[a] is VRegs }

impl Clone for CheckerValue { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
impl Clone for CheckerState { #[verifier::external_body] fn clone(&self) -> (res: Self) ensures res == *self { unimplemented!() } }
//@ fn src/checker.rs CheckerValue::default
//@ impl Default for CheckerValue
//@ spec
    ensures res is Universe
//@ end
//@ fn src/checker.rs CheckerValue::vregs_mut
//@ spec
    ensures match *old(self) {
        CheckerValue::Universe => res is None && *final(self) is Universe,
        CheckerValue::VRegs(s) => res is Some && *res->Some_0 == s && *final(self) == CheckerValue::VRegs(*final(res->Some_0)),
    }
//@ end
//@ fn src/checker.rs CheckerValue::meet_with
//@ keep retain
//@ lambda 0
    |$1: &VReg| -> (r: bool) ensures r == other_vregs@.contains(*$1)
//@ spec
    ensures forall|x: VReg| #[trigger] has(*final(self), x) <==> has(*old(self), x) && has(*other, x),
        *final(self) is VRegs <==> *old(self) is VRegs || *other is VRegs,
//@ end
//@ fn src/checker.rs CheckerValue::from_reg
//@ call collect vx_collect1
//@ spec
    ensures res is VRegs, forall|x: VReg| #[trigger] has(res, x) <==> x == reg
//@ end
//@ fn src/checker.rs CheckerValue::remove_vreg
//@ spec
    requires *old(self) is VRegs
    ensures *final(self) is VRegs, forall|x: VReg| #[trigger] has(*final(self), x) <==> has(*old(self), x) && x != reg
//@ end
//@ fn src/checker.rs CheckerValue::copy_vreg
//@ spec
    ensures *final(self) is VRegs <==> *old(self) is VRegs,
        forall|x: VReg| #[trigger] has(*final(self), x) <==> has(*old(self), x) || (x == dst && has(*old(self), src))
//@ end
//@ fn src/checker.rs CheckerValue::empty
//@ spec
    ensures res is VRegs, forall|x: VReg| !#[trigger] has(res, x)
//@ end
//@ fn src/checker.rs CheckerState::get_value
//@ spec
    ensures match res { Some(v) => !(self is Top) && amap(*self).dom().contains(*alloc) && *v == amap(*self)[*alloc], None => self is Top || !amap(*self).dom().contains(*alloc) }
//@ end
//@ fn src/checker.rs CheckerState::get_values_mut
//@ spec
    requires !(*old(self) is Top)
    ensures !(*final(self) is Top), lists(res.keys(), amap(*old(self)).dom()), res.at() == 0, res.was() == amap(*old(self)), amap(*final(self)) == res.fin(), res.fin().dom() == amap(*old(self)).dom()
//@ end
//@ fn src/checker.rs CheckerState::get_mappings_mut
//@ spec
    requires !(*old(self) is Top)
    ensures !(*final(self) is Top), lists(res.keys(), amap(*old(self)).dom()), res.at() == 0, res.was() == amap(*old(self)), amap(*final(self)) == res.fin(), res.fin().dom() == amap(*old(self)).dom()
//@ end
//@ fn src/checker.rs CheckerState::set_value
//@ spec
    requires !(*old(self) is Top)
    ensures !(*final(self) is Top), amap(*final(self)) == amap(*old(self)).insert(alloc, value)
//@ end
//@ fn src/checker.rs CheckerState::remove_value
//@ spec
    requires !(*old(self) is Top)
    ensures !(*final(self) is Top), amap(*final(self)) == amap(*old(self)).remove(*alloc)
//@ end
/// Nothing is known at the entry.
spec fn start() -> Know { Some(|a: Allocation, x: VReg| false) }
//@ fn src/checker.rs CheckerState::initial
//@ spec
    ensures wf(res), abs(res) == start()
//@ exit
    proof { assert(abs(__res)->Some_0 =~= start()->Some_0); }
//@ end
//@ fn src/checker.rs CheckerState::default
//@ impl Default for CheckerState
//@ spec
    ensures res is Top
//@ end
spec fn met(m: CheckerValue, a: CheckerValue, b: CheckerValue) -> bool {
    &&& (m is VRegs <==> a is VRegs || b is VRegs)
    &&& forall|x: VReg| #[trigger] has(m, x) <==> has(a, x) && has(b, x)
}
//@ fn src/checker.rs merge_map
//@ keep retain
//@ iter 0
//@ lambda 0
    |$1: &K, __u: &CheckerValue| -> (r: bool) ensures r == from@.dom().contains(*$1)
//@ spec
    ensures
        final(into)@.dom() =~= old(into)@.dom().intersect(from@.dom()),
        forall|k: K| #[trigger] final(into)@.dom().contains(k) ==> met(final(into)@[k], old(into)@[k], from@[k])
//@ loop 0 before
    let ghost o = __it0.was();
    let ghost fin = __it0.fin();
    let ghost ks = __it0.keys();
//@ loop 0
    invariant
        ks == __it0.keys(), __it0.was() == o, __it0.fin() == fin, lists(ks, o.dom()),
        forall|k: K| #[trigger] o.dom().contains(k) ==> from@.dom().contains(k),
        1 <= __it0.at() <= ks.len() + 1,
        __it0.at() <= ks.len() ==> __nx0 is Some && *__nx0->Some_0.0 == ks[__it0.at() - 1] && *__nx0->Some_0.1 == o[ks[__it0.at() - 1]] && *final(__nx0->Some_0.1) == fin[ks[__it0.at() - 1]],
        __it0.at() == ks.len() + 1 ==> __nx0 is None,
        forall|i: int| 0 <= i < __it0.at() - 1 ==> met(#[trigger] fin[ks[i]], o[ks[i]], from@[ks[i]]),
    decreases ks.len() + 1 - __it0.at()
//@ end
spec fn met_states(m: CheckerState, s: CheckerState, t: CheckerState) -> bool {
    &&& (m is Top <==> s is Top && t is Top)
    &&& forall|a: Allocation, x: VReg| #[trigger] holds(m, a, x) <==> holds(s, a, x) && holds(t, a, x)
}
proof fn meet_abs(m: CheckerState, s: CheckerState, t: CheckerState)
    requires met_states(m, s, t)
    ensures abs(m) == meet(abs(s), abs(t))
{
    if !(m is Top) {
        if s is Top { assert(abs(m)->Some_0 =~= abs(t)->Some_0); }
        else if t is Top { assert(abs(m)->Some_0 =~= abs(s)->Some_0); }
        else { assert(abs(m)->Some_0 =~= meet(abs(s), abs(t))->Some_0); }
    }
}
//@ fn src/checker.rs CheckerState::meet_with
//@ spec
    requires wf(*old(self)), wf(*other)
    ensures wf(*final(self)), *final(self) is Top <==> *old(self) is Top && *other is Top,
        met_states(*final(self), *old(self), *other)
//@ end
//@ fn src/checker.rs CheckerState::copy_vreg
//@ loop 0 before
    let ghost o = __it0.was();
    let ghost fin = __it0.fin();
    let ghost ks = __it0.keys();
//@ loop 0
    invariant
        ks == __it0.keys(), __it0.was() == o, __it0.fin() == fin, lists(ks, o.dom()),
        1 <= __it0.at() <= ks.len() + 1,
        __it0.at() <= ks.len() ==> __nx0 is Some && *__nx0->Some_0 == o[ks[__it0.at() - 1]] && *final(__nx0->Some_0) == fin[ks[__it0.at() - 1]],
        __it0.at() == ks.len() + 1 ==> __nx0 is None,
        forall|i: int| 0 <= i < __it0.at() - 1 ==> copied_to(#[trigger] fin[ks[i]], o[ks[i]], src, dst),
    decreases ks.len() + 1 - __it0.at()
//@ spec
    ensures
        *final(self) is Top <==> *old(self) is Top, wf(*old(self)) ==> wf(*final(self)),
        forall|a: Allocation, x: VReg| #[trigger] holds(*final(self), a, x) <==> holds(*old(self), a, x) || (x == dst && holds(*old(self), a, src))
//@ end
spec fn copied_to(m: CheckerValue, v: CheckerValue, src: VReg, dst: VReg) -> bool {
    (m is VRegs <==> v is VRegs) && forall|x: VReg| #[trigger] has(m, x) <==> has(v, x) || (x == dst && has(v, src))
}
spec fn without(m: CheckerValue, v: CheckerValue, y: VReg) -> bool {
    m is VRegs && forall|x: VReg| #[trigger] has(m, x) <==> has(v, x) && x != y
}
//@ fn src/checker.rs CheckerState::remove_vreg
//@ loop 0 before
    let ghost o = __it0.was();
    let ghost fin = __it0.fin();
    let ghost ks = __it0.keys();
//@ loop 0
    invariant
        ks == __it0.keys(), __it0.was() == o, __it0.fin() == fin, lists(ks, o.dom()),
        forall|k: Allocation| #[trigger] o.dom().contains(k) ==> o[k] is VRegs,
        1 <= __it0.at() <= ks.len() + 1,
        __it0.at() <= ks.len() ==> __nx0 is Some && *__nx0->Some_0.0 == ks[__it0.at() - 1] && *__nx0->Some_0.1 == o[ks[__it0.at() - 1]] && *final(__nx0->Some_0.1) == fin[ks[__it0.at() - 1]],
        __it0.at() == ks.len() + 1 ==> __nx0 is None,
        forall|i: int| 0 <= i < __it0.at() - 1 ==> without(#[trigger] fin[ks[i]], o[ks[i]], vreg),
    decreases ks.len() + 1 - __it0.at()
//@ spec
    requires !(*old(self) is Top), wf(*old(self))
    ensures !(*final(self) is Top), wf(*final(self)),
        forall|a: Allocation, x: VReg| #[trigger] holds(*final(self), a, x) <==> holds(*old(self), a, x) && x != vreg
//@ end

// ---- what is asked of an operand's location
spec fn fits<F: Function>(c: Checker<F>, o: Operand, a: Allocation, allocs: Seq<Allocation>) -> bool {
    let slots = c.machine_env.fixed_stack_slots@;
    match con(o) {
        OperandConstraint::Any => true,
        OperandConstraint::Reg => areg(a) is Some && !slots.contains(areg(a)->Some_0),
        OperandConstraint::Stack => akind(a) is Stack || (areg(a) is Some && slots.contains(areg(a)->Some_0)),
        OperandConstraint::FixedReg(p) => a == of_reg(p),
        OperandConstraint::Reuse(i) => akind(a) is Reg && a == allocs[i as int],
        OperandConstraint::Limit(m) => areg(a) is Some && !slots.contains(areg(a)->Some_0) && areg(a)->Some_0.hw() < m,
    }
}
/// A use must find its variable; operands that only name a register that is not allocated are free of that.
spec fn found(k: Know, o: Operand, a: Allocation) -> bool { kind(o) is Use && nonalloc(o) is None ==> h(k, a, var(o)) }
spec fn operand_ok<F: Function>(k: Know, c: Checker<F>, o: Operand, a: Allocation, allocs: Seq<Allocation>) -> bool { a != nothing() && found(k, o, a) && fits(c, o, a, allocs) }
spec fn reuse_ok(o: Operand, n: nat) -> bool { con(o) matches OperandConstraint::Reuse(i) ==> i < n }
spec fn stacky<F: Function>(c: Checker<F>, a: Allocation) -> bool { if areg(a) is Some { c.stack_pregs.mem(areg(a)->Some_0) } else { akind(a) is Stack } }
spec fn here(p: OperandPos, w: InstPosition) -> bool { (p is Early && w is Before) || (p is Late && w is After) }
spec fn inst_ok<F: Function>(k: Know, c: Checker<F>, w: InstPosition, i: CheckerInst) -> bool {
    match i {
        CheckerInst::Op { inst, operands, allocs, clobbers } => forall|j: int| 0 <= j < operands@.len() && j < allocs@.len() && here(at(#[trigger] operands@[j]), w) ==> operand_ok(k, c, operands@[j], allocs@[j], allocs@),
        CheckerInst::Move { into, from } => !(stacky(c, into) && stacky(c, from)),
        CheckerInst::ParallelMove { moves } => true,
    }
}
/// What the builder of the instruction list guarantees.
spec fn inst_wf(i: CheckerInst) -> bool {
    i matches CheckerInst::Op { inst, operands, allocs, clobbers } ==> forall|j: int| 0 <= j < operands@.len() ==> reuse_ok(#[trigger] operands@[j], allocs@.len())
}
//@ fn src/checker.rs CheckerState::check_constraint
//@ impl CheckerState
//@ spec
    requires reuse_ok(op, allocs@.len())
    ensures res is Ok <==> fits(*checker, op, alloc, allocs@)
//@ end
//@ fn src/checker.rs CheckerState::check_val
//@ impl CheckerState
//@ spec
    requires reuse_ok(op, allocs@.len())
    ensures res is Ok <==> alloc != nothing() && (!(*self is Top) && kind(op) is Use && nonalloc(op) is None ==> *val is VRegs && has(*val, var(op))) && fits(*checker, op, alloc, allocs@)
//@ end
//@ fn src/checker.rs CheckerState::check
//@ impl CheckerState
//@ lift is_stack checker
fn vx_is_stack<F: Function>(checker: &Checker<F>, $1: Allocation) -> (res: bool)
    ensures res == stacky(*checker, $1)
//@ loop 0
    invariant
        wf(*self), default_val is Universe, *checkinst is Op, operands@ == checkinst->Op_operands@, allocs@ == checkinst->Op_allocs@,
        __s0@ == operands@, __z0@ == allocs@, __i0 <= operands@.len(), __i0 <= allocs@.len(),
        forall|j: int| 0 <= j < operands@.len() ==> reuse_ok(#[trigger] operands@[j], allocs@.len()),
        forall|j: int| 0 <= j < __i0 && here(at(#[trigger] operands@[j]), pos) ==> operand_ok(abs(*self), *checker, operands@[j], allocs@[j], allocs@),
    decreases operands@.len() - __i0
//@ spec
    requires wf(*self), inst_wf(*checkinst)
//@ before self.check_val(
    proof {
        assert(here(at(operands@[__i0 - 1]), pos));
        assert(!(*self is Top) ==> (holds(*self, *alloc, var(*op)) <==> *val is VRegs && has(*val, var(*op))));
        assert(inst_ok(abs(*self), *checker, pos, *checkinst) ==> operand_ok(abs(*self), *checker, *op, *alloc, allocs@));
    }
//@ spec
    ensures res is Ok <==> inst_ok(abs(*self), *checker, pos, *checkinst)
//@ end

// ---- what an instruction does to what is known
spec fn after_defs(k: Know, ops: Seq<Operand>, allocs: Seq<Allocation>, n: int, a: Allocation, x: VReg) -> bool decreases n {
    if n <= 0 { h(k, a, x) }
    else if !(kind(ops[n - 1]) is Def) { after_defs(k, ops, allocs, n - 1, a, x) }
    else if a == allocs[n - 1] { x == var(ops[n - 1]) }
    else { after_defs(k, ops, allocs, n - 1, a, x) && x != var(ops[n - 1]) }
}
spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
spec fn is_dest(moves: Seq<(VReg, VReg)>, x: VReg) -> bool { exists|i: int| 0 <= i < moves.len() && (#[trigger] moves[i]).0 == x }
spec fn gets(moves: Seq<(VReg, VReg)>, k: Know, a: Allocation, x: VReg) -> bool { exists|i: int| 0 <= i < moves.len() && (#[trigger] moves[i]).0 == x && h(k, a, moves[i].1) }
spec fn after(k: Know, i: CheckerInst, a: Allocation, x: VReg) -> bool {
    match i {
        CheckerInst::Move { into, from } => if a == into { h(k, from, x) } else { h(k, a, x) },
        CheckerInst::ParallelMove { moves } => (h(k, a, x) && !is_dest(moves@, x)) || gets(moves@, k, a, x),
        CheckerInst::Op { inst, operands, allocs, clobbers } =>
            after_defs(k, operands@, allocs@, min(operands@.len() as int, allocs@.len() as int), a, x) && !exists|c: int| 0 <= c < clobbers@.len() && of_reg(#[trigger] clobbers@[c]) == a,
    }
}
spec fn step(k: Know, i: CheckerInst) -> Know { if k is None { None } else { Some(|a: Allocation, x: VReg| after(k, i, a, x)) } }
spec fn dest_in(moves: Seq<(VReg, VReg)>, n: int, x: VReg) -> bool { exists|i: int| 0 <= i < n && (#[trigger] moves[i]).0 == x }
spec fn pair_in(moves: Seq<(VReg, VReg)>, n: int, x: VReg, y: VReg) -> bool { exists|i: int| 0 <= i < n && #[trigger] moves[i] == (x, y) }
spec fn adds(m: Map<VReg, Vec<VReg>>, y: VReg, x: VReg) -> bool { m.dom().contains(y) && m[y]@.contains(x) }
spec fn got(moves: Seq<(VReg, VReg)>, ks: Seq<VReg>, n: int, x: VReg) -> bool { exists|i: int| 0 <= i < n && pair_in(moves, moves.len() as int, x, #[trigger] ks[i]) }
spec fn gets_v(moves: Seq<(VReg, VReg)>, v: Set<VReg>, x: VReg) -> bool { exists|i: int| 0 <= i < moves.len() && (#[trigger] moves[i]).0 == x && v.contains(moves[i].1) }
spec fn moved(m: CheckerValue, v: CheckerValue, moves: Seq<(VReg, VReg)>) -> bool {
    m is VRegs && forall|x: VReg| #[trigger] has(m, x) <==> (has(v, x) && !is_dest(moves, x)) || gets_v(moves, v->VRegs_0@, x)
}
//@ fn src/checker.rs CheckerState::update
//@ slice 0
//@ iter 2
//@ iter 3
//@ slice 5
//@ loop 0
    invariant
        __s0@ == moves@, __i0 <= moves@.len(), *self == *old(self),
        forall|x: VReg| #[trigger] deletions@.contains(x) <==> dest_in(moves@, __i0 as int, x),
        forall|y: VReg, x: VReg| #[trigger] adds(additions@, y, x) <==> pair_in(moves@, __i0 as int, x, y),
    decreases moves@.len() - __i0
//@ loop 0 begin
    let ghost a0 = additions@;
    let ghost d0 = deletions@;
    let ghost k = __i0 as int;
//@ loop 0 end
    proof {
        let (de, so) = moves@[k];
        assert forall|x: VReg| #[trigger] deletions@.contains(x) <==> dest_in(moves@, k + 1, x) by {
            assert(d0.contains(x) <==> dest_in(moves@, k, x));
            if dest_in(moves@, k + 1, x) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] moves@[i]).0 == x; if i == k { } }
            if x == de { assert(moves@[k].0 == x); }
        }
        assert forall|y: VReg, x: VReg| #[trigger] adds(additions@, y, x) <==> pair_in(moves@, k + 1, x, y) by {
            assert(adds(a0, y, x) <==> pair_in(moves@, k, x, y));
            if y == so {
                let before = if a0.dom().contains(so) { a0[so]@ } else { Seq::<VReg>::empty() };
                assert(additions@[so]@ =~= before.push(de));
                if x == de { assert(before.push(de)[before.len() as int] == x); assert(moves@[k] == (x, y)); }
                if before.contains(x) { let j = choose|j: int| 0 <= j < before.len() && before[j] == x; assert(before.push(de)[j] == x); }
                if before.push(de).contains(x) { let j = choose|j: int| 0 <= j < before.push(de).len() && before.push(de)[j] == x; if j < before.len() { assert(before[j] == x); } }
            }
            if pair_in(moves@, k + 1, x, y) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] moves@[i] == (x, y); if i == k { } }
        }
    }
//@ loop 1 before
    let ghost o = __it1.was();
    let ghost fin = __it1.fin();
    let ghost ks = __it1.keys();
//@ loop 1
    invariant
        ks == __it1.keys(), __it1.was() == o, __it1.fin() == fin, lists(ks, o.dom()),
        forall|k: Allocation| #[trigger] o.dom().contains(k) ==> o[k] is VRegs,
        forall|x: VReg| #[trigger] deletions@.contains(x) <==> dest_in(moves@, moves@.len() as int, x),
        forall|y: VReg, x: VReg| #[trigger] adds(additions@, y, x) <==> pair_in(moves@, moves@.len() as int, x, y),
        1 <= __it1.at() <= ks.len() + 1,
        __it1.at() <= ks.len() ==> __nx1 is Some && *__nx1->Some_0 == o[ks[__it1.at() - 1]] && *final(__nx1->Some_0) == fin[ks[__it1.at() - 1]],
        __it1.at() == ks.len() + 1 ==> __nx1 is None,
        forall|i: int| 0 <= i < __it1.at() - 1 ==> moved(#[trigger] fin[ks[i]], o[ks[i]], moves@),
    decreases ks.len() + 1 - __it1.at()
//@ loop 1 begin
    let ghost v0 = o[ks[__it1.at() - 1]]->VRegs_0@;
//@ loop 2 before
    let ghost ks2 = __it2.keys();
//@ loop 2
    invariant
        ks2 == __it2.keys(), lists(ks2, v0), vregs@ == v0,
        forall|y: VReg, x: VReg| #[trigger] adds(additions@, y, x) <==> pair_in(moves@, moves@.len() as int, x, y),
        1 <= __it2.at() <= ks2.len() + 1,
        __it2.at() <= ks2.len() ==> __nx2 is Some && *__nx2->Some_0 == ks2[__it2.at() - 1],
        __it2.at() == ks2.len() + 1 ==> __nx2 is None,
        forall|x: VReg| #[trigger] insertions@.contains(x) <==> got(moves@, ks2, __it2.at() - 1, x),
    decreases ks2.len() + 1 - __it2.at()
//@ loop 2 begin
    let ghost n2 = __it2.at() - 1;
    let ghost in0 = insertions@;
//@ loop 2 end
    proof {
        let y = ks2[n2];
        assert forall|x: VReg| #[trigger] insertions@.contains(x) <==> got(moves@, ks2, n2 + 1, x) by {
            let new = if additions@.dom().contains(y) { additions@[y]@ } else { Seq::<VReg>::empty() };
            assert(insertions@ =~= in0 + new);
            assert(in0.contains(x) <==> got(moves@, ks2, n2, x));
            assert(adds(additions@, y, x) <==> pair_in(moves@, moves@.len() as int, x, y));
            if new.contains(x) { let j = choose|j: int| 0 <= j < new.len() && new[j] == x; assert((in0 + new)[in0.len() + j] == x); assert(pair_in(moves@, moves@.len() as int, x, ks2[n2])); }
            if in0.contains(x) { let j = choose|j: int| 0 <= j < in0.len() && in0[j] == x; assert((in0 + new)[j] == x); }
            if insertions@.contains(x) { let j = choose|j: int| 0 <= j < insertions@.len() && insertions@[j] == x; if j < in0.len() { assert(in0[j] == x); } else { assert(new[j - in0.len()] == x); } }
            if got(moves@, ks2, n2 + 1, x) { let i = choose|i: int| 0 <= i < n2 + 1 && pair_in(moves@, moves@.len() as int, x, #[trigger] ks2[i]); if i == n2 { } }
        }
    }
//@ loop 2 after
    proof {
        assert forall|x: VReg| #[trigger] insertions@.contains(x) <==> gets_v(moves@, v0, x) by {
            assert(insertions@.contains(x) <==> got(moves@, ks2, ks2.len() as int, x));
            if gets_v(moves@, v0, x) { let i = choose|i: int| 0 <= i < moves@.len() && (#[trigger] moves@[i]).0 == x && v0.contains(moves@[i].1); assert(moves@[i] == (x, moves@[i].1)); assert(ks2.contains(moves@[i].1)); let j = choose|j: int| 0 <= j < ks2.len() && ks2[j] == moves@[i].1; assert(pair_in(moves@, moves@.len() as int, x, ks2[j])); }
            if got(moves@, ks2, ks2.len() as int, x) { let j = choose|j: int| 0 <= j < ks2.len() && pair_in(moves@, moves@.len() as int, x, #[trigger] ks2[j]); let i = choose|i: int| 0 <= i < moves@.len() && #[trigger] moves@[i] == (x, ks2[j]); assert(v0.contains(ks2[j])); assert(gets_v(moves@, v0, x)); }
        }
    }
//@ loop 3 before
    let ghost ks3 = __it3.keys();
//@ loop 3
    invariant
        ks3 == __it3.keys(), lists(ks3, deletions@),
        1 <= __it3.at() <= ks3.len() + 1,
        __it3.at() <= ks3.len() ==> __nx3 is Some && *__nx3->Some_0 == ks3[__it3.at() - 1],
        __it3.at() == ks3.len() + 1 ==> __nx3 is None,
        forall|x: VReg| #[trigger] vregs@.contains(x) <==> v0.contains(x) && !ks3.take(__it3.at() - 1).contains(x),
    decreases ks3.len() + 1 - __it3.at()
//@ loop 3 begin
    let ghost n3 = __it3.at() - 1;
    let ghost w0 = vregs@;
//@ loop 3 end
    proof {
        assert(ks3.take(n3 + 1) =~= ks3.take(n3).push(ks3[n3]));
        assert forall|x: VReg| #[trigger] vregs@.contains(x) <==> v0.contains(x) && !ks3.take(n3 + 1).contains(x) by {
            assert(w0.contains(x) <==> v0.contains(x) && !ks3.take(n3).contains(x));
            let t = ks3.take(n3);
            if x == ks3[n3] { assert(t.push(x)[n3] == x); }
            if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(t.push(ks3[n3])[j] == x); }
            if t.push(ks3[n3]).contains(x) && x != ks3[n3] { let j = choose|j: int| 0 <= j < n3 + 1 && t.push(ks3[n3])[j] == x; assert(t[j] == x); }
        }
    }
//@ loop 3 after
    proof {
        assert(ks3.take(ks3.len() as int) =~= ks3);
        assert forall|x: VReg| #[trigger] vregs@.contains(x) <==> v0.contains(x) && !is_dest(moves@, x) by { assert(deletions@.contains(x) <==> dest_in(moves@, moves@.len() as int, x)); }
    }
//@ loop 4
    invariant
        __s4@ == operands@, __z4@ == allocs@, __i4 <= operands@.len(), __i4 <= allocs@.len(),
        !(*self is Top), wf(*self), !(*old(self) is Top),
        forall|a: Allocation, x: VReg| #[trigger] holds(*self, a, x) <==> after_defs(abs(*old(self)), operands@, allocs@, __i4 as int, a, x),
    decreases operands@.len() - __i4
//@ loop 4 begin
    proof {
        let i = __i4 as int;
        assert forall|a: Allocation, x: VReg| #[trigger] after_defs(abs(*old(self)), operands@, allocs@, i + 1, a, x) == (
            if !(kind(operands@[i]) is Def) { after_defs(abs(*old(self)), operands@, allocs@, i, a, x) }
            else if a == allocs@[i] { x == var(operands@[i]) }
            else { after_defs(abs(*old(self)), operands@, allocs@, i, a, x) && x != var(operands@[i]) }) by { }
    }
//@ after self.remove_vreg(
    let ghost s1 = *self;
//@ loop 4 end
    proof { assert forall|a: Allocation, x: VReg| #[trigger] holds(*self, a, x) == (if a == *alloc { x == var(*op) } else { holds(s1, a, x) }) by { } }
//@ loop 5 begin
    let ghost s5 = *self;
    let ghost k5 = __i5 as int;
//@ loop 5 end
    proof {
        assert forall|a: Allocation, x: VReg| #[trigger] holds(*self, a, x) <==> after_defs(abs(*old(self)), operands@, allocs@, min(operands@.len() as int, allocs@.len() as int), a, x) && !exists|k: int| 0 <= k < k5 + 1 && of_reg(#[trigger] clobbers@[k]) == a by {
            assert(holds(s5, a, x) <==> after_defs(abs(*old(self)), operands@, allocs@, min(operands@.len() as int, allocs@.len() as int), a, x) && !exists|k: int| 0 <= k < k5 && of_reg(#[trigger] clobbers@[k]) == a);
            if a == of_reg(clobbers@[k5]) { } else {
                if exists|k: int| 0 <= k < k5 + 1 && of_reg(#[trigger] clobbers@[k]) == a { let k = choose|k: int| 0 <= k < k5 + 1 && of_reg(#[trigger] clobbers@[k]) == a; assert(0 <= k < k5 && of_reg(clobbers@[k]) == a); }
            }
        }
    }
//@ loop 5
    invariant
        __s5@ == clobbers@, __i5 <= clobbers@.len(),
        !(*self is Top), wf(*self), !(*old(self) is Top),
        forall|a: Allocation, x: VReg| #[trigger] holds(*self, a, x) <==> after_defs(abs(*old(self)), operands@, allocs@, min(operands@.len() as int, allocs@.len() as int), a, x) && !exists|k: int| 0 <= k < __i5 && of_reg(#[trigger] clobbers@[k]) == a,
    decreases clobbers@.len() - __i5
//@ spec
    requires wf(*old(self))
    ensures wf(*final(self)), *final(self) is Top <==> *old(self) is Top,
        abs(*final(self)) == step(abs(*old(self)), *checkinst),
//@ exit
    proof { 
        assert forall|a: Allocation, x: VReg| #[trigger] holds(*self, a, x) <==> after(abs(*old(self)), *checkinst, a, x) by { }
        assert(abs(*self)->Some_0 =~= step(abs(*old(self)), *checkinst)->Some_0);
    }
//@ end
// ---- the dataflow analysis: the largest annotation of the blocks that follows from the instructions
/// x claims no more than y.
spec fn le(x: Know, y: Know) -> bool { y is None || (x is Some && forall|a: Allocation, v: VReg| #[trigger] h(x, a, v) ==> h(y, a, v)) }
spec fn exec(k: Know, is: Seq<CheckerInst>, n: int) -> Know decreases n { if n <= 0 { k } else { step(exec(k, is, n - 1), is[n - 1]) } }
spec fn all(k: Know, is: Seq<CheckerInst>) -> Know { exec(k, is, is.len() as int) }
proof fn le_trans(x: Know, y: Know, z: Know) requires le(x, y), le(y, z) ensures le(x, z) {}
proof fn defs_mono(x: Know, y: Know, ops: Seq<Operand>, allocs: Seq<Allocation>, n: int, a: Allocation, v: VReg)
    requires le(x, y), after_defs(x, ops, allocs, n, a, v) ensures after_defs(y, ops, allocs, n, a, v) decreases n
{ if n > 0 && !(kind(ops[n - 1]) is Def && a == allocs[n - 1]) { defs_mono(x, y, ops, allocs, n - 1, a, v); } else if n <= 0 { assert(h(x, a, v)); } }
proof fn step_mono(x: Know, y: Know, i: CheckerInst) requires le(x, y) ensures le(step(x, i), step(y, i))
{
    if y is Some {
        assert forall|a: Allocation, v: VReg| #[trigger] h(step(x, i), a, v) implies h(step(y, i), a, v) by {
            assert(after(x, i, a, v));
            match i {
                CheckerInst::Op { inst, operands, allocs, clobbers } => { defs_mono(x, y, operands@, allocs@, min(operands@.len() as int, allocs@.len() as int), a, v); }
                CheckerInst::Move { into, from } => { assert(h(x, from, v) ==> h(y, from, v)); assert(h(x, a, v) ==> h(y, a, v)); }
                CheckerInst::ParallelMove { moves } => {
                    assert(h(x, a, v) ==> h(y, a, v));
                    if gets(moves@, x, a, v) { let i = choose|i: int| 0 <= i < moves@.len() && (#[trigger] moves@[i]).0 == v && h(x, a, moves@[i].1); assert(h(y, a, moves@[i].1)); }
                }
            }
        }
    }
}
proof fn exec_mono(x: Know, y: Know, is: Seq<CheckerInst>, n: int) requires le(x, y) ensures le(exec(x, is, n), exec(y, is, n)) decreases n
{ if n > 0 { exec_mono(x, y, is, n - 1); step_mono(exec(x, is, n - 1), exec(y, is, n - 1), is[n - 1]); } }
proof fn meet_glb(x: Know, y: Know, z: Know) ensures le(meet(x, y), x), le(meet(x, y), y), le(z, x) && le(z, y) ==> le(z, meet(x, y)) {}
proof fn ok_mono<F: Function>(x: Know, y: Know, c: Checker<F>, w: InstPosition, i: CheckerInst) requires le(x, y), inst_ok(x, c, w, i) ensures inst_ok(y, c, w, i)
{
    if let CheckerInst::Op { inst, operands, allocs, clobbers } = i {
        assert forall|j: int| 0 <= j < operands@.len() && j < allocs@.len() && here(at(#[trigger] operands@[j]), w) implies operand_ok(y, c, operands@[j], allocs@[j], allocs@) by {
            assert(operand_ok(x, c, operands@[j], allocs@[j], allocs@)); assert(h(x, allocs@[j], var(operands@[j])) ==> h(y, allocs@[j], var(operands@[j])));
        }
    }
}
type Annot = spec_fn(Block) -> Know;
spec fn body<F: Function>(c: Checker<F>, b: Block) -> Seq<CheckerInst> { c.bb_insts@[b]@ }
spec fn flow<F: Function>(c: Checker<F>, k: Know, b: Block, s: Block) -> Know { all(all(k, body(c, b)), c.edge_insts@[(b, s)]@) }
spec fn flows<F: Function>(c: Checker<F>, x: Annot, b: Block, i: int) -> bool { le(x(c.f.v_succs(b)[i]), flow(c, x(b), b, c.f.v_succs(b)[i])) }
/// x claims nothing at the entry, and at each block nothing that does not follow along each of its in-edges.
spec fn annot<F: Function>(c: Checker<F>, x: Annot) -> bool {
    &&& le(x(c.f.v_entry()), start())
    &&& forall|b: Block, i: int| b.0 < c.f.v_nb() && 0 <= i < c.f.v_succs(b).len() ==> #[trigger] flows(c, x, b, i)
}
spec fn inst_at_ok<F: Function>(c: Checker<F>, k: Know, b: Block, n: int) -> bool {
    inst_ok(exec(k, body(c, b), n), c, InstPosition::Before, body(c, b)[n]) && inst_ok(exec(k, body(c, b), n + 1), c, InstPosition::After, body(c, b)[n])
}
spec fn block_ok<F: Function>(c: Checker<F>, k: Know, b: Block) -> bool { forall|n: int| 0 <= n < body(c, b).len() ==> #[trigger] inst_at_ok(c, k, b, n) }
/// Under x every operand of every instruction finds its variable and sits where it may.
spec fn good<F: Function>(c: Checker<F>, x: Annot) -> bool { annot(c, x) && forall|b: Block| b.0 < c.f.v_nb() ==> #[trigger] block_ok(c, x(b), b) }
/// What `new` and `prepare` leave behind.
spec fn ready<F: Function>(c: Checker<F>) -> bool {
    &&& well_formed(*c.f)
    &&& forall|b: Block| #[trigger] c.bb_insts@.dom().contains(b) <==> b.0 < c.f.v_nb()
    &&& forall|b: Block, i: int| b.0 < c.f.v_nb() && 0 <= i < c.f.v_succs(b).len() ==> #[trigger] c.edge_insts@.dom().contains((b, c.f.v_succs(b)[i]))
    &&& forall|b: Block, n: int| b.0 < c.f.v_nb() && 0 <= n < body(c, b).len() ==> inst_wf(#[trigger] body(c, b)[n]) && !(body(c, b)[n] is ParallelMove)
    &&& forall|b: Block, s: Block, n: int| c.edge_insts@.dom().contains((b, s)) && 0 <= n < c.edge_insts@[(b, s)]@.len() ==> (#[trigger] c.edge_insts@[(b, s)]@[n]) is ParallelMove
}
spec fn states_ok<F: Function>(c: Checker<F>) -> bool {
    forall|b: Block| (#[trigger] c.bb_in@.dom().contains(b) <==> b.0 < c.f.v_nb()) && (b.0 < c.f.v_nb() ==> wf(c.bb_in@[b]))
}
spec fn known_at<F: Function>(c: Checker<F>) -> Annot { |b: Block| abs(c.bb_in@[b]) }
spec fn fresh<F: Function>(c: Checker<F>) -> bool {
    states_ok(c) && forall|b: Block| b.0 < c.f.v_nb() ==> abs(#[trigger] c.bb_in@[b]) == (if b == c.f.v_entry() { start() } else { None })
}
spec fn rest_same<F: Function>(c: Checker<F>, d: Checker<F>) -> bool { c.f == d.f && c.bb_insts == d.bb_insts && c.edge_insts == d.edge_insts && c.machine_env == d.machine_env && c.stack_pregs == d.stack_pregs }
/// x is the largest annotation.
spec fn largest<F: Function>(c: Checker<F>, x: Annot) -> bool {
    annot(c, x) && forall|y: Annot, b: Block| annot(c, y) && b.0 < c.f.v_nb() ==> le(#[trigger] y(b), x(b))
}
spec fn below<F: Function>(c: Checker<F>, x: Annot) -> bool { forall|y: Annot, b: Block| annot(c, y) && b.0 < c.f.v_nb() ==> le(#[trigger] y(b), x(b)) }
spec fn settled<F: Function>(c: Checker<F>, x: Annot, b: Block) -> bool { forall|i: int| 0 <= i < c.f.v_succs(b).len() ==> #[trigger] flows(c, x, b, i) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for CheckerState { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &CheckerState) -> bool { *self == *o } }
impl PartialEq for CheckerState { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
proof fn same_annot<F: Function>(c: Checker<F>, d: Checker<F>, x: Annot) requires rest_same(c, d) ensures annot(c, x) <==> annot(d, x)
{
    if annot(c, x) { assert forall|b: Block, i: int| b.0 < d.f.v_nb() && 0 <= i < d.f.v_succs(b).len() implies #[trigger] flows(d, x, b, i) by { assert(flows(c, x, b, i)); } }
    if annot(d, x) { assert forall|b: Block, i: int| b.0 < c.f.v_nb() && 0 <= i < c.f.v_succs(b).len() implies #[trigger] flows(c, x, b, i) by { assert(flows(d, x, b, i)); } }
}
proof fn push_has(q: Seq<Block>, b: Block)
    ensures forall|x: Block| #[trigger] q.push(b).contains(x) <==> q.contains(x) || x == b
{
    assert forall|x: Block| #[trigger] q.push(b).contains(x) <==> q.contains(x) || x == b by {
        let p = q.push(b);
        if x == b { assert(p[q.len() as int] == x); }
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i] == x); }
        if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; if i < q.len() { assert(q[i] == x); } }
    }
}
//@ fn src/checker.rs Checker::analyze
//@ attr verifier::exec_allows_no_decreases_clause
//@ slice 2
//@ slice 3
//@ slice 4
//@ entry
    let ghost c = *self;
    proof {
        assert forall|y: Annot, b: Block| annot(c, y) && b.0 < c.f.v_nb() implies le(#[trigger] y(b), known_at(c)(b)) by { assert(le(y(c.f.v_entry()), start())); assert(abs(c.bb_in@[b]) == known_at(c)(b)); }
        assert(known_at(c)(c.f.v_entry()) == abs(c.bb_in@[c.f.v_entry()]));
    }
//@ loop 0
    invariant
        __i0 <= c.f.v_nb(), __n0 == 0, c == *self, ready(c), c == *old(self),
        forall|b: Block| #[trigger] queue_set@.contains(b) ==> queue@.contains(b),
        forall|b: Block| #[trigger] queue@.contains(b) ==> b.0 < c.f.v_nb(),
        forall|b: Block| __i0 <= b.0 < c.f.v_nb() ==> #[trigger] queue_set@.contains(b),
    decreases __i0
//@ loop 0 begin
    let ghost q0 = queue@;
//@ loop 0 end
    proof { push_has(q0, Block(__i0 as u32)); assert(queue@ == q0.push(Block(__i0 as u32))); }
//@ loop 1
    invariant_except_break
        forall|b: Block| #[trigger] queue_set@.contains(b) ==> queue@.contains(b),
        forall|b: Block| #[trigger] queue@.contains(b) ==> b.0 < c.f.v_nb(),
    invariant
        c == *old(self), ready(c), rest_same(*self, c), states_ok(*self), below(c, known_at(*self)), le(known_at(*self)(c.f.v_entry()), start()),
        forall|b: Block| b.0 < c.f.v_nb() && !queue_set@.contains(b) ==> #[trigger] settled(c, known_at(*self), b),
    ensures
        forall|b: Block| !#[trigger] queue_set@.contains(b),
//@ loop 1 begin
    let ghost q1 = queue@;
    let ghost qs1 = queue_set@;
//@ loop 1 bound
    let ghost x0 = known_at(*self);
    proof {
        assert(q1 == queue@.push(block));
        assert forall|b: Block| #[trigger] queue@.contains(b) implies b.0 < c.f.v_nb() by { push_has(queue@, block); assert(q1.contains(b)); }
        push_has(queue@, block); assert(q1.contains(block));
    }
//@ after queue_set.remove(
    proof { assert forall|b: Block| #[trigger] queue_set@.contains(b) implies queue@.contains(b) by { push_has(queue@, block); assert(qs1.contains(b)); assert(q1.contains(b)); } }
//@ loop 2
    invariant
        __s2@ == body(c, block), __i2 <= body(c, block).len(), wf(state), abs(state) == exec(x0(block), body(c, block), __i2 as int),
    decreases body(c, block).len() - __i2
//@ loop 3
    invariant
        forall|b: Block| #[trigger] queue_set@.contains(b) ==> queue@.contains(b),
        forall|b: Block| #[trigger] queue@.contains(b) ==> b.0 < c.f.v_nb(),
        c == *old(self), ready(c), rest_same(*self, c), states_ok(*self), below(c, known_at(*self)), le(known_at(*self)(c.f.v_entry()), start()),
        forall|b: Block| b.0 < c.f.v_nb() && b != block && !queue_set@.contains(b) ==> #[trigger] settled(c, known_at(*self), b),
        block.0 < c.f.v_nb(), __s3@ == c.f.v_succs(block), __i3 <= c.f.v_succs(block).len(),
        wf(state), abs(state) == all(x0(block), body(c, block)), le(known_at(*self)(block), x0(block)),
        below(c, x0),
        !queue_set@.contains(block) ==> known_at(*self)(block) == x0(block),
        forall|i: int| 0 <= i < __i3 ==> le(known_at(*self)(#[trigger] c.f.v_succs(block)[i]), flow(c, x0(block), block, c.f.v_succs(block)[i])),
    decreases c.f.v_succs(block).len() - __i3
//@ loop 3 begin
    let ghost i3 = __i3 as int;
    let ghost x3 = known_at(*self);
    let ghost qs3 = queue_set@;
    let ghost q3 = queue@;
//@ loop 4
    invariant
        succ == c.f.v_succs(block)[i3], __s4@ == c.edge_insts@[(block, succ)]@, __i4 <= __s4@.len(), wf(new_state), abs(new_state) == exec(abs(state), __s4@, __i4 as int),
    decreases __s4@.len() - __i4
//@ before new_state.meet_with
    let ghost ns = new_state;
//@ after new_state.meet_with
    proof { meet_abs(new_state, ns, *cur_succ_in); meet_glb(abs(ns), abs(*cur_succ_in), start());
        assert forall|y: Annot| annot(c, y) implies le(#[trigger] y(succ), abs(new_state)) by {
            assert(le(y(block), x0(block)));
            assert(flows(c, y, block, i3));
            exec_mono(y(block), x0(block), body(c, block), body(c, block).len() as int);
            exec_mono(all(y(block), body(c, block)), all(x0(block), body(c, block)), c.edge_insts@[(block, succ)]@, c.edge_insts@[(block, succ)]@.len() as int);
            meet_glb(abs(ns), abs(*cur_succ_in), y(succ));
            assert(le(y(succ), x3(succ)));
        }
    }
    let ghost nk = abs(new_state);
//@ loop 3 end
    proof {
        let x = known_at(*self);
        push_has(q3, succ);
        assert(forall|b: Block| #[trigger] x(b) == if b == succ { nk } else { x3(b) });
        assert(le(nk, x3(succ)));
        assert forall|b: Block| b.0 < c.f.v_nb() && b != block && !queue_set@.contains(b) implies #[trigger] settled(c, x, b) by {
            assert(settled(c, x3, b));
            assert forall|i: int| 0 <= i < c.f.v_succs(b).len() implies #[trigger] flows(c, x, b, i) by {
                assert(flows(c, x3, b, i));
                assert(le(x(c.f.v_succs(b)[i]), x3(c.f.v_succs(b)[i])));
            }
        }
    }
//@ loop 3 after
    proof {
        if !queue_set@.contains(block) { assert forall|i: int| 0 <= i < c.f.v_succs(block).len() implies #[trigger] flows(c, known_at(*self), block, i) by { assert(le(known_at(*self)(c.f.v_succs(block)[i]), flow(c, x0(block), block, c.f.v_succs(block)[i]))); } assert(settled(c, known_at(*self), block)); }
    }
//@ exit
    proof {
        assert forall|b: Block, i: int| b.0 < c.f.v_nb() && 0 <= i < c.f.v_succs(b).len() implies #[trigger] flows(c, known_at(*self), b, i) by { assert(settled(c, known_at(*self), b)); }
        assert(annot(c, known_at(*self)));
        assert forall|y: Annot| annot(*self, y) <==> #[trigger] annot(c, y) by { same_annot(*self, c, y); }
        same_annot(*self, c, known_at(*self));
    }
//@ spec
    requires ready(*old(self)), fresh(*old(self))
    ensures rest_same(*final(self), *old(self)), states_ok(*final(self)), largest(*final(self), known_at(*final(self)))
//@ end
/// Iteration over a map, each key once, in some order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxMapIter<'a, K, V> { p: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> VxMapIter<'a, K, V> {
    uninterp spec fn keys(&self) -> Seq<K>;
    uninterp spec fn at(&self) -> int;
    uninterp spec fn was(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<(&'a K, &'a V)>)
        ensures final(self).keys() == old(self).keys(), final(self).was() == old(self).was(), final(self).at() == old(self).at() + 1,
            old(self).at() >= old(self).keys().len() ==> res is None,
            old(self).at() < old(self).keys().len() ==> res is Some && *res->Some_0.0 == old(self).keys()[old(self).at()] && *res->Some_0.1 == old(self).was()[*res->Some_0.0]
    { unimplemented!() }
}
impl<'a, K, V> VxInto for &'a FxHashMap<K, V> {
    type Out = VxMapIter<'a, K, V>;
    spec fn rel(self, r: VxMapIter<'a, K, V>) -> bool { lists(r.keys(), self@.dom()) && r.at() == 0 && r.was() == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VxMapIter<'a, K, V>) { unimplemented!() }
}
//@ item src/checker.rs struct CheckerErrors derive()
//@ fn src/checker.rs Checker::find_errors
//@ iter 0
//@ slice 1
//@ loop 0 before
    let ghost ks = __it0.keys();
//@ loop 0
    invariant
        ready(*self), states_ok(*self), ks == __it0.keys(), __it0.was() == self.bb_in@, lists(ks, self.bb_in@.dom()),
        1 <= __it0.at() <= ks.len() + 1,
        __it0.at() <= ks.len() ==> __nx0 is Some && *__nx0->Some_0.0 == ks[__it0.at() - 1] && *__nx0->Some_0.1 == self.bb_in@[ks[__it0.at() - 1]],
        __it0.at() == ks.len() + 1 ==> __nx0 is None,
        errors@.len() == 0 <==> forall|i: int| 0 <= i < __it0.at() - 1 ==> block_ok(*self, known_at(*self)(ks[i]), #[trigger] ks[i]),
    decreases ks.len() + 1 - __it0.at()
//@ loop 0 begin
    let ghost k0 = __it0.at() - 1;
    let ghost e0 = errors@;
//@ loop 1
    invariant
        ready(*self), states_ok(*self), block.0 < self.f.v_nb(), __s1@ == body(*self, *block), __i1 <= body(*self, *block).len(), *block == ks[k0],
        wf(state), abs(state) == exec(known_at(*self)(*block), body(*self, *block), __i1 as int),
        errors@.len() == 0 <==> e0.len() == 0 && forall|n: int| 0 <= n < __i1 ==> #[trigger] inst_at_ok(*self, known_at(*self)(*block), *block, n),
    decreases body(*self, *block).len() - __i1
//@ loop 1 begin
    let ghost n1 = __i1 as int;
    let ghost e1 = errors@;
//@ loop 1 end
    proof { assert(errors@.len() == 0 <==> e1.len() == 0 && inst_at_ok(*self, known_at(*self)(*block), *block, n1)); }
//@ loop 0 after
    proof {
        if errors@.len() == 0 { assert forall|b: Block| b.0 < self.f.v_nb() implies #[trigger] block_ok(*self, known_at(*self)(b), b) by { assert(self.bb_in@.dom().contains(b)); assert(ks.contains(b)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == b; assert(block_ok(*self, known_at(*self)(ks[i]), ks[i])); } }
        else { let i = choose|i: int| 0 <= i < ks.len() && !block_ok(*self, known_at(*self)(ks[i]), #[trigger] ks[i]); assert(self.bb_in@.dom().contains(ks[i])); }
    }
//@ spec
    requires ready(*self), states_ok(*self)
    ensures res is Ok <==> forall|b: Block| b.0 < self.f.v_nb() ==> #[trigger] block_ok(*self, known_at(*self)(b), b)
//@ end
/// Some string (only printed).
struct VxString { }
fn vx_format() -> (res: VxString) { VxString { } }
//@ fn src/checker.rs Checker::run
//@ drop print_state
//@ slice 1
//@ slice 2
//@ slice 3
//@ collect 4 VxString
//@ loop 0
    invariant ready(__this), states_ok(__this), __n0 == __this.f.v_nb()
    decreases __n0 - __i0
//@ loop 1
    invariant ready(__this), wf(state), bb.0 < __this.f.v_nb(), __s1@ == body(__this, bb), __i1 <= __s1@.len()
    decreases __s1@.len() - __i1
//@ loop 2
    invariant ready(__this), wf(state), bb.0 < __this.f.v_nb(), __s2@ == __this.f.v_succs(bb), __i2 <= __s2@.len()
    decreases __s2@.len() - __i2
//@ loop 3
    invariant ready(__this), wf(state), bb.0 < __this.f.v_nb(), __this.edge_insts@.dom().contains((bb, succ)), __s3@ == __this.edge_insts@[(bb, succ)]@, __i3 <= __s3@.len()
    decreases __s3@.len() - __i3
//@ loop 4
    decreases moves@.len() - __i4
//@ spec
    requires ready(self), fresh(self)
    ensures res is Ok <==> exists|x: Annot| #[trigger] good(self, x)
//@ after .analyze()
    proof { same_ready(self, __this); }
//@ after let result =
    proof {
        let x = known_at(__this);
        same_annot(self, __this, x);
        if result is Ok {
            assert forall|b: Block| b.0 < self.f.v_nb() implies #[trigger] block_ok(self, x(b), b) by { assert(block_ok(__this, x(b), b)); same_ok(__this, self, x(b), b); }
            assert(good(self, x));
        }
        if exists|y: Annot| #[trigger] good(self, y) {
            let y = choose|y: Annot| #[trigger] good(self, y);
            same_annot(self, __this, y);
            assert forall|b: Block| b.0 < self.f.v_nb() implies #[trigger] block_ok(__this, x(b), b) by {
                assert(block_ok(self, y(b), b)); same_ok(self, __this, y(b), b); assert(le(y(b), x(b)));
                assert forall|n: int| 0 <= n < body(__this, b).len() implies #[trigger] inst_at_ok(__this, x(b), b, n) by {
                    assert(inst_at_ok(__this, y(b), b, n));
                    exec_mono(y(b), x(b), body(__this, b), n); exec_mono(y(b), x(b), body(__this, b), n + 1);
                    ok_mono(exec(y(b), body(__this, b), n), exec(x(b), body(__this, b), n), __this, InstPosition::Before, body(__this, b)[n]);
                    ok_mono(exec(y(b), body(__this, b), n + 1), exec(x(b), body(__this, b), n + 1), __this, InstPosition::After, body(__this, b)[n]);
                }
            }
        }
    }
//@ end
proof fn same_ready<F: Function>(c: Checker<F>, d: Checker<F>) requires rest_same(d, c), ready(c) ensures ready(d)
{
    assert forall|b: Block, n: int| b.0 < d.f.v_nb() && 0 <= n < body(d, b).len() implies inst_wf(#[trigger] body(d, b)[n]) && !(body(d, b)[n] is ParallelMove) by { assert(body(d, b) == body(c, b)); assert(inst_wf(body(c, b)[n])); }
    assert forall|b: Block, i: int| b.0 < d.f.v_nb() && 0 <= i < d.f.v_succs(b).len() implies #[trigger] d.edge_insts@.dom().contains((b, d.f.v_succs(b)[i])) by { assert(c.edge_insts@.dom().contains((b, c.f.v_succs(b)[i]))); }
}
proof fn same_ok<F: Function>(c: Checker<F>, d: Checker<F>, k: Know, b: Block) requires rest_same(c, d), block_ok(c, k, b) ensures block_ok(d, k, b)
{
    assert forall|n: int| 0 <= n < body(d, b).len() implies #[trigger] inst_at_ok(d, k, b, n) by {
        assert(inst_at_ok(c, k, b, n));
        same_inst(c, d, exec(k, body(c, b), n), InstPosition::Before, body(c, b)[n]);
        same_inst(c, d, exec(k, body(c, b), n + 1), InstPosition::After, body(c, b)[n]);
    }
}
proof fn same_inst<F: Function>(c: Checker<F>, d: Checker<F>, k: Know, w: InstPosition, i: CheckerInst) requires rest_same(c, d), inst_ok(k, c, w, i) ensures inst_ok(k, d, w, i)
{
    if let CheckerInst::Op { inst, operands, allocs, clobbers } = i {
        assert forall|j: int| 0 <= j < operands@.len() && j < allocs@.len() && here(at(#[trigger] operands@[j]), w) implies operand_ok(k, d, operands@[j], allocs@[j], allocs@) by {
            assert(operand_ok(k, c, operands@[j], allocs@[j], allocs@)); }
    }
}

// ---- what the checker is built from: the function and the output
spec fn edge_of<F: Function>(f: F, b: Block, s: Block) -> bool { b.0 < f.v_nb() && f.v_succs(b).contains(s) }
/// Empty lists for all blocks and edges.
spec fn blank<F: Function>(c: Checker<F>) -> bool {
    &&& forall|b: Block| (#[trigger] c.bb_insts@.dom().contains(b) <==> b.0 < c.f.v_nb()) && (b.0 < c.f.v_nb() ==> c.bb_insts@[b]@.len() == 0)
    &&& forall|b: Block, s: Block| (#[trigger] c.edge_insts@.dom().contains((b, s)) <==> edge_of(*c.f, b, s)) && (edge_of(*c.f, b, s) ==> c.edge_insts@[(b, s)]@.len() == 0)
}
spec fn seen<A>(q: Seq<A>, n: int, x: A) -> bool { exists|i: int| 0 <= i < n && #[trigger] q[i] == x }
proof fn seen_step<A>(q: Seq<A>, n: int) requires 0 <= n < q.len() ensures forall|x: A| #[trigger] seen(q, n + 1, x) <==> seen(q, n, x) || x == q[n]
{
    assert forall|x: A| #[trigger] seen(q, n + 1, x) <==> seen(q, n, x) || x == q[n] by {
        if seen(q, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] q[i] == x; if i < n { assert(seen(q, n, x)); } }
        if x == q[n] { assert(seen(q, n + 1, x)); }
        if seen(q, n, x) { let i = choose|i: int| 0 <= i < n && #[trigger] q[i] == x; assert(0 <= i < n + 1 && q[i] == x); }
    }
}
proof fn seen_all<A>(q: Seq<A>) ensures forall|x: A| #[trigger] q.contains(x) <==> seen(q, q.len() as int, x), forall|x: A| !#[trigger] seen(q, 0, x)
{ assert forall|x: A| #[trigger] q.contains(x) <==> seen(q, q.len() as int, x) by { if seen(q, q.len() as int, x) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == x; } if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(0 <= i < q.len() && q[i] == x); } } }
spec fn all_top(m: Map<Block, CheckerState>, n: int) -> bool { forall|b: Block| (#[trigger] m.dom().contains(b) <==> b.0 < n) && (b.0 < n ==> m[b] is Top) }
spec fn no_insts(m: Map<Block, Vec<CheckerInst>>, n: int) -> bool { forall|b: Block| (#[trigger] m.dom().contains(b) <==> b.0 < n) && (b.0 < n ==> m[b]@.len() == 0) }
/// The edges of the blocks before n, and the first k of block n.
spec fn no_edge_insts<F: Function>(m: Map<(Block, Block), Vec<CheckerInst>>, f: F, n: int, k: int) -> bool {
    forall|b: Block, s: Block| (#[trigger] m.dom().contains((b, s)) <==> (b.0 < n && edge_of(f, b, s)) || (b.0 == n && b.0 < f.v_nb() && seen(f.v_succs(b), k, s))) && (m.dom().contains((b, s)) ==> m[(b, s)]@.len() == 0)
}
impl PRegSet {
    #[verifier::external_body]
    fn empty() -> (res: PRegSet) ensures forall|r: PReg| !#[trigger] res.mem(r) { unimplemented!() }
    #[verifier::external_body]
    fn add(&mut self, p: PReg) ensures forall|r: PReg| #[trigger] final(self).mem(r) <==> old(self).mem(r) || r == p { unimplemented!() }
}
//@ fn src/checker.rs Checker::new
//@ slice 1
//@ loop 0
    invariant
        well_formed(*f), __n0 == f.v_nb(), __i0 <= __n0,
        all_top(bb_in@, __i0 as int), no_insts(bb_insts@, __i0 as int), no_edge_insts(edge_insts@, *f, __i0 as int, 0),
    decreases __n0 - __i0
//@ loop 1
    invariant
        well_formed(*f), block.0 < f.v_nb(), block.0 == __i0 - 1, __s1@ == f.v_succs(block), __i1 <= __s1@.len(),
        no_edge_insts(edge_insts@, *f, block.0 as int, __i1 as int),
    decreases __s1@.len() - __i1
//@ loop 1 begin
    proof { seen_step(__s1@, __i1 as int); }
//@ loop 1 after
    proof { seen_all(f.v_succs(block));
        assert forall|b: Block, s: Block| (#[trigger] edge_insts@.dom().contains((b, s)) <==> b.0 < block.0 + 1 && edge_of(*f, b, s)) && (edge_insts@.dom().contains((b, s)) ==> edge_insts@[(b, s)]@.len() == 0) by { if b.0 == block.0 { assert(b == block); } }
        if block.0 + 1 < f.v_nb() { seen_all(f.v_succs(Block((block.0 + 1) as u32))); }
    }
//@ loop 2
    invariant
        __s2@ == machine_env.fixed_stack_slots@, __i2 <= __s2@.len(),
        forall|r: PReg| #[trigger] stack_pregs.mem(r) <==> seen(__s2@, __i2 as int, r),
    decreases __s2@.len() - __i2
//@ loop 2 begin
    proof { seen_step(__s2@, __i2 as int); }
//@ exit
    proof {
        seen_all(machine_env.fixed_stack_slots@);
        assert forall|b: Block| (#[trigger] __res.bb_in@.dom().contains(b) <==> b.0 < f.v_nb()) && (b.0 < f.v_nb() ==> wf(__res.bb_in@[b])) by { }
        assert forall|b: Block| b.0 < f.v_nb() implies abs(#[trigger] __res.bb_in@[b]) == (if b == f.v_entry() { start() } else { None }) by { assert(__res.bb_in@.dom().contains(b)); }
    }
//@ spec
    requires well_formed(*f)
    ensures res.f == f, res.machine_env == machine_env, fresh(res), blank(res),
        forall|r: PReg| #[trigger] res.stack_pregs.mem(r) <==> machine_env.fixed_stack_slots@.contains(r)
//@ end

/// The instruction list entry for an item of the output view.
spec fn made<F: Function>(f: F, out: Output, x: Item, ci: CheckerInst) -> bool {
    match x {
        Item::I(i) => ci is Op && ci->Op_inst == i && ci->Op_operands@ == f.v_ops(i) && ci->Op_allocs@ == portion(out, i.0 as int) && forall|r: PReg| #[trigger] ci->Op_clobbers@.contains(r) <==> f.v_clobbers(i).mem(r),
        Item::E(Edit::Move { from, to }) => ci == CheckerInst::Move { into: to, from },
    }
}
spec fn makes<F: Function>(f: F, out: Output, xs: Seq<Item>, cis: Seq<CheckerInst>) -> bool { cis.len() == xs.len() && forall|n: int| 0 <= n < xs.len() ==> made(f, out, xs[n], #[trigger] cis[n]) }
/// Among the first n successors of b those that are s and get arguments.
spec fn passed<F: Function>(f: F, b: Block, s: Block, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else if f.v_succs(b)[n - 1] == s && f.v_args(b, n - 1).len() > 0 { passed(f, b, s, n - 1).push(n - 1) } else { passed(f, b, s, n - 1) }
}
spec fn zipped(m: Seq<(VReg, VReg)>, p: Seq<VReg>, a: Seq<VReg>) -> bool { m.len() == p.len() && p.len() == a.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (p[i], a[i]) }
spec fn binds<F: Function>(f: F, b: Block, s: Block, k: int, ci: CheckerInst) -> bool { ci is ParallelMove && zipped(ci->ParallelMove_moves@, f.v_params(s), f.v_args(b, k)) }
type EdgeMap = Map<(Block, Block), Vec<CheckerInst>>;
/// m is o with the moves for the first n successors of b appended on their edges.
spec fn grown<F: Function>(m: EdgeMap, o: EdgeMap, f: F, b: Block, n: int) -> bool {
    &&& m.dom() =~= o.dom()
    &&& forall|x: Block, s: Block| #[trigger] o.dom().contains((x, s)) ==> (if x != b { m[(x, s)] == o[(x, s)] } else { grown1(m[(x, s)]@, o[(x, s)]@, f, b, s, n) })
}
spec fn grown1<F: Function>(m: Seq<CheckerInst>, o: Seq<CheckerInst>, f: F, b: Block, s: Block, n: int) -> bool {
    &&& m.len() == o.len() + passed(f, b, s, n).len() && m.take(o.len() as int) =~= o
    &&& forall|j: int| 0 <= j < passed(f, b, s, n).len() ==> binds(f, b, s, passed(f, b, s, n)[j], #[trigger] m[o.len() + j])
}
fn vx_zip_collect<A: Copy, B: Copy>(a: &[A], b: &[B]) -> (res: Vec<(A, B)>)
    ensures res@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == (a@[i], b@[i])
{
    let mut v: Vec<(A, B)> = Vec::new();
    let mut i: usize = 0;
    while i < a.len() && i < b.len()
        invariant i <= a@.len(), i <= b@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == (a@[k], b@[k])
        decreases a@.len() - i
    { v.push((a[i], b[i])); i = i + 1; }
    v
}
/// The elements of a slice, copied.
#[verifier::external_body]
fn vx_to_vec<T: Copy>(s: &[T]) -> (res: Vec<T>) ensures res@ == s@ { s.to_vec() }
spec fn keyed<F: Function>(c: Checker<F>) -> bool {
    &&& forall|b: Block| #[trigger] c.bb_insts@.dom().contains(b) <==> b.0 < c.f.v_nb()
    &&& forall|b: Block, s: Block| #[trigger] c.edge_insts@.dom().contains((b, s)) <==> edge_of(*c.f, b, s)
}
//@ fn src/checker.rs Checker::handle_edit
//@ exit
    proof { assert(self.bb_insts@[block]@.drop_last() =~= old(self).bb_insts@[block]@); assert(self.bb_insts@ =~= old(self).bb_insts@.insert(block, self.bb_insts@[block])); }
//@ spec
    requires old(self).bb_insts@.dom().contains(block)
    ensures final(self).f == old(self).f, final(self).bb_in == old(self).bb_in, final(self).edge_insts == old(self).edge_insts, final(self).machine_env == old(self).machine_env, final(self).stack_pregs == old(self).stack_pregs,
        added(final(self).bb_insts@, old(self).bb_insts@, block), match *edit { Edit::Move { from, to } => final(self).bb_insts@[block]@.last() == CheckerInst::Move { into: to, from } }
//@ end
spec fn added(m: Map<Block, Vec<CheckerInst>>, o: Map<Block, Vec<CheckerInst>>, b: Block) -> bool {
    m == o.insert(b, m[b]) && m[b]@.len() == o[b]@.len() + 1 && m[b]@.drop_last() == o[b]@
}
proof fn push_sets<A>(v: Vec<A>, w: Seq<A>, x: A) requires v@ == w.push(x) ensures v@.drop_last() == w, v@.last() == x { assert(v@.drop_last() =~= w); }
//@ fn src/checker.rs Checker::handle_inst
//@ entry
    let ghost c = *self;
//@ after .push(checkinst)
    proof { assert(self.bb_insts@[block]@.drop_last() =~= c.bb_insts@[block]@); assert(self.bb_insts@ =~= c.bb_insts@.insert(block, self.bb_insts@[block]));
        let l = self.bb_insts@[block]@.last();
        assert(l is Op); assert(l->Op_inst == inst); assert(l->Op_operands@ == c.f.v_ops(inst)); assert(l->Op_allocs@ == portion(*out, inst.0 as int));
        assert forall|r: PReg| #[trigger] l->Op_clobbers@.contains(r) <==> c.f.v_clobbers(inst).mem(r) by {
            let q = l->Op_clobbers@;
            if q.contains(r) { let i = choose|i: int| 0 <= i < q.len() && q[i] == r; assert(0 <= i < q.len()); assert(c.f.v_clobbers(inst).mem(q[i])); }
            if c.f.v_clobbers(inst).mem(r) { assert(c.f.v_clobbers(inst).mem(r)); assert(exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == r); }
        }
        assert(made(*c.f, *out, Item::I(inst), l)); }
//@ loop 0 before
    let ghost c1 = *self;
//@ loop 0
    invariant
        well_formed(*c.f), keyed(c), block.0 < c.f.v_nb(), inst.0 == c.f.v_range(block).1.0 - 1, __s0@ == c.f.v_succs(block), __i0 <= __s0@.len(),
        self.f == c.f, self.bb_in == c.bb_in, self.machine_env == c.machine_env, self.stack_pregs == c.stack_pregs, self.bb_insts == c1.bb_insts,
        grown(self.edge_insts@, c.edge_insts@, *c.f, block, __i0 as int),
    decreases __s0@.len() - __i0
//@ loop 0 begin
    let ghost e0 = self.edge_insts@;
//@ loop 0 end
    proof {
        let n = i as int;
        assert(edge_of(*c.f, block, succ));
        assert forall|x: Block, s: Block| #[trigger] c.edge_insts@.dom().contains((x, s)) implies (if x != block { self.edge_insts@[(x, s)] == c.edge_insts@[(x, s)] } else { grown1(self.edge_insts@[(x, s)]@, c.edge_insts@[(x, s)]@, *c.f, block, s, n + 1) }) by {
            if x == block {
                assert(grown1(e0[(x, s)]@, c.edge_insts@[(x, s)]@, *c.f, block, s, n));
                if s == succ && args@.len() > 0 {
                    assert(passed(*c.f, block, s, n + 1) == passed(*c.f, block, s, n).push(n));
                    assert(self.edge_insts@[(x, s)]@.drop_last() =~= e0[(x, s)]@);
                }
            }
        }
    }
//@ spec
    requires well_formed(*old(self).f), keyed(*old(self)), block.0 < old(self).f.v_nb(), old(self).f.v_range(block).has(inst), tabled(*out), inst.0 < out.inst_alloc_offsets@.len()
    ensures final(self).f == old(self).f, final(self).bb_in == old(self).bb_in, final(self).machine_env == old(self).machine_env, final(self).stack_pregs == old(self).stack_pregs,
        added(final(self).bb_insts@, old(self).bb_insts@, block), made(*old(self).f, *out, Item::I(inst), final(self).bb_insts@[block]@.last()),
        grown(final(self).edge_insts@, old(self).edge_insts@, *old(self).f, block, if old(self).f.v_branch(inst) { old(self).f.v_succs(block).len() as int } else { 0 })
//@ end

impl<'a> VxInto for OutputIter<'a> { type Out = OutputIter<'a>; spec fn rel(self, r: OutputIter<'a>) -> bool { self == r } fn vx_into(self) -> (r: OutputIter<'a>) { self } }
proof fn listing_order(e: Edits, a: int, i: int, end: int)
    requires 0 <= i <= end <= u32::MAX
    ensures forall|m: int| 0 <= m < listing(e, a, i, end).len() && #[trigger] listing(e, a, i, end)[m] is I ==> i <= listing(e, a, i, end)[m]->I_0.0 < end,
        forall|m: int, k: int| 0 <= m < k < listing(e, a, i, end).len() && #[trigger] listing(e, a, i, end)[m] is I && #[trigger] listing(e, a, i, end)[k] is I ==> listing(e, a, i, end)[m]->I_0.0 < listing(e, a, i, end)[k]->I_0.0,
        i < end ==> listing(e, a, i, end).len() > 0 && listing(e, a, i, end).last() == Item::I(Inst((end - 1) as u32)),
    decreases end - i
{
    if i < end {
        let n = lower(e, 2 * i + 1);
        listing_order(e, n, i + 1, end);
        let x = items(e.subrange(a, n));
        let r = listing(e, n, i + 1, end);
        let l = listing(e, a, i, end);
        assert(l == x + seq![Item::I(Inst(i as u32))] + r);
        assert forall|m: int| 0 <= m < l.len() && #[trigger] l[m] is I implies i <= l[m]->I_0.0 < end && (m <= x.len() ==> m == x.len() && l[m]->I_0.0 == i) && (m > x.len() ==> l[m]->I_0.0 > i) by {
            if m < x.len() { assert(l[m] == x[m]); } else if m > x.len() { assert(l[m] == r[m - x.len() - 1]); }
        }
        assert forall|m: int, k: int| 0 <= m < k < l.len() && #[trigger] l[m] is I && #[trigger] l[k] is I implies l[m]->I_0.0 < l[k]->I_0.0 by {
            assert(k > x.len());
            if m > x.len() { assert(l[m] == r[m - x.len() - 1]); assert(l[k] == r[k - x.len() - 1]); }
        }
        if r.len() > 0 { assert(l.last() == r.last()); }
    }
}
spec fn edges_done<F: Function>(q: Seq<CheckerInst>, f: F, b: Block, s: Block, n: int) -> bool { q.len() == passed(f, b, s, n).len() && forall|j: int| 0 <= j < q.len() ==> binds(f, b, s, passed(f, b, s, n)[j], #[trigger] q[j]) }
/// The successors of b its last instruction passes arguments to.
spec fn passing<F: Function>(f: F, b: Block) -> int { if f.v_branch(Inst((f.v_range(b).1.0 - 1) as u32)) { f.v_succs(b).len() as int } else { 0 } }
/// The instruction lists are those of the function and the output.
spec fn prepared_to<F: Function>(c: Checker<F>, out: Output, n: int) -> bool {
    &&& keyed(c)
    &&& forall|b: Block| b.0 < n ==> makes(*c.f, out, block_listing(*c.f, out, b), #[trigger] c.bb_insts@[b]@)
    &&& forall|b: Block| n <= b.0 < c.f.v_nb() ==> (#[trigger] c.bb_insts@[b])@.len() == 0
    &&& forall|b: Block, s: Block| edge_of(*c.f, b, s) ==> edges_done((#[trigger] c.edge_insts@[(b, s)])@, *c.f, b, s, if b.0 < n { passing(*c.f, b) } else { 0 })
}
spec fn prepared<F: Function>(c: Checker<F>, out: Output) -> bool { prepared_to(c, out, c.f.v_nb() as int) }
spec fn others<F: Function>(c: Checker<F>, d: Checker<F>, b: Block) -> bool {
    &&& forall|x: Block| x != b ==> #[trigger] c.bb_insts@[x] == d.bb_insts@[x]
    &&& forall|x: Block, s: Block| x != b && edge_of(*c.f, x, s) ==> #[trigger] c.edge_insts@[(x, s)] == d.edge_insts@[(x, s)]
}
spec fn same_but_lists<F: Function>(c: Checker<F>, d: Checker<F>) -> bool { c.f == d.f && c.bb_in == d.bb_in && c.machine_env == d.machine_env && c.stack_pregs == d.stack_pregs }
spec fn last_before(l: Option<Inst>, n: int) -> bool { l matches Some(x) ==> x.0 < n }
spec fn all_later(l: Option<Inst>, w: Seq<Item>, d: int) -> bool { l matches Some(x) ==> forall|m: int| d <= m < w.len() && #[trigger] w[m] is I ==> w[m]->I_0.0 > x.0 }
//@ fn src/checker.rs Checker::prepare
//@ entry
    let ghost c = *self;
    proof {
        assert forall|b: Block| 0 <= b.0 < c.f.v_nb() implies (#[trigger] c.bb_insts@[b])@.len() == 0 by { assert(c.bb_insts@.dom().contains(b)); }
        assert forall|b: Block, s: Block| edge_of(*c.f, b, s) implies edges_done((#[trigger] c.edge_insts@[(b, s)])@, *c.f, b, s, 0) by { assert(c.edge_insts@.dom().contains((b, s))); }
    }
//@ loop 0
    invariant
        __n0 == c.f.v_nb(), __i0 <= __n0, well_formed(*c.f), tabled(*out), sorted(out.edits@), covers(*c.f, *out),
        same_but_lists(*self, c), prepared_to(*self, *out, __i0 as int),
        last_before(last_inst, if __i0 > 0 { c.f.v_range(Block((__i0 - 1) as u32)).1.0 as int } else { 0 }),
    decreases __n0 - __i0
//@ loop 1 before
    let ghost w = block_listing(*c.f, *out, block);
    let ghost mut d = 0int;
    let ghost c1 = *self;
    proof {
        listing_order(out.edits@, lower(out.edits@, 2 * c.f.v_range(block).0.0), c.f.v_range(block).0.0 as int, c.f.v_range(block).1.0 as int);
        assert(w.skip(0) =~= w);
        assert(w.take(0) =~= Seq::empty());
    }
//@ loop 1
    invariant
        well_formed(*c.f), tabled(*out), sorted(out.edits@), covers(*c.f, *out), block.0 < c.f.v_nb(), block.0 == __i0 - 1, keyed(*self), prepared_to(c1, *out, block.0 as int),
        same_but_lists(*self, c), same_but_lists(c1, c), others(*self, c1, block), w == block_listing(*c.f, *out, block),
        usable(__it1), 0 <= d <= w.len(),
        __nx1 matches Some(x) ==> d < w.len() && item(x) == w[d] && remaining(__it1) == w.skip(d + 1),
        __nx1 is None ==> d == w.len(),
        makes(*c.f, *out, w.take(d), self.bb_insts@[block]@),
        forall|s: Block| edge_of(*c.f, block, s) ==> edges_done((#[trigger] self.edge_insts@[(block, s)])@, *c.f, block, s, if d < w.len() { 0 } else { passing(*c.f, block) }),
        last_before(last_inst, c.f.v_range(block).1.0 as int), all_later(last_inst, w, d),
        forall|m: int| 0 <= m < w.len() && #[trigger] w[m] is I ==> c.f.v_range(block).has(w[m]->I_0),
        forall|m: int, k: int| 0 <= m < k < w.len() && #[trigger] w[m] is I && #[trigger] w[k] is I ==> w[m]->I_0.0 < w[k]->I_0.0,
        w.len() > 0, w.last() == Item::I(Inst((c.f.v_range(block).1.0 - 1) as u32)),
    decreases w.len() - d + (if __nx1 is Some { 1int } else { 0 })
//@ loop 1 begin
    let ghost s0 = *self;
    let ghost r0 = remaining(__it1);
    let ghost w0 = w[d];
//@ loop 1 end
    proof {
        assert(w.take(d + 1).drop_last() =~= w.take(d)); assert(w.take(d + 1).last() == w[d]);
        let q = self.bb_insts@[block]@;
        assert forall|n: int| 0 <= n < d + 1 implies made(*c.f, *out, w.take(d + 1)[n], #[trigger] q[n]) by {
            if n < d { assert(s0.bb_insts@[block]@[n] == q.drop_last()[n]); assert(made(*c.f, *out, w.take(d)[n], s0.bb_insts@[block]@[n])); } else { assert(q[n] == q.last()); }
        }
        assert forall|s: Block| edge_of(*c.f, block, s) implies edges_done((#[trigger] self.edge_insts@[(block, s)])@, *c.f, block, s, if d + 1 < w.len() { 0 } else { passing(*c.f, block) }) by {
            assert(s0.edge_insts@.dom().contains((block, s)));
            assert(edges_done(s0.edge_insts@[(block, s)]@, *c.f, block, s, 0));
            let q = self.edge_insts@[(block, s)]@;
            if w0 is I {
                let n = if c.f.v_branch(w0->I_0) { c.f.v_succs(block).len() as int } else { 0 };
                assert(grown1(q, s0.edge_insts@[(block, s)]@, *c.f, block, s, n));
                assert forall|j: int| 0 <= j < q.len() implies binds(*c.f, block, s, passed(*c.f, block, s, n)[j], #[trigger] q[j]) by { assert(q[s0.edge_insts@[(block, s)]@.len() + j] == q[j]); }
            }
            if d + 1 == w.len() { assert(w[d] == w.last()); } else if w0 is I { assert(w[w.len() - 1] == w.last()); assert(w0->I_0.0 < w.last()->I_0.0); }
        }
        assert forall|x: Block, s: Block| x != block && edge_of(*c.f, x, s) implies #[trigger] self.edge_insts@[(x, s)] == c1.edge_insts@[(x, s)] by { assert(s0.edge_insts@.dom().contains((x, s))); assert(s0.edge_insts@[(x, s)] == c1.edge_insts@[(x, s)]); }
        assert forall|x: Block| x != block implies #[trigger] self.bb_insts@[x] == c1.bb_insts@[x] by { assert(s0.bb_insts@[x] == c1.bb_insts@[x]); }
        if __nx1 is Some {
            let t = seq![item(__nx1->Some_0)] + remaining(__it1);
            assert(r0 == t); assert(t[0] == item(__nx1->Some_0)); assert(t.drop_first() =~= remaining(__it1)); assert(w.skip(d + 1).drop_first() =~= w.skip(d + 2));
        }
        d = d + 1;
    }
//@ loop 1 after
    proof {
        assert(w.take(w.len() as int) =~= w);
        assert forall|b: Block| b.0 < block.0 + 1 implies makes(*c.f, *out, block_listing(*c.f, *out, b), #[trigger] self.bb_insts@[b]@) by { assert(c1.bb_insts@[b]@ == c1.bb_insts@[b]@); if b.0 == block.0 { assert(b == block); } else { assert(self.bb_insts@[b] == c1.bb_insts@[b]); } }
        assert forall|b: Block| block.0 + 1 <= b.0 < c.f.v_nb() implies (#[trigger] self.bb_insts@[b])@.len() == 0 by { assert(c1.bb_insts@[b]@.len() == 0); assert(self.bb_insts@[b] == c1.bb_insts@[b]); }
        assert forall|b: Block, s: Block| edge_of(*c.f, b, s) implies edges_done((#[trigger] self.edge_insts@[(b, s)])@, *c.f, b, s, if b.0 < block.0 + 1 { passing(*c.f, b) } else { 0 }) by {
            if b.0 == block.0 { assert(b == block); } else { assert(self.edge_insts@[(b, s)] == c1.edge_insts@[(b, s)]); assert(edges_done(c1.edge_insts@[(b, s)]@, *c.f, b, s, if b.0 < block.0 { passing(*c.f, b) } else { 0 })); }
        }
    }
//@ spec
    requires well_formed(*old(self).f), blank(*old(self)), tabled(*out), sorted(out.edits@), covers(*old(self).f, *out)
    ensures same_but_lists(*final(self), *old(self)), prepared(*final(self), *out)
//@ end
/// The location table has a portion for each instruction.
spec fn covers<F: Function>(f: F, out: Output) -> bool { forall|b: Block| b.0 < f.v_nb() ==> (#[trigger] f.v_range(b)).1.0 <= out.inst_alloc_offsets@.len() }

/// Reuse constraints name an operand of the same instruction.
spec fn reuses_ok<F: Function>(f: F, out: Output) -> bool { forall|b: Block, i: Inst, j: int| b.0 < f.v_nb() && #[trigger] f.v_range(b).has(i) && 0 <= j < f.v_ops(i).len() ==> reuse_ok(#[trigger] f.v_ops(i)[j], portion(out, i.0 as int).len()) }
/// So `new` and `prepare` lead to what `run` starts from.
proof fn prepared_is_ready<F: Function>(c: Checker<F>, out: Output)
    requires well_formed(*c.f), prepared(c, out), reuses_ok(*c.f, out)
    ensures ready(c)
{
    assert forall|b: Block, i: int| b.0 < c.f.v_nb() && 0 <= i < c.f.v_succs(b).len() implies #[trigger] c.edge_insts@.dom().contains((b, c.f.v_succs(b)[i])) by { assert(edge_of(*c.f, b, c.f.v_succs(b)[i])); }
    assert forall|b: Block, n: int| b.0 < c.f.v_nb() && 0 <= n < body(c, b).len() implies inst_wf(#[trigger] body(c, b)[n]) && !(body(c, b)[n] is ParallelMove) by {
        let w = block_listing(*c.f, out, b);
        assert(makes(*c.f, out, w, c.bb_insts@[b]@));
        assert(made(*c.f, out, w[n], body(c, b)[n]));
        listing_order(out.edits@, lower(out.edits@, 2 * c.f.v_range(b).0.0), c.f.v_range(b).0.0 as int, c.f.v_range(b).1.0 as int);
        if let Item::I(i) = w[n] { assert(c.f.v_range(b).has(i)); }
    }
    assert forall|b: Block, s: Block, n: int| c.edge_insts@.dom().contains((b, s)) && 0 <= n < c.edge_insts@[(b, s)]@.len() implies (#[trigger] c.edge_insts@[(b, s)]@[n]) is ParallelMove by {
        assert(edges_done(c.edge_insts@[(b, s)]@, *c.f, b, s, if b.0 < c.f.v_nb() { passing(*c.f, b) } else { 0 }));
    }
}
} // verus!
fn main() {}
