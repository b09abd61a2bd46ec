use vstd::prelude::*;
verus! {
//@ type LiveRangeList Vec<LiveRangeListEntry>
//@ type UseList Vec<Use>
//@ type Result<Requirement,RequirementConflict> Result<Requirement, RequirementConflict>
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/preg.rs
//@ fn src/lib.rs PReg::index
//@ spec
    ensures res == self.bits as usize
//@ end
//@ item src/lib.rs struct VReg
//@ item src/lib.rs struct ProgPoint
//@ item src/lib.rs struct Operand
//@ item src/lib.rs enum OperandConstraint
//@ item src/lib.rs struct Allocation
//@ item src/index.rs!define_index!Inst struct Inst
//@ item src/index.rs!define_index!VRegIndex struct VRegIndex
//@ item src/index.rs!define_index!LiveBundleIndex struct LiveBundleIndex
//@ item src/index.rs!define_index!LiveRangeIndex struct LiveRangeIndex
//@ item src/index.rs!define_index!SpillSetIndex struct SpillSetIndex
//@ item src/ion/data_structures.rs struct CodeRange
//@ item src/ion/data_structures.rs struct LiveRangeListEntry
//@ item src/ion/data_structures.rs struct Use
//@ item src/ion/data_structures.rs struct LiveRange
//@ item src/ion/data_structures.rs struct LiveBundle
//@ fn src/index.rs!define_index!Inst Inst::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/lib.rs ProgPoint::before external
//@ spec
//@ end
/// The operand's constraint as decoded from its bits (P01); a limit is a power of two, so at least 1.
uninterp spec fn con(o: Operand) -> OperandConstraint;
//@ fn src/lib.rs Operand::constraint external
//@ spec
    ensures res == con(self), res matches OperandConstraint::Limit(k) ==> k >= 1
//@ end
pub assume_specification<T> [<T as core::convert::From<T>>::from] (a: T) -> (res: T) ensures res == a;
//@ item src/ion/requirement.rs struct RequirementConflict
//@ item src/ion/requirement.rs enum RequirementConflictAt
//@ item src/ion/requirement.rs enum Requirement

/// The part of PRegData the requirement code reads (its interval map is dropped).
struct PRegData { is_stack: bool }
struct LiveBundles { storage: Vec<LiveBundle> }
impl LiveBundles {
    spec fn view(&self) -> Seq<LiveBundle> { self.storage@ }
    fn vx_at(&self, i: LiveBundleIndex) -> (res: &LiveBundle) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
}
struct LiveRanges { storage: Vec<LiveRange> }
impl LiveRanges {
    spec fn view(&self) -> Seq<LiveRange> { self.storage@ }
    fn vx_at(&self, i: LiveRangeIndex) -> (res: &LiveRange) requires i.0 < self@.len() ensures *res == self@[i.0 as int] { &self.storage[i.0 as usize] }
}
/// The parts of Env and its context that the requirement code reads (all others dropped).
struct Env { pregs: Vec<PRegData>, bundles: LiveBundles, ranges: LiveRanges }

// ---- what a requirement and a constraint mean: sets of locations
enum Loc { Reg(PReg), Slot(int), FixedStack(PReg) }
spec fn admits(r: Requirement, l: Loc) -> bool {
    match (r, l) {
        (Requirement::Any, _) => true,
        (Requirement::Register, Loc::Reg(_)) => true,
        (Requirement::FixedReg(p), Loc::Reg(q)) => p == q,
        (Requirement::Limit(k), Loc::Reg(q)) => q.hw() < k,
        (Requirement::Stack, Loc::Slot(_)) => true,
        (Requirement::Stack, Loc::FixedStack(_)) => true,
        (Requirement::FixedStack(p), Loc::FixedStack(q)) => p == q,
        _ => false,
    }
}
spec fn allows(e: Env, c: OperandConstraint, l: Loc) -> bool {
    match c {
        OperandConstraint::Any => true,
        OperandConstraint::Reg => l is Reg,
        OperandConstraint::Reuse(_) => l is Reg,
        OperandConstraint::Stack => !(l is Reg),
        OperandConstraint::FixedReg(p) => if e.pregs@[p.bits as int].is_stack { l == Loc::FixedStack(p) } else { l == Loc::Reg(p) },
        OperandConstraint::Limit(k) => l matches Loc::Reg(q) && q.hw() < k,
    }
}
spec fn sat(r: Requirement) -> bool { exists|l: Loc| admits(r, l) }
spec fn wit(r: Requirement) -> Loc {
    match r {
        Requirement::Any | Requirement::Register | Requirement::Limit(_) => Loc::Reg(PReg { bits: 0u8 }),
        Requirement::FixedReg(p) => Loc::Reg(p),
        Requirement::Stack => Loc::Slot(0),
        Requirement::FixedStack(p) => Loc::FixedStack(p),
    }
}
spec fn lim_ok(r: Requirement) -> bool { r matches Requirement::Limit(k) ==> k >= 1 }
proof fn sat_lim(r: Requirement) ensures lim_ok(r) <==> sat(r) {
    assert(PReg { bits: 0u8 }.hw() == 0) by { assert(0u8 & 63u8 == 0u8) by(bit_vector); }
    if lim_ok(r) { assert(admits(r, wit(r))); }
    if sat(r) { let l = choose|l: Loc| admits(r, l); assert(admits(r, l)); }
}
spec fn entry_ok(e: Env, n: LiveRangeListEntry) -> bool {
    n.index.0 < e.ranges@.len()
}
spec fn wf(e: Env) -> bool { e.pregs@.len() >= 256 }
spec fn bundle_ok(e: Env, b: LiveBundleIndex) -> bool {
    b.0 < e.bundles@.len() && forall|i: int| 0 <= i < e.bundles@[b.0 as int].ranges@.len() ==> #[trigger] entry_ok(e, e.bundles@[b.0 as int].ranges@[i])
}
/// The uses of a bundle, in order: those of its first n ranges.
spec fn uses_of(e: Env, rs: Seq<LiveRangeListEntry>) -> Seq<Use> decreases rs.len() {
    if rs.len() == 0 { seq![] } else { uses_of(e, rs.drop_last()) + e.ranges@[rs.last().index.0 as int].uses@ }
}
spec fn all_allow(e: Env, us: Seq<Use>, l: Loc) -> bool { forall|i: int| 0 <= i < us.len() ==> allows(e, con(#[trigger] us[i].operand), l) }
spec fn of_bundle(e: Env, b: LiveBundleIndex) -> Seq<Use> { uses_of(e, e.bundles@[b.0 as int].ranges@) }
proof fn of_prefix(e: Env, rs: Seq<LiveRangeListEntry>, k: int)
    requires 0 <= k <= rs.len()
    ensures uses_of(e, rs.take(k)).is_prefix_of(uses_of(e, rs))
    decreases rs.len()
{
    if k == rs.len() { assert(rs.take(k) =~= rs); } else {
        of_prefix(e, rs.drop_last(), k);
        assert(rs.drop_last().take(k) =~= rs.take(k));
    }
}
proof fn allow_prefix(e: Env, us: Seq<Use>, vs: Seq<Use>, l: Loc)
    requires us.is_prefix_of(vs), all_allow(e, vs, l)
    ensures all_allow(e, us, l)
{
    assert forall|i: int| 0 <= i < us.len() implies allows(e, con(#[trigger] us[i].operand), l) by { assert(us[i] == vs[i]); assert(allows(e, con(vs[i].operand), l)); }
}
proof fn allow_push(e: Env, us: Seq<Use>, u: Use, l: Loc)
    ensures all_allow(e, us.push(u), l) <==> all_allow(e, us, l) && allows(e, con(u.operand), l)
{
    let w = us.push(u);
    if all_allow(e, w, l) {
        assert(us.is_prefix_of(w)) by { assert(w.take(us.len() as int) =~= us); }
        allow_prefix(e, us, w, l);
        assert(allows(e, con(w[us.len() as int].operand), l));
    }
    if all_allow(e, us, l) && allows(e, con(u.operand), l) {
        assert forall|i: int| 0 <= i < w.len() implies allows(e, con(#[trigger] w[i].operand), l) by { if i < us.len() { assert(w[i] == us[i]); } }
    }
}

//@ fn src/ion/requirement.rs Requirement::merge
//@ spec
    ensures
        res matches Ok(m) ==> forall|l: Loc| #[trigger] admits(m, l) <==> admits(self, l) && admits(other, l),
        res is Err ==> forall|l: Loc| !(#[trigger] admits(self, l) && admits(other, l)),
        sat(self) && sat(other) && res is Ok ==> sat(res->Ok_0),
//@ entry
    proof { sat_lim(self); sat_lim(other);
        assert forall|m: Requirement| true implies (lim_ok(m) <==> #[trigger] sat(m)) by { sat_lim(m); } }
//@ end
//@ fn src/ion/requirement.rs Requirement::is_stack
//@ spec
    ensures res ==> forall|l: Loc| #[trigger] admits(self, l) ==> !(l is Reg),
        res == (self is Stack || self is FixedStack),
//@ end
//@ fn src/ion/requirement.rs Requirement::is_reg
//@ spec
    ensures res ==> forall|l: Loc| #[trigger] admits(self, l) ==> l is Reg,
        res == (self is Register || self is FixedReg || self is Limit),
//@ end
//@ fn src/ion/requirement.rs Env::requirement_from_operand
//@ impl Env
//@ spec
    requires wf(*self)
    ensures forall|l: Loc| #[trigger] admits(res, l) <==> allows(*self, con(op), l), sat(res)
//@ exit
    proof { sat_lim(__res); }
//@ end
//@ fn src/ion/requirement.rs Env::compute_requirement
//@ impl Env
//@ at bundles
//@ at ranges
//@ slice 0
//@ spec
    requires wf(*self), bundle_ok(*self, bundle)
    ensures
        res matches Ok(m) ==> sat(m) && forall|l: Loc| #[trigger] admits(m, l) <==> all_allow(*self, of_bundle(*self, bundle), l),
        res is Err ==> forall|l: Loc| !#[trigger] all_allow(*self, of_bundle(*self, bundle), l),
//@ before let ranges =
    let ghost rs = self.bundles@[bundle.0 as int].ranges@;
    proof { assert(uses_of(*self, rs.take(0)) =~= seq![]); sat_lim(req); }
//@ loop 0
    invariant
        wf(*self), bundle_ok(*self, bundle), rs == self.bundles@[bundle.0 as int].ranges@, __s0@ == rs, __i0 <= rs.len(), sat(req),
        forall|l: Loc| #[trigger] admits(req, l) <==> all_allow(*self, uses_of(*self, rs.take(__i0 as int)), l),
    decreases rs.len() - __i0
//@ loop 0 begin
    let ghost k = __i0 as int;
    let ghost pre = uses_of(*self, rs.take(k));
    let ghost mine = self.ranges@[rs[k].index.0 as int].uses@;
    proof {
        assert(entry_ok(*self, rs[k]));
        assert(rs.take(k + 1).drop_last() =~= rs.take(k));
        assert(uses_of(*self, rs.take(k + 1)) == pre + mine);
        of_prefix(*self, rs, k + 1);
        assert(pre + mine.take(0) =~= pre);
    }
//@ loop 1 after
    proof { assert(mine.take(__i1 as int) =~= mine); }
//@ loop 0 after
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@ loop 1
    invariant
        wf(*self), __s1@ == mine, __i1 <= mine.len(), sat(req),
        (pre + mine).is_prefix_of(uses_of(*self, rs)), rs == self.bundles@[bundle.0 as int].ranges@,
        forall|l: Loc| #[trigger] admits(req, l) <==> all_allow(*self, pre + mine.take(__i1 as int), l),
    decreases mine.len() - __i1
//@ before req = match
    proof {
        let j = __i1 - 1;
        assert(pre + mine.take(j + 1) =~= (pre + mine.take(j)).push(mine[j]));
        assert((pre + mine.take(j + 1)).is_prefix_of(pre + mine));
        assert((pre + mine.take(j + 1)).is_prefix_of(uses_of(*self, rs)));
        assert forall|l: Loc| #[trigger] all_allow(*self, pre + mine.take(j + 1), l) <==> admits(req, l) && admits(r, l) by { allow_push(*self, pre + mine.take(j), mine[j], l); assert(admits(r, l) <==> allows(*self, con(mine[j].operand), l)); }
        assert forall|l: Loc| #[trigger] all_allow(*self, uses_of(*self, rs), l) implies admits(req, l) && admits(r, l) by { allow_prefix(*self, pre + mine.take(j + 1), uses_of(*self, rs), l); }
    }
//@ end
//@ fn src/ion/requirement.rs Env::merge_bundle_requirements
//@ impl Env
//@ spec
    requires wf(*self), bundle_ok(*self, a), bundle_ok(*self, b)
    ensures
        res matches Ok(m) ==> sat(m) && forall|l: Loc| #[trigger] admits(m, l) <==> all_allow(*self, of_bundle(*self, a), l) && all_allow(*self, of_bundle(*self, b), l),
        res is Err ==> forall|l: Loc| !(#[trigger] all_allow(*self, of_bundle(*self, a), l) && all_allow(*self, of_bundle(*self, b), l)),
//@ exit
    proof {
        assert forall|l: Loc| __res is Err implies !(#[trigger] all_allow(*self, of_bundle(*self, a), l) && all_allow(*self, of_bundle(*self, b), l)) by { assert(admits(req_a, l) <==> all_allow(*self, of_bundle(*self, a), l)); assert(admits(req_b, l) <==> all_allow(*self, of_bundle(*self, b), l)); }
    }
//@ end
} // verus!
fn main() {}
