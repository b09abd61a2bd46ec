// P21: a reused context starts like a fresh one.
use alloc::vec::Vec;
use smallvec::SmallVec;
fn junk_range<N: Nd>(n: &mut N) -> CodeRange {
    let a = n.below(1000);
    CodeRange { from: crate::ProgPoint::before(Inst::new(a)), to: crate::ProgPoint::before(Inst::new(a + 1 + n.below(9))) }
}
/// Everything that a run may leave in its context, each container possibly non-empty.
fn dirty<N: Nd>(n: &mut N, c: &mut Ctx, max: usize, part: u8) {
    let k = |n: &mut N| if N::SYMBOLIC { max } else { n.below(max + 1) };
    if part & 1 != 0 {
    for _ in 0..k(n) { c.liveins.push(crate::indexset::IndexSet::new()); }
    for _ in 0..k(n) { c.liveouts.push(crate::indexset::IndexSet::new()); }
    for _ in 0..k(n) { c.blockparam_outs.push(BlockparamOut { from_vreg: VRegIndex::new(n.below(9)), from_block: Block::new(n.below(9)), to_block: Block::new(n.below(9)), to_vreg: VRegIndex::new(n.below(9)) }); }
    for _ in 0..k(n) { c.blockparam_ins.push(BlockparamIn { from_block: Block::new(n.below(9)), to_block: Block::new(n.below(9)), to_vreg: VRegIndex::new(n.below(9)) }); }
    for _ in 0..k(n) { let r = junk_range(n); let b = c.bump(); c.ranges.add(r, b); }
    for _ in 0..k(n) { let b = c.bump(); c.bundles.add(b); }
    for _ in 0..k(n) {
        let range = junk_range(n);
        c.spillsets.push(SpillSet { slot: SpillSlotIndex::new(n.below(9)), hint: PReg::new(n.below(9), RegClass::Int), class: RegClass::Float, spill_bundle: LiveBundleIndex::new(n.below(9)), required: n.bool(), splits: n.below(3) as u8, range });
    }
    for i in 0..k(n) { let b = c.bump(); c.vregs.add(VReg::new(i, RegClass::Int), VRegData { ranges: LiveRangeList::new_in(b), blockparam: Block::new(n.below(9)), class: None }); }
    }
    if part & 2 != 0 {
    for _ in 0..k(n) {
        let mut p = PRegData { allocations: LiveRangeSet::new(), is_stack: n.bool() };
        if !N::SYMBOLIC && n.bool() { let r = junk_range(n); p.allocations.btree.insert(LiveRangeKey::from_range(&r), LiveRangeIndex::new(n.below(9))); }
        c.pregs.push(p);
    }
    for _ in 0..k(n) {
        let mut s = SpillSlotData { ranges: SpillSetRanges::default(), slots: n.below(4) as u32, alloc: Allocation::none() };
        if !N::SYMBOLIC && n.bool() { let r = junk_range(n); s.ranges.btree.insert(LiveRangeKey::from_range(&r), SpillSetIndex::new(n.below(9))); }
        c.spillslots.push(s);
    }
    for i in 0..3 {
        for _ in 0..k(n) { c.slots_by_class[i].slots.push(SpillSlotIndex::new(n.below(9))); }
        c.slots_by_class[i].probe_start = n.below(9);
        for _ in 0..k(n) { c.extra_spillslots_by_class[i].push(Allocation::stack(SpillSlot::new(n.below(9)))); }
        c.preferred_victim_by_class[i] = PReg::new(n.below(9), RegClass::Int);
    }
    }
    if part & 4 != 0 {
    for _ in 0..k(n) { let (b, p) = (LiveBundleIndex::new(n.below(9)), n.below(99)); c.allocation_queue.insert(b, p, PReg::invalid()); }
    for _ in 0..k(n) { c.spilled_bundles.push(LiveBundleIndex::new(n.below(9))); }
    for _ in 0..k(n) { c.debug_annotations.insert(crate::ProgPoint::before(Inst::new(n.below(9))), Vec::new()); }
    }
    if part & 8 != 0 {
    for _ in 0..k(n) { c.multi_fixed_reg_fixups.push(MultiFixedRegFixup { pos: crate::ProgPoint::before(Inst::new(n.below(9))), from_slot: 0, to_slot: 1, level: FixedRegFixupLevel::Initial, to_preg: PRegIndex::new(n.below(9)), vreg: VRegIndex::new(n.below(9)) }); }
    c.allocated_bundle_count = n.below(99);
    for _ in 0..k(n) { c.output.allocs.push(Allocation::none()); }
    for _ in 0..k(n) { c.output.inst_alloc_offsets.push(n.below(9) as u32); }
    c.output.num_spillslots = n.below(99);
    for _ in 0..k(n) { c.output.debug_locations.push((n.below(9) as u32, crate::ProgPoint::before(Inst::new(0)), crate::ProgPoint::before(Inst::new(1)), Allocation::none())); }
    for _ in 0..k(n) { c.output.edits.push((crate::ProgPoint::before(Inst::new(n.below(9))), Edit::Move { from: Allocation::none(), to: Allocation::none() })); }
    c.output.stats.splits = n.below(99);
    c.output.stats.evict_bundle_count = n.below(99);
    c.output.stats.edits_count = n.below(99);
    c.output.stats.initial_liverange_count = n.below(99);
    }
    if part & 16 != 0 {
    for _ in 0..k(n) { c.conflict_set.insert(LiveBundleIndex::new(n.below(9))); }
    for _ in 0..k(n) { c.scratch_conflicts.push(LiveBundleIndex::new(n.below(9))); }
    for _ in 0..k(n) { c.scratch_bundle.push(LiveBundleIndex::new(n.below(9))); }
    for _ in 0..k(n) { c.scratch_vreg_ranges.push(LiveRangeIndex::new(n.below(9))); }
    for _ in 0..k(n) { c.scratch_operand_rewrites.insert(n.below(4), Operand::new(VReg::new(n.below(9), RegClass::Int), crate::OperandConstraint::Any, crate::OperandKind::Use, crate::OperandPos::Early)); }
    for _ in 0..k(n) { c.scratch_removed_lrs.insert(LiveRangeIndex::new(n.below(9))); }
    for _ in 0..k(n) { c.scratch_workqueue_set.insert(Block::new(n.below(9))); }
    }
}
fn is_fresh(c: &mut Ctx) {
    assert!(c.liveins.is_empty() && c.liveouts.is_empty(), "live-variable sets reset");
    assert!(c.blockparam_ins.is_empty() && c.blockparam_outs.is_empty(), "block parameter records reset");
    assert!(c.ranges.len() == 0, "live ranges reset");
    assert!(c.bundles.len() == 0, "bundles reset");
    assert!(c.spillsets.len() == 0, "spill sets reset");
    assert!(c.vregs.len() == 0, "variables reset");
    for p in c.pregs.iter() { assert!(!p.is_stack && p.allocations.btree.is_empty(), "registers reset"); }
    assert!(c.allocation_queue.heap.is_empty(), "work queue reset");
    assert!(c.spilled_bundles.is_empty(), "spilled bundles reset");
    assert!(c.spillslots.is_empty(), "spill slots reset");
    for r in c.scratch_spillset_pool.iter() { assert!(r.btree.is_empty(), "recycled slot ranges reset"); }
    for i in 0..3 {
        assert!(c.slots_by_class[i].slots.is_empty() && c.slots_by_class[i].probe_start == 0, "slot lists reset");
        assert!(c.extra_spillslots_by_class[i].is_empty(), "extra slots reset");
        assert!(c.preferred_victim_by_class[i] == PReg::invalid(), "preferred victims reset");
    }
    assert!(c.multi_fixed_reg_fixups.is_empty(), "fixups reset");
    assert!(c.allocated_bundle_count == 0, "bundle count reset");
    assert!(c.debug_annotations.is_empty(), "annotations reset");
    assert!(c.output.allocs.is_empty(), "locations reset");
    assert!(c.output.inst_alloc_offsets.is_empty(), "location offsets reset");
    assert!(c.output.num_spillslots == 0, "frame size reset");
    assert!(c.output.debug_locations.is_empty(), "debug locations reset");
    assert!(c.output.edits.is_empty(), "edits reset");
    let s = &c.output.stats; let z = Stats::default();
    assert!(s.splits == z.splits && s.evict_bundle_count == z.evict_bundle_count && s.edits_count == z.edits_count && s.initial_liverange_count == z.initial_liverange_count, "statistics reset");
    assert!(c.scratch_bump.get_mut().is_some(), "no reference into the arena is left");
}
pub fn c_env_ranges<N: Nd>(n: &mut N) { env_new(n, 1); }
pub fn c_env_regs_slots<N: Nd>(n: &mut N) { env_new(n, 2); }
pub fn c_env_queues<N: Nd>(n: &mut N) { env_new(n, 4); }
pub fn c_env_output<N: Nd>(n: &mut N) { env_new(n, 8); }
fn env_new<N: Nd>(n: &mut N, part: u8) {
    let mut c = core::mem::ManuallyDrop::new(Ctx::default());
    let max = if N::SYMBOLIC { 1 } else { 5 };
    dirty(n, &mut c, max, part);
    let mut f = core::mem::ManuallyDrop::new(crate::verif::TF::empty());
    f.insts = n.below(3);
    let e = core::mem::ManuallyDrop::new(crate::verif::no_env());
    { let _ = core::mem::ManuallyDrop::new(Env::new(&*f, &*e, &mut c)); }
    is_fresh(&mut c);
}
#[cfg(not(feature = "fuzzing"))]
pub fn c_reuse<N: Nd>(_n: &mut N) {}
#[cfg(not(feature = "fuzzing"))]
pub fn c_leftovers<N: Nd>(_n: &mut N) {}
/// Arbitrary leftovers in every field change nothing in the next result.
#[cfg(feature = "fuzzing")]
pub fn c_leftovers<N: Nd>(n: &mut N) {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let f = match any_fuzz_func(n) { Some(f) => f, None => return };
    let env = if n.bool() { crate::fuzzing::func::machine_env() } else { small_env(n) };
    let (log, ssa) = (n.below(4) == 0, n.bool());
    let mut fresh = Ctx::default();
    let a = match catch_unwind(AssertUnwindSafe(|| run(&f, &env, &mut fresh, log, ssa))) { Ok(a) => a, Err(_) => return };
    let mut c = Ctx::default();
    dirty(n, &mut c, 5, 31);
    // Registers carry over as the table a run leaves: either absent or complete.
    let k = if n.bool() { PReg::NUM_INDEX } else { 0 };
    c.pregs.resize(k, PRegData { allocations: LiveRangeSet::new(), is_stack: false });
    for r in 0..k { if n.below(4) == 0 { c.pregs[r].is_stack = true; let g = junk_range(n); c.pregs[r].allocations.btree.insert(LiveRangeKey::from_range(&g), LiveRangeIndex::invalid()); } }
    c.annotations_enabled = n.bool();
    let b = catch_unwind(AssertUnwindSafe(|| run(&f, &env, &mut c, log, ssa)));
    match (a, b) {
        (_, Err(_)) => panic!("a run that completes on a fresh context must not crash on a reused one"),
        (Ok(()), Ok(Ok(()))) => assert!(text(&fresh.output, true) == text(&c.output, true), "same result as a fresh context"),
        (Err(_), Ok(Err(_))) => {}
        _ => panic!("same outcome as a fresh context"),
    }
}
#[cfg(feature = "fuzzing")]
fn any_fuzz_func<N: Nd>(n: &mut N) -> Option<crate::fuzzing::func::Func> {
    use crate::fuzzing::func::{Func, Options};
    let opts = Options { reused_inputs: true, fixed_regs: true, fixed_nonallocatable: true, clobbers: true, reftypes: true, callsite_ish_constraints: true, ..Options::DEFAULT };
    let mut seed = n.u64() | 1;
    let len = 50 + n.below(1500);
    let mut bytes: Vec<u8> = Vec::new();
    for _ in 0..len { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; bytes.push((seed >> 24) as u8); }
    Func::arbitrary_with_options(&mut arbitrary::Unstructured::new(&bytes), &opts).ok()
}
#[cfg(feature = "fuzzing")]
fn small_env<N: Nd>(n: &mut N) -> MachineEnv {
    let (p, q) = (2 + n.below(8), n.below(4));
    let mut e = crate::verif::no_env();
    for (i, c) in [RegClass::Int, RegClass::Float, RegClass::Vector].iter().enumerate() {
        for r in 0..p { e.preferred_regs_by_class[i].add(PReg::new(r, *c)); }
        for r in p..p + q { e.non_preferred_regs_by_class[i].add(PReg::new(r, *c)); }
    }
    for r in 32..63 { e.fixed_stack_slots.push(PReg::new(r, RegClass::Int)); }
    e
}
#[cfg(feature = "fuzzing")]
fn text(o: &Output, s: bool) -> std::string::String {
    std::format!("{:?} {:?} {:?} {:?} {:?}{}", o.num_spillslots, o.edits, o.allocs, o.inst_alloc_offsets, o.debug_locations, if s { std::format!(" {:?}", o.stats) } else { std::string::String::new() })
}
#[cfg(feature = "fuzzing")]
pub fn c_reuse<N: Nd>(n: &mut N) {
    use crate::fuzzing::func::machine_env;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let rounds = 2 + n.below(3);
    let mut ctx = Ctx::default();
    for _ in 0..rounds {
        let f = match any_fuzz_func(n) { Some(f) => f, None => continue };
        let env = if n.bool() { machine_env() } else { small_env(n) };
        let o = crate::RegallocOptions { verbose_log: n.below(4) == 0, validate_ssa: n.bool(), algorithm: if n.below(5) == 0 { crate::Algorithm::Fastalloc } else { crate::Algorithm::Ion } };
        let mut fresh = Ctx::default();
        let a = match catch_unwind(AssertUnwindSafe(|| crate::run_with_ctx(&f, &env, &o, &mut fresh).map(|x| text(x, true)))) { Ok(a) => a, Err(_) => continue };
        // A context that ran another function before gives the same answer.
        match catch_unwind(AssertUnwindSafe(|| crate::run_with_ctx(&f, &env, &o, &mut ctx).map(|x| text(x, true)))) {
            Ok(b) => match (a, b) {
                (Ok(x), Ok(y)) => assert!(x == y, "same result as a fresh context"),
                (Err(_), Err(_)) => {}
                _ => panic!("same outcome as a fresh context"),
            },
            Err(_) => panic!("a run that succeeds on a fresh context must not crash on a reused one"),
        }
    }
}
