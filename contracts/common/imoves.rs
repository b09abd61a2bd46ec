/// A move-insertion problem for the backtracking allocator: one or more blocks of instructions,
/// moves at program points with priorities, distinct destinations within each group.
pub struct Inserted {
    pub insts: usize, pub env: MachineEnv, pub moves: Vec<(ProgPoint, u32, Allocation, Allocation, VReg)>, pub locs: Vec<Allocation>,
    pub defs: Vec<(usize, Allocation)>, pub split: usize, pub fixed_stack: PReg, pub named_by_last: bool,
}
impl Inserted {
    pub fn is_stack(&self, a: Allocation) -> bool { a.is_stack() || a.as_reg() == Some(self.fixed_stack) }
}
pub fn any_inserted<N: Nd>(n: &mut N) -> Inserted {
    let insts = 1 + n.size(1, 4);
    let mut env = crate::verif::no_env();
    let fixed_stack = PReg::new(20, RegClass::Int);
    env.fixed_stack_slots.push(fixed_stack);
    let mut locs = Vec::new();
    let mut by_class: Vec<Vec<Allocation>> = Vec::new();
    for (ci, c) in [RegClass::Int, RegClass::Float, RegClass::Vector].iter().copied().enumerate() {
        let mut v = Vec::new();
        for i in 0..4 {
            let r = PReg::new(i, c);
            if n.bool() { env.preferred_regs_by_class[ci].add(r); } else { env.non_preferred_regs_by_class[ci].add(r); }
            v.push(Allocation::reg(r));
        }
        for i in 0..3 { v.push(Allocation::stack(SpillSlot::new(ci * 3 + i))); }
        if ci == 0 { v.push(Allocation::reg(fixed_stack)); }
        // Registers that may be free at some points: not used by any move.
        for i in 4..6 { if n.bool() { env.preferred_regs_by_class[ci].add(PReg::new(i, c)); } }
        if n.bool() { env.scratch_by_class[ci] = Some(PReg::new(6, c)); }
        locs.extend(v.iter().copied());
        by_class.push(v);
    }
    let mut moves: Vec<(ProgPoint, u32, Allocation, Allocation, VReg)> = Vec::new();
    let groups = n.size(1, 6);
    for _ in 0..groups {
        let pt = ProgPoint::from_index(n.below(2 * insts) as u32);
        let prio = n.below(6) as u32;
        let k = n.size(2, 6);
        for _ in 0..k {
            let ci = if n.bool() { 0 } else { n.below(3) };
            let s = by_class[ci][n.below(by_class[ci].len())];
            let d = by_class[ci][n.below(by_class[ci].len())];
            if moves.iter().any(|m| m.0 == pt && m.1 == prio && m.3 == d) { continue; }
            // The tracker attaches the variable to the value: one variable per source value.
            let v = VReg::new(n.below(4), [RegClass::Int, RegClass::Float, RegClass::Vector][ci]);
            moves.push((pt, prio, s, d, v));
        }
    }
    let mut defs = Vec::new();
    if n.bool() {
        let i = n.below(insts);
        let l = by_class[0][n.below(by_class[0].len())];
        defs.push((i, l));
    }
    let split = n.below(insts + 1);
    let named_by_last = n.bool();
    Inserted { insts, env, moves, locs, defs, split, fixed_stack, named_by_last }
}
pub fn run_inserted(p: &Inserted) -> Vec<(PosWithPrio, Edit)> {
    let mut f = crate::verif::TF::empty();
    f.insts = p.insts;
    f.named_by_last = p.named_by_last;
    for i in 0..p.insts {
        let k = p.defs.iter().filter(|d| d.0 == i).count();
        f.operands.push((0..k).map(|_| Operand::any_def(VReg::new(0, RegClass::Int))).collect());
        f.clobbers.push(PRegSet::empty());
    }
    let mut ctx = Ctx::default();
    ctx.output.num_spillslots = 9;
    for i in 0..256 { ctx.pregs.push(PRegData { allocations: LiveRangeSet::new(), is_stack: i == p.fixed_stack.index() }); }
    for &l in &p.locs {
        if let Some(r) = l.as_reg() {
            ctx.pregs[r.index()].allocations.btree.insert(LiveRangeKey { from: 0, to: u32::MAX }, LiveRangeIndex::invalid());
        }
    }
    for i in 0..p.insts {
        // Two blocks: the tracker forgets everything between them.
        ctx.cfginfo.insn_block.push(Block::new((i >= p.split) as usize));
        ctx.output.inst_alloc_offsets.push(ctx.output.allocs.len() as u32);
        for d in &p.defs { if d.0 == i { ctx.output.allocs.push(d.1); } }
    }
    for (ci, c) in [RegClass::Int, RegClass::Float, RegClass::Vector].iter().copied().enumerate() { ctx.preferred_victim_by_class[ci] = PReg::new(0, c); }
    let mut ms = InsertedMoves::default();
    let prios = [InsertMovePrio::InEdgeMoves, InsertMovePrio::Regular, InsertMovePrio::MultiFixedRegInitial, InsertMovePrio::MultiFixedRegSecondary, InsertMovePrio::ReusedInput, InsertMovePrio::OutEdgeMoves];
    for m in &p.moves { ms.push(m.0, prios[m.1 as usize], m.2, m.3, m.4); }
    let mut e = Env { func: &f, env: &p.env, ctx: &mut ctx };
    let edits = e.resolve_inserted_moves(ms);
    edits.iter().cloned().collect()
}
/// The edits that the backtracking allocator emits for its inserted moves have, point by point,
/// the effect of the parallel moves, contain no stack-to-stack move and preserve in-use registers.
pub fn insert_effect<N: Nd>(n: &mut N) {
    let p = any_inserted(n);
    let edits = run_inserted(&p);
    // Execute: groups in parallel, against edits in sequence; compare at the end of every point.
    let mut want = crate::verif::Sim::new();
    let mut got = crate::verif::Sim::new();
    let mut e = 0;
    for inst in 0..p.insts {
        for pos in [InstPosition::Before, InstPosition::After] {
            let pt = ProgPoint::new(Inst::new(inst), pos);
            if pos == InstPosition::After {
                // The instruction itself: clobbers of the dedicated scratch registers and defs.
                for c in 0..3 { if let Some(r) = p.env.scratch_by_class[c] { let f = 1_000_000 + inst as u64; got.set(Allocation::reg(r), f); want.set(Allocation::reg(r), f); } }
                for &(i, a) in &p.defs { if i == inst { let f = 2_000_000 + inst as u64; got.set(a, f); want.set(a, f); } }
            }
            for prio in 0..6 {
                let group: Vec<_> = p.moves.iter().filter(|m| m.0 == pt && m.1 == prio).collect();
                let vals: Vec<u64> = group.iter().map(|m| want.get(m.2)).collect();
                for (m, v) in group.iter().zip(vals) { want.set(m.3, v); }
            }
            while e < edits.len() && edits[e].0.pos == pt {
                let Edit::Move { from, to } = edits[e].1.clone();
                assert!(!(p.is_stack(from) && p.is_stack(to)), "stack-to-stack edit");
                got.mv(from, to);
                e += 1;
            }
            for &l in &p.locs { assert!(got.get(l) == want.get(l), "edits have a different effect than the inserted moves"); }
        }
    }
    assert!(e == edits.len(), "edit at no program point, or out of order");
}
