// P17: the checker accepts exactly what is known to be right.
use crate::verif::{any_func, reach, TF};
use std::collections::{BTreeMap, BTreeSet};

type Facts = BTreeMap<u32, BTreeSet<usize>>; // location bits -> variable numbers it is known to hold
fn small_alloc<N: Nd>(n: &mut N) -> Allocation {
    match n.below(6) {
        0 => Allocation::stack(SpillSlot::new(n.below(3))),
        1 => Allocation::reg(PReg::new(62, RegClass::Int)),
        _ => Allocation::reg(PReg::new(n.below(5), RegClass::Int)),
    }
}
fn v(i: usize) -> VReg { VReg::new(i, RegClass::Int) }
/// A state: known locations with sets of variables.
fn any_state<N: Nd>(n: &mut N) -> CheckerState {
    let mut m: FxHashMap<Allocation, CheckerValue> = FxHashMap::default();
    for _ in 0..n.size(2, 6) {
        let a = small_alloc(n);
        let mut s: FxHashSet<VReg> = FxHashSet::default();
        for i in 0..4 { if n.bool() { s.insert(v(i)); } }
        m.insert(a, CheckerValue::VRegs(s));
    }
    CheckerState::Allocations(m)
}
/// None: unanalysed.
fn facts(s: &CheckerState) -> Option<Facts> {
    match s {
        CheckerState::Top => None,
        CheckerState::Allocations(m) => {
            let mut f = Facts::new();
            for (a, x) in m.iter() {
                if let CheckerValue::VRegs(r) = x {
                    let set: BTreeSet<usize> = r.iter().map(|r| r.vreg()).collect();
                    if !set.is_empty() { f.insert(a.bits(), set); }
                } else { panic!("universe value stored"); }
            }
            Some(f)
        }
    }
}
// ---- specification of the transfer function and the meet, on facts
fn clean(mut f: Facts) -> Facts { f.retain(|_, s| !s.is_empty()); f }
fn sp_move(f: &Facts, from: Allocation, into: Allocation) -> Facts {
    let mut g = f.clone();
    match f.get(&from.bits()) { Some(s) => { g.insert(into.bits(), s.clone()); } None => { g.remove(&into.bits()); } }
    clean(g)
}
fn sp_par(f: &Facts, moves: &[(VReg, VReg)]) -> Facts {
    let mut g = Facts::new();
    for (a, s) in f {
        let mut t: BTreeSet<usize> = s.iter().copied().filter(|x| !moves.iter().any(|m| m.0.vreg() == *x)).collect();
        for m in moves { if s.contains(&m.1.vreg()) { t.insert(m.0.vreg()); } }
        g.insert(*a, t);
    }
    clean(g)
}
fn sp_op(f: &Facts, ops: &[Operand], allocs: &[Allocation], clobbers: &[PReg]) -> Facts {
    let mut g = f.clone();
    for (o, a) in ops.iter().zip(allocs) {
        if o.kind() == OperandKind::Def {
            for s in g.values_mut() { s.remove(&o.vreg().vreg()); }
            let mut s = BTreeSet::new();
            s.insert(o.vreg().vreg());
            g.insert(a.bits(), s);
        }
    }
    for c in clobbers { g.remove(&Allocation::reg(*c).bits()); }
    clean(g)
}
fn sp_meet(a: &Option<Facts>, b: &Option<Facts>) -> Option<Facts> {
    match (a, b) {
        (None, x) | (x, None) => x.clone(),
        (Some(a), Some(b)) => {
            let mut g = Facts::new();
            for (k, s) in a { if let Some(t) = b.get(k) { g.insert(*k, s.intersection(t).copied().collect()); } }
            Some(clean(g))
        }
    }
}
fn is_stack(env: &MachineEnv, a: Allocation) -> bool { a.is_stack() || a.as_reg().map_or(false, |r| env.fixed_stack_slots.contains(&r)) }
/// Does the location satisfy the operand's constraint?
fn sp_constraint(o: Operand, a: Allocation, allocs: &[Allocation], env: &MachineEnv) -> bool {
    let real_reg = a.is_reg() && !is_stack(env, a);
    match o.constraint() {
        OperandConstraint::Any => true,
        OperandConstraint::Reg => real_reg,
        OperandConstraint::Stack => is_stack(env, a),
        OperandConstraint::FixedReg(p) => a == Allocation::reg(p),
        OperandConstraint::Reuse(i) => a.is_reg() && a == allocs[i],
        OperandConstraint::Limit(m) => real_reg && a.as_reg().unwrap().hw_enc() < m,
    }
}
fn sp_check(f: &Facts, reached: bool, late: bool, ops: &[Operand], allocs: &[Allocation], env: &MachineEnv) -> bool {
    for (o, a) in ops.iter().zip(allocs) {
        if (o.pos() == OperandPos::Late) != late { continue; }
        if a.is_none() { return false; }
        if reached && o.kind() == OperandKind::Use && o.as_fixed_nonallocatable().is_none() {
            if !f.get(&a.bits()).map_or(false, |s| s.contains(&o.vreg().vreg())) { return false; }
        }
        if !sp_constraint(*o, *a, allocs, env) { return false; }
    }
    true
}
// ---- unit contracts
pub fn any_env<N: Nd>(n: &mut N) -> MachineEnv {
    let mut e = crate::verif::no_env();
    if n.bool() { e.fixed_stack_slots.push(PReg::new(62, RegClass::Int)); }
    e
}
fn any_operand<N: Nd>(n: &mut N, vr: usize, k: usize) -> Operand {
    let c = match n.below(6) {
        0 => OperandConstraint::Any,
        1 => OperandConstraint::Reg,
        2 => OperandConstraint::Stack,
        3 => OperandConstraint::FixedReg(PReg::new(n.below(5), RegClass::Int)),
        4 if k > 0 => OperandConstraint::Reuse(n.below(k)),
        _ => OperandConstraint::Limit(1 << n.below(7)),
    };
    let (kind, pos) = if let OperandConstraint::Reuse(_) = c { (OperandKind::Def, OperandPos::Late) } else {
        (if n.bool() { OperandKind::Use } else { OperandKind::Def }, if n.bool() { OperandPos::Early } else { OperandPos::Late })
    };
    Operand::new(v(vr), c, kind, pos)
}
pub fn c_constraint<N: Nd>(n: &mut N) {
    let mut env = crate::verif::no_env();
    env.fixed_stack_slots.push(n.preg());
    let env = core::mem::ManuallyDrop::new(env);
    let f = core::mem::ManuallyDrop::new(TF::empty());
    let mut sp = PRegSet::empty();
    sp.add(env.fixed_stack_slots[0]);
    let ck = core::mem::ManuallyDrop::new(Checker { f: &*f, bb_in: FxHashMap::default(), bb_insts: FxHashMap::default(), edge_insts: FxHashMap::default(), machine_env: &env, stack_pregs: sp });
    let allocs = [any_alloc(n), any_alloc(n)];
    n.assume(!allocs[1].is_none());
    let cls = n.class();
    let c = match n.below(6) {
        0 => OperandConstraint::Any,
        1 => OperandConstraint::Reg,
        2 => OperandConstraint::Stack,
        3 => OperandConstraint::FixedReg(PReg::new(n.below(64), cls)),
        4 => OperandConstraint::Reuse(0),
        _ => OperandConstraint::Limit(1 << n.below(7)),
    };
    let o = Operand::new(VReg::new(n.below(1 << 20), cls), c, if n.bool() { OperandKind::Use } else { OperandKind::Def }, if n.bool() { OperandPos::Early } else { OperandPos::Late });
    let st = core::mem::ManuallyDrop::new(CheckerState::initial());
    let r = core::mem::ManuallyDrop::new(st.check_constraint(Inst::new(0), o, allocs[1], &allocs, &ck));
    assert!(r.is_ok() == sp_constraint(o, allocs[1], &allocs, &env), "constraint check agrees with the constraint's meaning");
}
fn any_alloc<N: Nd>(n: &mut N) -> Allocation {
    match n.below(3) {
        0 => Allocation::none(),
        1 => Allocation::reg(n.preg()),
        _ => Allocation::stack(SpillSlot::new(n.below(1 << 20))),
    }
}
pub fn c_meet_value<N: Nd>(n: &mut N) {
    let mk = |n: &mut N| {
        if n.below(3) == 0 { return CheckerValue::Universe; }
        let mut s: FxHashSet<VReg> = FxHashSet::default();
        if n.bool() { s.insert(v(n.below(100))); }
        if n.bool() { s.insert(v(n.below(100))); }
        CheckerValue::VRegs(s)
    };
    let mut a = core::mem::ManuallyDrop::new(mk(n));
    let b = core::mem::ManuallyDrop::new(mk(n));
    let x = v(n.below(100));
    let has = |c: &CheckerValue| match c { CheckerValue::Universe => true, CheckerValue::VRegs(s) => s.contains(&x) };
    let exp = has(&a) && has(&b);
    a.meet_with(&b);
    assert!(has(&a) == exp, "meet is intersection");
}
pub fn c_meet<N: Nd>(n: &mut N) {
    let mk = |n: &mut N| if n.below(5) == 0 { CheckerState::Top } else { any_state(n) };
    let (mut a, b) = (mk(n), mk(n));
    let exp = sp_meet(&facts(&a), &facts(&b));
    a.meet_with(&b);
    assert!(facts(&a) == exp, "a fact is kept only if both paths establish it");
}
pub fn c_move<N: Nd>(n: &mut N) {
    let mut s = any_state(n);
    let (from, into) = (small_alloc(n), small_alloc(n));
    let exp = sp_move(&facts(&s).unwrap(), from, into);
    s.update(&CheckerInst::Move { into, from });
    assert!(facts(&s).unwrap() == exp, "a move makes the destination hold exactly what the source held");
}
pub fn c_parallel<N: Nd>(n: &mut N) {
    let mut s = any_state(n);
    let mut moves: Vec<(VReg, VReg)> = Vec::new();
    for d in 0..4 { if n.bool() { moves.push((v(d), v(n.below(5)))); } }
    let exp = sp_par(&facts(&s).unwrap(), &moves);
    s.update(&CheckerInst::ParallelMove { moves });
    assert!(facts(&s).unwrap() == exp, "a parallel move renames exactly the moved variables");
}
fn any_op<N: Nd>(n: &mut N) -> (Vec<Operand>, Vec<Allocation>, Vec<PReg>) {
    let k = n.size(2, 4);
    let mut ops: Vec<Operand> = Vec::new();
    let mut allocs: Vec<Allocation> = Vec::new();
    for i in 0..k {
        let w = if n.bool() { i } else { 0 };
        let o = any_operand(n, w, i);
        ops.push(o);
        allocs.push(if n.below(12) == 0 { Allocation::none() } else { small_alloc(n) });
        if let OperandConstraint::Reuse(j) = ops[i].constraint() { if n.below(4) > 0 { let a = allocs[j]; allocs[i] = a; } }
        if let OperandConstraint::FixedReg(p) = ops[i].constraint() { if n.below(4) > 0 { allocs[i] = Allocation::reg(p); } }
    }
    let mut cl = Vec::new();
    for i in 0..5 { if n.below(4) == 0 { cl.push(PReg::new(i, RegClass::Int)); } }
    (ops, allocs, cl)
}
pub fn c_op<N: Nd>(n: &mut N) {
    let mut s = any_state(n);
    let (operands, allocs, clobbers) = any_op(n);
    let mut exp = sp_op(&facts(&s).unwrap(), &operands, &allocs, &clobbers);
    s.update(&CheckerInst::Op { inst: Inst::new(0), operands, allocs, clobbers });
    let mut got = facts(&s).unwrap();
    got.remove(&Allocation::none().bits()); exp.remove(&Allocation::none().bits());
    assert!(got == exp, "definitions and clobbers update exactly what they write");
}
pub fn c_check<N: Nd>(n: &mut N) {
    let env = any_env(n);
    let f = TF::empty();
    let mut sp = PRegSet::empty();
    for &p in &env.fixed_stack_slots { sp.add(p); }
    let ck = Checker { f: &f, bb_in: FxHashMap::default(), bb_insts: FxHashMap::default(), edge_insts: FxHashMap::default(), machine_env: &env, stack_pregs: sp };
    let s = any_state(n);
    let fx = facts(&s).unwrap();
    let (ops, allocs, clobbers) = any_op(n);
    let op = CheckerInst::Op { inst: Inst::new(0), operands: ops.clone(), allocs: allocs.clone(), clobbers };
    assert!(s.check(InstPosition::Before, &op, &ck).is_ok() == sp_check(&fx, true, false, &ops, &allocs, &env), "early operands");
    assert!(s.check(InstPosition::After, &op, &ck).is_ok() == sp_check(&fx, true, true, &ops, &allocs, &env), "late operands");
    let (from, into) = (small_alloc(n), small_alloc(n));
    let bad = is_stack(&env, from) && is_stack(&env, into);
    assert!(s.check(InstPosition::Before, &CheckerInst::Move { into, from }, &ck).is_err() == bad, "stack-to-stack moves are rejected");
}
// ---- whole checker
/// Straight home allocation: every variable has a location of its own; perturbed afterwards.
fn allocate<N: Nd>(n: &mut N, f: &TF, env: &MachineEnv) -> Option<Output> {
    let home = |x: VReg| -> Allocation { Allocation::reg(PReg::new(x.vreg() % 40, match x.vreg() / 40 { 0 => RegClass::Int, 1 => RegClass::Float, _ => RegClass::Vector })) };
    let mut out = Output::default();
    let mut edits: Vec<(ProgPoint, Edit)> = Vec::new();
    for i in 0..f.insts {
        out.inst_alloc_offsets.push(out.allocs.len() as u32);
        let base = out.allocs.len();
        for (k, o) in f.operands[i].iter().enumerate() {
            let mut a = home(o.vreg());
            match o.constraint() {
                OperandConstraint::FixedReg(p) => {
                    let p = Allocation::reg(p);
                    if o.as_fixed_nonallocatable().is_none() {
                        if o.kind() == OperandKind::Use { edits.push((ProgPoint::before(Inst::new(i)), Edit::Move { from: a, to: p })); }
                        else { edits.push((ProgPoint::after(Inst::new(i)), Edit::Move { from: p, to: a })); }
                    }
                    a = p;
                }
                OperandConstraint::Stack => {
                    let s = Allocation::stack(SpillSlot::new(1000 + 4 * i + k));
                    if o.kind() == OperandKind::Use { edits.push((ProgPoint::before(Inst::new(i)), Edit::Move { from: a, to: s })); }
                    else { edits.push((ProgPoint::after(Inst::new(i)), Edit::Move { from: s, to: a })); }
                    a = s;
                }
                OperandConstraint::Reuse(j) => {
                    edits.push((ProgPoint::before(Inst::new(i)), Edit::Move { from: out.allocs[base + j], to: a }));
                    out.allocs[base + j] = a;
                }
                _ => {}
            }
            out.allocs.push(a);
        }
    }
    for b in 0..f.succs.len() {
        for (k, s) in f.succs[b].iter().enumerate() {
            let t = s.index();
            if f.params[t].is_empty() { continue; }
            let at = if f.succs[b].len() == 1 { ProgPoint::before(Inst::new(f.ranges[b].1 - 1)) }
                else if f.preds[t].len() == 1 && t != f.entry.index() { ProgPoint::before(Inst::new(f.ranges[t].0)) } else { return None };
            // A move at the head of the target must precede its other edits; a move at the tail follows them.
            let mut mv: Vec<(ProgPoint, Edit)> = Vec::new();
            for (j, a) in f.args[b][k].iter().enumerate() { mv.push((at, Edit::Move { from: home(*a), to: Allocation::reg(PReg::new(50 + j, RegClass::Int)) })); }
            for (j, p) in f.params[t].iter().enumerate() { mv.push((at, Edit::Move { from: Allocation::reg(PReg::new(50 + j, RegClass::Int)), to: home(*p) })); }
            if f.succs[b].len() == 1 { edits.extend(mv); } else { mv.extend(edits); edits = mv; }
        }
    }
    // Perturb.
    for _ in 0..(if n.bool() { 0 } else { 1 + n.below(2) }) {
        match n.below(6) {
            0 => if !out.allocs.is_empty() { let k = n.below(out.allocs.len()); out.allocs[k] = match n.below(4) { 0 => Allocation::none(), 1 => Allocation::stack(SpillSlot::new(n.below(3))), _ => { let j = n.below(out.allocs.len()); out.allocs[j] } }; },
            1 => if !edits.is_empty() { let k = n.below(edits.len()); edits.remove(k); },
            2 | 3 => if f.insts > 0 {
                let i = Inst::new(n.below(f.insts));
                let last = (0..f.ranges.len()).any(|b| f.ranges[b].1 == i.index() + 1);
                let pick = |n: &mut N| if n.below(4) == 0 || out.allocs.is_empty() { small_alloc(n) } else { let j = n.below(out.allocs.len()); out.allocs[j] };
                let (from, to) = (pick(n), pick(n));
                if !from.is_none() && !to.is_none() { edits.push((if last || n.bool() { ProgPoint::before(i) } else { ProgPoint::after(i) }, Edit::Move { from, to })); }
            },
            4 => if edits.len() > 1 { let k = n.below(edits.len() - 1); let (x, y) = (edits[k].1.clone(), edits[k + 1].1.clone()); edits[k].1 = y; edits[k + 1].1 = x; },
            _ => {}
        }
    }
    edits.sort_by_key(|e| e.0);
    out.edits = edits;
    let _ = env;
    Some(out)
}
pub fn c_run<N: Nd>(n: &mut N) {
    let env = any_env(n);
    let mut f = any_func(n, 6, false);
    n.assume(f.vregs < 100);
    // Blocks own consecutive instruction ranges in block order.
    for b in 1..f.ranges.len() { let o = f.ranges[b - 1].1 == f.ranges[b].0; n.assume(o); }
    // More kinds of operands, clobbers.
    for i in 0..f.insts {
        let ops = f.operands[i].clone();
        for k in 0..ops.len() {
            let o = ops[k];
            let c = match n.below(12) {
                0 => OperandConstraint::FixedReg(PReg::new(41 + k % 8, o.class())),
                1 => OperandConstraint::Stack,
                2 if o.kind() == OperandKind::Def && k > 0 && ops[0].kind() == OperandKind::Use => OperandConstraint::Reuse(0),
                3 => OperandConstraint::Limit(64),
                4 => OperandConstraint::Limit(8),
                _ => o.constraint(),
            };
            let last = f.ranges.iter().any(|r| r.1 == i + 1);
            if last && o.kind() == OperandKind::Def { continue; }
            f.operands[i][k] = Operand::new(o.vreg(), c, o.kind(), if let OperandConstraint::Reuse(_) = c { OperandPos::Late } else { o.pos() });
        }
        if n.below(8) == 0 { let p = PReg::new(n.below(60), RegClass::Int); f.clobbers[i].add(p); }
    }
    let out = match allocate(n, &f, &env) { Some(o) => o, None => { n.assume(false); return } };
    // Oracle: greatest fix point of the specification's transfer function over reachable blocks.
    let nb = f.ranges.len();
    let re = reach(&f.succs, f.entry.index(), usize::MAX);
    let mut bin: Vec<Option<Facts>> = vec![None; nb];
    bin[f.entry.index()] = Some(Facts::new());
    let mut ok = true;
    let step = |b: usize, mut s: Facts, check: bool| -> (Facts, bool) {
        let mut ok = true;
        let moves = |s: &mut Facts, ok: &mut bool, p: ProgPoint| for (q, e) in out.edits.iter() {
            let Edit::Move { from, to } = e;
            if *q == p { if is_stack(&env, *from) && is_stack(&env, *to) { *ok = false; } *s = sp_move(s, *from, *to); }
        };
        for i in f.ranges[b].0..f.ranges[b].1 {
            moves(&mut s, &mut ok, ProgPoint::before(Inst::new(i)));
            let lo = out.inst_alloc_offsets[i] as usize;
            let allocs = &out.allocs[lo..lo + f.operands[i].len()];
            if check { ok &= sp_check(&s, re[b], false, &f.operands[i], allocs, &env); }
            let cl: Vec<PReg> = f.clobbers[i].into_iter().collect();
            s = sp_op(&s, &f.operands[i], allocs, &cl);
            s.remove(&Allocation::none().bits());
            if check { ok &= sp_check(&s, re[b], true, &f.operands[i], allocs, &env); }
            moves(&mut s, &mut ok, ProgPoint::after(Inst::new(i)));
        }
        (s, ok)
    };
    loop {
        let mut changed = false;
        for b in 0..nb {
            let s = match &bin[b] { Some(s) => s.clone(), None => continue };
            let (s, _) = step(b, s, false);
            for (k, t) in f.succs[b].iter().enumerate() {
                let mv: Vec<(VReg, VReg)> = f.params[t.index()].iter().copied().zip(f.args[b][k].iter().copied()).collect();
                let e = if f.is_branch[f.ranges[b].1 - 1] { sp_par(&s, &mv) } else { s.clone() };
                let m = sp_meet(&bin[t.index()], &Some(e));
                if m != bin[t.index()] { bin[t.index()] = m; changed = true; }
            }
        }
        if !changed { break; }
    }
    // In blocks that no path reaches every value is known vacuously; constraints still apply.
    for b in 0..nb { let (_, o) = step(b, bin[b].clone().unwrap_or_default(), true); ok &= o; }
    let mut ck = Checker::new(&f, &env);
    ck.prepare(&out);
    let r = ck.run();
    n.cov(1, ok); n.cov(2, !ok);
    assert!(r.is_err() || ok, "accepts a location not known to hold the variable on all paths, or violating a constraint");
    assert!(r.is_ok() || !ok, "reports a mismatch although every location is right");
}
