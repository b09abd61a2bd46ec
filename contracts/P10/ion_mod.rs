// P10: merged requirements denote the intersection of location sets.
use super::requirement::Requirement;
/// A location a bundle can be given: a real register, a spill slot, or a fixed stack location.
#[derive(Clone, Copy, PartialEq)]
enum Loc { Reg(PReg), Slot(usize), FixedStack(PReg) }
fn any_loc<N: Nd>(n: &mut N) -> Loc {
    match n.below(3) {
        0 => Loc::Reg(n.preg()),
        1 => Loc::Slot(n.u32() as usize),
        _ => Loc::FixedStack(n.preg()),
    }
}
fn any_limit<N: Nd>(n: &mut N) -> usize {
    let l = n.u64() as usize;
    n.assume(l >= 1);
    l
}
fn any_req<N: Nd>(n: &mut N) -> Requirement {
    match n.below(6) {
        0 => Requirement::Any,
        1 => Requirement::Register,
        2 => Requirement::FixedReg(n.preg()),
        3 => Requirement::Limit(any_limit(n)),
        4 => Requirement::Stack,
        _ => Requirement::FixedStack(n.preg()),
    }
}
fn admits(r: Requirement, l: Loc) -> bool {
    match (r, l) {
        (Requirement::Any, _) => true,
        (Requirement::Register, Loc::Reg(_)) => true,
        (Requirement::FixedReg(p), Loc::Reg(q)) => p == q,
        (Requirement::Limit(k), Loc::Reg(q)) => q.hw_enc() < k,
        (Requirement::Stack, Loc::Slot(_)) => true,
        (Requirement::Stack, Loc::FixedStack(_)) => true,
        (Requirement::FixedStack(p), Loc::FixedStack(q)) => p == q,
        _ => false,
    }
}
/// A location admitted by both, if there is one.
fn witness(a: Requirement, b: Requirement) -> Option<Loc> {
    let cands = |r: Requirement| match r {
        Requirement::Any | Requirement::Register | Requirement::Limit(_) => Loc::Reg(PReg::new(0, RegClass::Int)),
        Requirement::FixedReg(p) => Loc::Reg(p),
        Requirement::Stack => Loc::Slot(0),
        Requirement::FixedStack(p) => Loc::FixedStack(p),
    };
    for l in [cands(a), cands(b)] {
        if admits(a, l) && admits(b, l) { return Some(l); }
    }
    None
}
pub fn c_merge_exact<N: Nd>(n: &mut N) {
    let (a, b) = (any_req(n), any_req(n));
    let l = any_loc(n);
    match a.merge(b) {
        Ok(m) => assert!(admits(m, l) == (admits(a, l) && admits(b, l))),
        // A conflict is reported only when no location satisfies both.
        Err(_) => assert!(!(admits(a, l) && admits(b, l))),
    }
}
pub fn c_merge_complete<N: Nd>(n: &mut N) {
    let (a, b) = (any_req(n), any_req(n));
    match a.merge(b) {
        Ok(_) => assert!(witness(a, b).is_some(), "merged requirement admits no location"),
        Err(_) => assert!(witness(a, b).is_none(), "conflict although a location satisfies both"),
    }
}
pub fn c_merge_commutes<N: Nd>(n: &mut N) {
    let (a, b) = (any_req(n), any_req(n));
    let l = any_loc(n);
    match (a.merge(b), b.merge(a)) {
        (Ok(x), Ok(y)) => assert!(admits(x, l) == admits(y, l)),
        (Err(_), Err(_)) => {}
        _ => panic!("merge accepts in one order only"),
    }
}
pub fn c_classify<N: Nd>(n: &mut N) {
    let a = any_req(n);
    let l = any_loc(n);
    let is_reg_loc = matches!(l, Loc::Reg(_));
    if a.is_reg() && admits(a, l) { assert!(is_reg_loc); }
    if a.is_stack() && admits(a, l) { assert!(!is_reg_loc); }
    assert!(!(a.is_reg() && a.is_stack()));
    // Neither kind only when both kinds of location are admitted.
    if !a.is_reg() && !a.is_stack() { assert!(admits(a, l)); }
}
/// The requirement of an operand admits exactly what its constraint admits.
pub fn c_from_operand<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = core::mem::ManuallyDrop::new(Ctx::default());
    // One fixed register: a real register or a fixed stack location.
    let k = if N::SYMBOLIC { 2 } else { 256 };
    for _ in 0..k { ctx.pregs.push(PRegData { allocations: LiveRangeSet::new(), is_stack: n.bool() }); }
    let fixed = PReg::from_index(n.below(if N::SYMBOLIC { 2 } else { 192 }));
    let is_stack = ctx.pregs[fixed.index()].is_stack;
    let (c, lim) = match n.below(6) {
        0 => (OperandConstraint::Any, 0),
        1 => (OperandConstraint::Reg, 0),
        2 => (OperandConstraint::Stack, 0),
        3 => (OperandConstraint::FixedReg(fixed), 0),
        4 => (OperandConstraint::Reuse(n.below(32)), 0),
        _ => { let l = 1usize << n.below(7); (OperandConstraint::Limit(l), l) }
    };
    let op = Operand::new(VReg::new(3, fixed.class()), c, OperandKind::Use, OperandPos::Early);
    let env = Env { func: &f, env: &e, ctx: &mut ctx };
    let r = env.requirement_from_operand(op);
    let l = any_loc(n);
    let want = match c {
        OperandConstraint::Any => true,
        OperandConstraint::Reg | OperandConstraint::Reuse(_) => matches!(l, Loc::Reg(_)),
        OperandConstraint::Stack => !matches!(l, Loc::Reg(_)),
        OperandConstraint::FixedReg(p) => if is_stack { l == Loc::FixedStack(p) } else { l == Loc::Reg(p) },
        OperandConstraint::Limit(_) => match l { Loc::Reg(q) => q.hw_enc() < lim, _ => false },
    };
    assert!(admits(r, l) == want);
}
/// The requirement of a bundle is the conjunction of its uses' constraints, and a conflict is
/// reported (with a point inside the bundle's uses) exactly when no location satisfies them all.
pub fn c_bundle_requirement<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    let stack_preg = PReg::new(3, RegClass::Int);
    for i in 0..256 { ctx.pregs.push(PRegData { allocations: LiveRangeSet::new(), is_stack: i == stack_preg.index() }); }
    let bump = ctx.bump();
    let vr = VReg::new(0, RegClass::Int);
    let nb = 2;
    let mut uses: Vec<Vec<Requirement>> = Vec::new();
    let mut pos = 0u32;
    for _ in 0..nb {
        let b = ctx.bundles.add(bump.clone());
        let mut rs = Vec::new();
        let ranges = n.size(2, 4);
        for _ in 0..ranges {
            let from = pos;
            let nu = n.size(2, 5);
            let lr = ctx.ranges.add(CodeRange { from: ProgPoint::from_index(from), to: ProgPoint::from_index(from + 20) }, bump.clone());
            for _ in 0..nu {
                let c = match n.below(8) {
                    0 => OperandConstraint::Reg,
                    1 => OperandConstraint::Stack,
                    2 => OperandConstraint::FixedReg(PReg::new(n.below(3), RegClass::Int)),
                    3 => OperandConstraint::FixedReg(stack_preg),
                    4 => OperandConstraint::Reuse(0),
                    5 => OperandConstraint::Limit(1 << n.below(3)),
                    _ => OperandConstraint::Any,
                };
                rs.push(match c {
                    OperandConstraint::FixedReg(p) if p == stack_preg => Requirement::FixedStack(p),
                    OperandConstraint::FixedReg(p) => Requirement::FixedReg(p),
                    OperandConstraint::Reg | OperandConstraint::Reuse(_) => Requirement::Register,
                    OperandConstraint::Stack => Requirement::Stack,
                    OperandConstraint::Limit(k) => Requirement::Limit(k),
                    OperandConstraint::Any => Requirement::Any,
                });
                pos += 1;
                ctx.ranges[lr].uses.push(Use::new(Operand::new(vr, c, OperandKind::Use, OperandPos::Early), ProgPoint::from_index(pos), 0));
            }
            pos = from + 20;
            let range = ctx.ranges[lr].range;
            ctx.bundles[b].ranges.push(LiveRangeListEntry { range, index: lr });
        }
        uses.push(rs);
    }
    let env = Env { func: &f, env: &e, ctx: &mut ctx };
    let locs: Vec<Loc> = (0..8).map(|i| Loc::Reg(PReg::new(i, RegClass::Int))).chain([Loc::Slot(0), Loc::FixedStack(stack_preg)]).collect();
    let all = |rs: &[Requirement], l: Loc| rs.iter().all(|&r| admits(r, l));
    for b in 0..nb {
        match env.compute_requirement(LiveBundleIndex::new(b)) {
            Ok(r) => for &l in &locs { assert!(admits(r, l) == all(&uses[b], l)); },
            Err(c) => {
                for &l in &locs { assert!(!all(&uses[b], l)); }
                let p = c.suggested_split_point().to_index();
                assert!(p <= pos);
            }
        }
    }
    let both: Vec<Requirement> = uses.iter().flatten().copied().collect();
    match env.merge_bundle_requirements(LiveBundleIndex::new(0), LiveBundleIndex::new(1)) {
        Ok(r) => for &l in &locs { assert!(admits(r, l) == all(&both, l)); },
        Err(_) => for &l in &locs { assert!(!all(&both, l)); },
    }
}
