// P01: packed encodings round-trip.
pub fn c_preg_roundtrip<N: Nd>(n: &mut N) {
    let h = n.below(64);
    let c = n.class();
    let p = PReg::new(h, c);
    assert!(p.hw_enc() == h);
    assert!(p.class() == c);
    assert!(p.index() < PReg::NUM_INDEX);
    assert!(PReg::from_index(p.index()) == p);
    // The documented index space: class-major, 64 per class.
    assert!(p.index() == (c as usize) * 64 + h);
    match p.as_valid() {
        Some(q) => assert!(q == p && p != PReg::invalid()),
        None => assert!(p == PReg::invalid()),
    }
}
pub fn c_preg_injective<N: Nd>(n: &mut N) {
    let (h1, c1, h2, c2) = (n.below(64), n.class(), n.below(64), n.class());
    let (p, q) = (PReg::new(h1, c1), PReg::new(h2, c2));
    assert!((p == q) == (h1 == h2 && c1 == c2));
    assert!((p.index() == q.index()) == (p == q));
    // Declared order agrees with the index space.
    assert!((p < q) == (p.index() < q.index()));
}
fn any_vreg<N: Nd>(n: &mut N) -> (VReg, usize, RegClass) {
    let i = n.u32() as usize;
    n.assume(i <= VReg::MAX);
    let c = n.class();
    (VReg::new(i, c), i, c)
}
pub fn c_vreg_roundtrip<N: Nd>(n: &mut N) {
    let (v, i, c) = any_vreg(n);
    assert!(v.vreg() == i && v.class() == c);
    assert!(VReg::from_bits(v.bits() as u32) == v);
    assert!(VReg::from(v.bits() as u32) == v);
    let (w, j, d) = any_vreg(n);
    assert!((v == w) == (i == j && c == d));
    assert!((v.bits() == w.bits()) == (v == w));
    if i < VReg::MAX {
        assert!(v != VReg::invalid());
    }
    assert!(VReg::invalid().vreg() == VReg::MAX);
}
fn any_slot<N: Nd>(n: &mut N) -> (SpillSlot, usize) {
    let s = n.u32() as usize;
    n.assume(s <= SpillSlot::MAX);
    (SpillSlot::new(s), s)
}
pub fn c_slot_roundtrip<N: Nd>(n: &mut N) {
    let (s, i) = any_slot(n);
    let (t, j) = any_slot(n);
    assert!(s.index() == i);
    assert!((s == t) == (i == j));
    assert!(s.is_valid() && !s.is_invalid() && s != SpillSlot::invalid());
    assert!(SpillSlot::invalid().is_invalid() && !SpillSlot::invalid().is_valid());
    n.assume(i + j <= SpillSlot::MAX);
    assert!(s.plus(j).index() == i + j);
}
pub fn c_alloc_roundtrip<N: Nd>(n: &mut N) {
    let p = n.preg();
    let (s, si) = any_slot(n);
    let a = Allocation::reg(p);
    assert!(a.kind() == AllocationKind::Reg && a.is_reg() && a.is_some() && !a.is_none() && !a.is_stack());
    assert!(a.as_reg() == Some(p) && a.as_stack().is_none());
    assert!(a.index() == p.index());
    assert!(Allocation::from_bits(a.bits()) == a);
    let b = Allocation::stack(s);
    assert!(b.kind() == AllocationKind::Stack && b.is_stack() && b.is_some() && !b.is_none() && !b.is_reg());
    assert!(b.as_stack() == Some(s) && b.as_reg().is_none());
    assert!(b.index() == si);
    assert!(Allocation::from_bits(b.bits()) == b);
    let z = Allocation::none();
    assert!(z.is_none() && !z.is_some() && !z.is_reg() && !z.is_stack() && z.kind() == AllocationKind::None);
    assert!(z.as_reg().is_none() && z.as_stack().is_none());
    assert!(Allocation::from_bits(z.bits()) == z);
    assert!(a != b && a != z && b != z);
}
fn any_alloc<N: Nd>(n: &mut N) -> (Allocation, u8, usize) {
    match n.below(3) {
        0 => (Allocation::none(), 0, 0),
        1 => {
            let p = n.preg();
            (Allocation::reg(p), 1, p.index())
        }
        _ => {
            let (s, i) = any_slot(n);
            (Allocation::stack(s), 2, i)
        }
    }
}
pub fn c_alloc_injective<N: Nd>(n: &mut N) {
    let (a, ka, ia) = any_alloc(n);
    let (b, kb, ib) = any_alloc(n);
    assert!((a == b) == (ka == kb && ia == ib));
    assert!((a.bits() == b.bits()) == (a == b));
}
fn any_constraint<N: Nd>(n: &mut N, c: RegClass) -> OperandConstraint {
    match n.below(6) {
        0 => OperandConstraint::Any,
        1 => OperandConstraint::Reg,
        2 => OperandConstraint::Stack,
        3 => OperandConstraint::FixedReg(PReg::new(n.below(64), c)),
        4 => OperandConstraint::Reuse(n.below(32)),
        _ => OperandConstraint::Limit(1usize << n.below(7)),
    }
}
fn any_kind<N: Nd>(n: &mut N) -> OperandKind {
    if n.bool() { OperandKind::Use } else { OperandKind::Def }
}
fn any_pos<N: Nd>(n: &mut N) -> OperandPos {
    if n.bool() { OperandPos::Early } else { OperandPos::Late }
}
pub fn c_operand_roundtrip<N: Nd>(n: &mut N) {
    let (v, i, c) = any_vreg(n);
    let k = any_constraint(n, c);
    let kind = any_kind(n);
    let pos = any_pos(n);
    let o = Operand::new(v, k, kind, pos);
    assert!(o.vreg() == v && o.class() == c && o.constraint() == k && o.kind() == kind && o.pos() == pos);
    assert!(Operand::from_bits(o.bits()) == o);
    match o.as_fixed_nonallocatable() {
        Some(p) => assert!(i == VReg::MAX && k == OperandConstraint::FixedReg(p)),
        None => assert!(i != VReg::MAX || !matches!(k, OperandConstraint::FixedReg(_))),
    }
}
pub fn c_operand_injective<N: Nd>(n: &mut N) {
    let (v, _, c) = any_vreg(n);
    let (k, kind, pos) = (any_constraint(n, c), any_kind(n), any_pos(n));
    let (w, _, d) = any_vreg(n);
    let (l, kind2, pos2) = (any_constraint(n, d), any_kind(n), any_pos(n));
    let (o, q) = (Operand::new(v, k, kind, pos), Operand::new(w, l, kind2, pos2));
    assert!((o == q) == (v == w && k == l && kind == kind2 && pos == pos2));
    assert!((o.bits() == q.bits()) == (o == q));
}
pub fn c_operand_constructors<N: Nd>(n: &mut N) {
    let (v, _, c) = any_vreg(n);
    let p = PReg::new(n.below(64), c);
    let idx = n.below(32);
    use OperandConstraint::*;
    use OperandKind::*;
    use OperandPos::*;
    let check = |o: Operand, k: OperandConstraint, kind: OperandKind, pos: OperandPos| {
        assert!(o.vreg() == v && o.class() == c && o.constraint() == k && o.kind() == kind && o.pos() == pos);
    };
    match n.below(13) {
        0 => check(Operand::reg_use(v), Reg, Use, Early),
        1 => check(Operand::reg_use_at_end(v), Reg, Use, Late),
        2 => check(Operand::reg_def(v), Reg, Def, Late),
        3 => check(Operand::reg_def_at_start(v), Reg, Def, Early),
        4 => check(Operand::reg_temp(v), Reg, Def, Early),
        5 => check(Operand::reg_reuse_def(v, idx), Reuse(idx), Def, Late),
        6 => check(Operand::reg_fixed_use(v, p), FixedReg(p), Use, Early),
        7 => check(Operand::reg_fixed_def(v, p), FixedReg(p), Def, Late),
        8 => check(Operand::reg_fixed_use_at_end(v, p), FixedReg(p), Use, Late),
        9 => check(Operand::reg_fixed_def_at_start(v, p), FixedReg(p), Def, Early),
        10 => check(Operand::any_use(v), Any, Use, Early),
        11 => check(Operand::any_def(v), Any, Def, Late),
        _ => {
            let o = Operand::fixed_nonallocatable(p);
            assert!(o.as_fixed_nonallocatable() == Some(p));
            assert!(o.constraint() == FixedReg(p) && o.class() == c && o.kind() == Use && o.pos() == Early);
        }
    }
}
