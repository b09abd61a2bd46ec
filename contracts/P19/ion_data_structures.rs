// P19: emitted edits are ordered by program point and keep same-point order.
fn any_alloc<N: Nd>(n: &mut N) -> Allocation {
    if n.bool() { Allocation::reg(PReg::new(n.below(64), RegClass::Int)) } else { Allocation::stack(SpillSlot::new(n.below(1 << 20))) }
}
fn any_pp<N: Nd>(n: &mut N) -> PosWithPrio {
    PosWithPrio { prio: n.below(6) as u32, pos: ProgPoint::from_index(n.u32() >> 1) }
}
const PRIOS: [InsertMovePrio; 6] = [InsertMovePrio::InEdgeMoves, InsertMovePrio::Regular, InsertMovePrio::MultiFixedRegInitial, InsertMovePrio::MultiFixedRegSecondary, InsertMovePrio::ReusedInput, InsertMovePrio::OutEdgeMoves];
/// Priorities keep their defined order as integers.
pub fn c_prio_order<N: Nd>(n: &mut N) {
    let (i, j) = (n.below(6), n.below(6));
    assert!((i < j) == ((PRIOS[i] as u32) < (PRIOS[j] as u32)));
    assert!((i < j) == (PRIOS[i] < PRIOS[j]));
}
/// The sort key orders like (point, priority).
pub fn c_key<N: Nd>(n: &mut N) {
    let (a, b) = (any_pp(n), any_pp(n));
    assert!(a.key().cmp(&b.key()) == (a.pos, a.prio).cmp(&(b.pos, b.prio)));
}
/// A self-move is dropped, any other move is recorded once, unchanged, after what was there.
pub fn c_push<N: Nd>(n: &mut N) {
    let mut ms = core::mem::ManuallyDrop::new(InsertedMoves::default());
    let v = VReg::new(n.below(1 << 20), RegClass::Int);
    for _ in 0..2 {
        let (p, pr, f, t) = (any_pp(n).pos, n.below(6), any_alloc(n), any_alloc(n));
        let before = ms.moves.len();
        ms.push(p, PRIOS[pr], f, t, v);
        if f == t {
            assert!(ms.moves.len() == before);
        } else {
            assert!(ms.moves.len() == before + 1);
            let m = &ms.moves[before];
            assert!(m.pos_prio.pos == p && m.pos_prio.prio == PRIOS[pr] as u32 && m.from_alloc == f && m.to_alloc == t && m.to_vreg == v);
        }
    }
}
pub fn c_add<N: Nd>(n: &mut N) {
    let mut e = core::mem::ManuallyDrop::new(Edits::default());
    for _ in 0..2 {
        let (p, f, t) = (any_pp(n), any_alloc(n), any_alloc(n));
        let before = e.len();
        e.add(p, f, t);
        if f == t {
            assert!(e.len() == before);
        } else {
            assert!(e.len() == before + 1);
            let (q, m) = &e.edits[before];
            let Edit::Move { from, to } = m.clone();
            assert!(*q == p && from == f && to == t);
        }
    }
}
/// Sorting is a stable permutation ordered by (point, priority); draining yields it all.
pub fn c_sort<N: Nd>(n: &mut N) {
    let k = n.size(2, 25) * if n.bool() { 1 } else { 8 };
    let mut e = Edits::default();
    let mut orig = Vec::new();
    for i in 0..k {
        let p = PosWithPrio { prio: n.below(3) as u32, pos: ProgPoint::from_index(n.below(4) as u32) };
        e.add(p, Allocation::stack(SpillSlot::new(i)), Allocation::stack(SpillSlot::new(i + 1)));
        orig.push((p, i));
    }
    e.sort();
    let sorted: Vec<(PosWithPrio, usize)> = e.iter().map(|(p, m)| { let Edit::Move { from, .. } = m.clone(); (*p, from.as_stack().unwrap().index()) }).collect();
    assert!(sorted.len() == k);
    for i in 1..sorted.len() {
        let (a, b) = (sorted[i - 1], sorted[i]);
        assert!((a.0.pos, a.0.prio, a.1) < (b.0.pos, b.0.prio, b.1), "not sorted, not stable or an edit repeated");
    }
    for s in &sorted { assert!(orig[s.1].0 == s.0); }
    let drained: Vec<(ProgPoint, Edit)> = e.drain_edits().collect();
    assert!(drained.len() == k && e.len() == 0);
    for i in 0..k {
        let Edit::Move { from, to } = drained[i].1.clone();
        let j = sorted[i].1;
        assert!(drained[i].0 == sorted[i].0.pos && from == Allocation::stack(SpillSlot::new(j)) && to == Allocation::stack(SpillSlot::new(j + 1)));
    }
}
