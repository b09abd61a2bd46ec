// P06: final move sequences never move stack to stack and preserve borrowed registers.
use crate::verif::Sim;
/// Location universe: registers 0.., spill slots, and registers standing for fixed stack slots.
fn loc(i: usize) -> Allocation {
    match i % 4 {
        0 | 1 => Allocation::reg(PReg::new(i / 4 * 2 + i % 4, RegClass::Int)),
        2 => Allocation::stack(SpillSlot::new(i)),
        _ => Allocation::reg(PReg::new(i, RegClass::Float)),
    }
}
fn is_stack(a: Allocation) -> bool {
    a.is_stack() || a.as_reg().map_or(false, |r| r.class() == RegClass::Float)
}
pub fn c_compute<N: Nd>(n: &mut N) {
    let u = 1 + n.size(3, 11);
    let len = n.size(2, 10);
    let scratchy = n.bool();
    let mut moves: MoveVec<u32> = smallvec![];
    let mut written = false;
    for i in 0..len {
        let s = if scratchy && written && n.below(3) == 0 { Allocation::none() } else { loc(n.below(u)) };
        let d = if scratchy && !s.is_none() && n.below(3) == 0 { Allocation::none() } else { loc(n.below(u)) };
        written |= d.is_none();
        moves.push((s, d, i as u32 + 1));
    }
    let input: Vec<(Allocation, Allocation, u32)> = moves.iter().copied().collect();
    let mut want = Sim::new();
    for &(s, d, _) in &input { want.mv(s, d); }
    let problem = if scratchy { MoveVecWithScratch::Scratch(moves) } else { MoveVecWithScratch::NoScratch(moves) };
    // Registers declared free: not mentioned by the moves. Slots handed out are fresh.
    let free = n.below(4);
    let mut given = 0;
    let mut slots = 0;
    let mut free_given: Vec<Allocation> = Vec::new();
    let borrowed = PReg::new(n.below(4), RegClass::Int);
    let r = MoveAndScratchResolver {
        find_free_reg: || if given < free { given += 1; let r = Allocation::reg(PReg::new(given, RegClass::Vector)); free_given.push(r); Some(r) } else { None },
        get_stackslot: || { slots += 1; Allocation::stack(SpillSlot::new(100_000 + slots)) },
        is_stack_alloc: is_stack,
        borrowed_scratch_reg: borrowed,
    };
    let out: Vec<(Allocation, Allocation, u32)> = r.compute(problem).iter().copied().collect();
    let mut got = Sim::new();
    for &(s, d, _) in &out {
        assert!(!s.is_none() && !d.is_none(), "placeholder left in the final sequence");
        assert!(!(is_stack(s) && is_stack(d)), "stack-to-stack move left");
        got.mv(s, d);
    }
    let scratch = |a: Allocation| a.is_none() || a.as_reg().map_or(false, |r| r.class() == RegClass::Vector) || a.as_stack().map_or(false, |s| s.index() > 100_000);
    for l in want.m.iter().chain(got.m.iter()).map(|x| x.0) {
        if !scratch(l) { assert!(got.get(l) == want.get(l), "final sequence has a different effect"); }
    }
    let b = Allocation::reg(borrowed);
    assert!(got.get(b) == want.get(b), "borrowed register not preserved");
    // Data attached to the input moves survives, in order, on the writes to their destinations.
    for &(_, d, t) in &input {
        if !d.is_none() { assert!(out.iter().any(|&(_, d2, t2)| d2 == d && t2 == t), "move lost"); }
    }
}
