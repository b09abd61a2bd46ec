// P05: a resolved parallel move performs exactly the parallel assignment.
use crate::verif::Sim;
fn loc(i: usize, stacky: bool) -> Allocation {
    if stacky && i % 3 == 2 { Allocation::stack(SpillSlot::new(i)) } else { Allocation::reg(PReg::new(i % 63, if i >= 63 { RegClass::Float } else { RegClass::Int })) }
}
/// Any move set with distinct destinations over u locations, plus duplicates; tags identify the destination.
fn any_moves<N: Nd>(n: &mut N, kmax: usize, smax: usize) -> (Vec<(Allocation, Allocation, u32)>, usize) {
    let u = 1 + n.size(kmax - 1, smax);
    let stacky = n.bool();
    let mut v: Vec<(Allocation, Allocation, u32)> = Vec::new();
    for d in 0..u {
        if n.bool() {
            let s = n.below(u);
            let pos = n.below(v.len() + 1);
            v.insert(pos, (loc(s, stacky), loc(d, stacky), d as u32 + 1));
            if n.bool() && !N::SYMBOLIC {
                let pos = n.below(v.len() + 1);
                v.insert(pos, (loc(s, stacky), loc(d, stacky), d as u32 + 1));
            }
        }
    }
    if N::SYMBOLIC && v.len() > 0 && n.bool() { let m = v[0]; v.push(m); }
    (v, u)
}
fn has_cycle(moves: &[(Allocation, Allocation, u32)]) -> bool {
    // Each destination has one writer, so follow sources backwards.
    for &(_, d, _) in moves {
        let mut cur = d;
        for step in 0..=moves.len() {
            let mut src = None;
            for &(s, d2, _) in moves { if d2 == cur { src = Some(s); } }
            match src {
                None => break,
                Some(s) => { if s == d { if step == 0 { break; } return true; } if s == cur { break; } cur = s; }
            }
        }
    }
    false
}
fn check<N: Nd>(n: &mut N, kmax: usize, smax: usize) {
    let (moves, u) = any_moves(n, kmax, smax);
    let mut pm = ParallelMoves::new();
    for &(s, d, t) in &moves { pm.add(s, d, t); }
    let resolved = pm.resolve();
    let needs = resolved.needs_scratch();
    assert!(!needs || has_cycle(&moves), "scratch demanded without a cycle");
    // Placeholder form.
    let seq: Vec<(Allocation, Allocation, u32)> = match &resolved {
        MoveVecWithScratch::NoScratch(v) | MoveVecWithScratch::Scratch(v) => v.iter().copied().collect(),
    };
    let mut sim = Sim::new();
    let mut written = false;
    for &(s, d, _) in &seq {
        if s.is_none() { assert!(written, "scratch read before written"); }
        if s.is_none() || d.is_none() { assert!(needs, "placeholder in a sequence that needs no scratch"); }
        assert!(!(s.is_none() && d.is_none()));
        if d.is_none() { written = true; }
        sim.mv(s, d);
    }
    verify(n, &moves, &seq, &sim, u, Allocation::none());
    // With a scratch register filled in.
    let scratch = if n.bool() { Allocation::reg(PReg::new(62, RegClass::Vector)) } else { Allocation::stack(SpillSlot::new(5000)) };
    if !needs {
        if n.bool() {
            let w = resolved.without_scratch();
            let w: Vec<_> = w.expect("no scratch needed").iter().copied().collect();
            assert!(w == seq);
            return;
        }
    }
    let done: Vec<_> = resolved.with_scratch(scratch).iter().copied().collect();
    assert!(done.len() == seq.len());
    let mut sim = Sim::new();
    for i in 0..done.len() {
        let (s, d, t) = done[i];
        let (s0, d0, t0) = seq[i];
        assert!(s == if s0.is_none() { scratch } else { s0 });
        assert!(d == if d0.is_none() { scratch } else { d0 });
        assert!(t == t0);
        sim.mv(s, d);
    }
    verify(n, &moves, &done, &sim, u, scratch);
}
fn verify<N: Nd>(_n: &mut N, moves: &[(Allocation, Allocation, u32)], seq: &[(Allocation, Allocation, u32)], sim: &Sim, _u: usize, scratch: Allocation) {
    for &(s, d, t) in moves {
        assert!(sim.get(d) == s.bits() as u64, "destination does not hold the source's original value");
        // The last write to a destination carries that destination's data.
        let mut last = None;
        for &(_, d2, t2) in seq { if d2 == d { last = Some(t2); } }
        if let Some(l) = last { assert!(l == t, "attached data lost"); }
    }
    for &(l, v) in &sim.m {
        if l == scratch { continue; }
        let mut is_dst = false;
        for &(_, d, _) in moves { if d == l { is_dst = true; } }
        if !is_dst { assert!(v == l.bits() as u64, "a location that is no destination changed"); }
    }
}
pub fn c_resolve<N: Nd>(n: &mut N) { check(n, 3, 12) }
pub fn c_resolve_large<N: Nd>(n: &mut N) { check(n, 3, 60) }
