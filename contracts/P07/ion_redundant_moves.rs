// P07: a move is elided as redundant only when the destination already has the value.
use crate::verif::Sim;
fn loc(i: usize) -> Allocation {
    if i % 3 == 2 { Allocation::stack(SpillSlot::new(i)) } else { Allocation::reg(PReg::new(i, RegClass::Int)) }
}
/// Runs a history on the tracker against a machine in which every unknown value is fresh.
fn history<N: Nd>(n: &mut N, u: usize, steps: usize) {
    let mut t = RedundantMoveEliminator::default();
    let mut m = Sim::new();
    let mut fresh = 1u64 << 40;
    for _ in 0..steps {
        match n.below(8) {
            0 => {
                t.clear();
                for i in 0..u { fresh += 1; m.set(loc(i), fresh); }
            }
            1 => {
                let a = loc(n.below(u));
                t.clear_alloc(a);
                fresh += 1;
                m.set(a, fresh);
            }
            _ => {
                let (a, b) = (loc(n.below(u)), loc(n.below(u)));
                let v = if n.bool() { Some(VReg::new(n.below(3), RegClass::Int)) } else { None };
                let r = t.process_move(a, b, v);
                if r.elide { assert!(m.get(a) == m.get(b), "elided a move whose destination does not hold the source's value"); }
                else { m.mv(a, b); }
            }
        }
    }
}
pub fn c_history<N: Nd>(n: &mut N) {
    let u = if N::SYMBOLIC { 2 } else { 2 + n.size(2, 7) };
    let k = if N::SYMBOLIC { 3 } else { n.size(3, 40) };
    history(n, u, k)
}
pub fn c_history_small<N: Nd>(n: &mut N) {
    let k = 3 + n.size(1, 7);
    history(n, 3, k)
}
