// P15: flow-graph analysis rejects exactly critical edges and unplaceable branch arguments.
use crate::verif::{any_graph, reach, TF};
fn any_func<N: Nd>(n: &mut N, smax: usize) -> TF {
    let g = any_graph(n, 2, smax);
    let mut f = TF::empty();
    // Mostly few edges, so that accepted functions are common.
    let thin = n.below(3);
    let mut order: Vec<usize> = (0..g.n).collect();
    if n.bool() { order.reverse(); }
    f.ranges = vec![(0, 0); g.n];
    let mut at = 0;
    for &b in &order { let k = 1 + n.below(3); f.ranges[b] = (at, at + k); at += k; }
    f.insts = at;
    f.entry = g.entry;
    f.succs = vec![vec![]; g.n]; f.preds = vec![vec![]; g.n]; f.params = vec![vec![]; g.n]; f.args = vec![vec![]; g.n];
    for b in 0..g.n {
        for (i, s) in g.succs[b].iter().enumerate() {
            if thin > 0 && i >= thin { continue; }
            f.succs[b].push(*s); f.preds[s.index()].push(Block::new(b)); f.args[b].push(vec![]);
        }
    }
    f.vregs = 1;
    for _ in 0..at {
        let ops = if n.below(4) == 0 { vec![Operand::any_use(VReg::new(0, RegClass::Int))] } else { vec![] };
        f.operands.push(ops); f.clobbers.push(PRegSet::empty()); f.is_branch.push(false); f.is_ret.push(false);
    }
    f
}
pub fn c_init<N: Nd>(n: &mut N) {
    let f = any_func(n, 10);
    let nb = f.ranges.len();
    let mut ctx = CFGInfoCtx::default();
    let mut info = CFGInfo::default();
    if n.bool() {
        // Reused: whatever an earlier run, successful or not, left behind.
        let f0 = any_func(n, 10);
        let _ = info.init(&f0, &mut ctx);
    }
    let npred = |b: usize| f.preds[b].len() + (b == f.entry.index()) as usize;
    let crit = |p: usize, b: usize| f.succs[p].len() > 1 && npred(b) > 1 && f.succs[p].contains(&Block::new(b));
    let badarg = |b: usize| f.succs[b].iter().any(|s| npred(s.index()) > 1) && !f.operands[f.ranges[b].1 - 1].is_empty();
    let mut bad = false;
    for b in 0..nb { bad |= badarg(b); for p in 0..nb { bad |= crit(p, b); } }
    match info.init(&f, &mut ctx) {
        Err(RegAllocError::CritEdge(p, b)) => assert!(crit(p.index(), b.index()), "names a critical edge"),
        Err(RegAllocError::DisallowedBranchArg(i)) => assert!((0..nb).any(|b| badarg(b) && f.ranges[b].1 - 1 == i.index()), "names an offending branch"),
        Err(_) => panic!("unexpected error"),
        Ok(()) => {
            assert!(!bad, "accepts a critical edge or an unplaceable branch argument");
            assert!(info.insn_block.len() == f.insts && info.block_entry.len() == nb && info.block_exit.len() == nb);
            for b in 0..nb {
                let (x, y) = f.ranges[b];
                for i in x..y { assert!(info.insn_block[i] == Block::new(b), "instruction is mapped to its block"); }
                assert!(info.block_entry[b] == ProgPoint::before(Inst::new(x)), "block entry point");
                assert!(info.block_exit[b] == ProgPoint::after(Inst::new(y - 1)), "block exit point");
            }
            assert!(info.approx_loop_depth.len() == nb);
        }
    }
}
pub fn c_dominates<N: Nd>(n: &mut N) {
    let f = any_func(n, 10);
    let info = match CFGInfo::new(&f) { Ok(i) => i, Err(_) => { n.assume(false); return } };
    let re = reach(&f.succs, f.entry.index(), usize::MAX);
    for a in 0..re.len() {
        let avoid = reach(&f.succs, f.entry.index(), a);
        for b in 0..re.len() {
            if re[a] && re[b] { assert!(info.dominates(Block::new(a), Block::new(b)) == !avoid[b], "dominance is path dominance"); }
        }
    }
}
