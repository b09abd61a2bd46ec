// P14: the dominator table and query agree with path dominance.
use crate::verif::{any_graph, reach};
pub fn c_domtree<N: Nd>(n: &mut N) {
    let g = any_graph(n, 3, 20);
    let e = g.entry.index();
    let (mut v, mut po) = (Vec::new(), Vec::new());
    // A finishing order of a depth-first search, computed by the contract itself.
    dfs(&g.succs, e, &mut v, &mut po, g.n);
    let mut rpo = Vec::new();
    for _ in 0..n.below(3) * 4 { rpo.push(Some(0)); }
    let mut idom = Vec::new();
    for _ in 0..n.below(3) * 4 { idom.push(Block::new(0)); }
    calculate(g.n, |b| &g.preds[b.index()][..], &po, &mut rpo, &mut idom, g.entry);
    let re = reach(&g.succs, e, usize::MAX);
    assert!(idom.len() == g.n);
    assert!(idom[e].is_invalid(), "the entry has no immediate dominator");
    for a in 0..g.n {
        if !re[a] { assert!(idom[a].is_invalid()); continue; }
        let avoid = reach(&g.succs, e, a);
        for b in 0..g.n {
            if !re[b] { continue; }
            assert!(dominates(&idom, Block::new(a), Block::new(b)) == !avoid[b], "dominance is path dominance");
        }
    }
    for b in 0..g.n {
        if b == e || !re[b] { continue; }
        let i = idom[b];
        assert!(i.is_valid() && i.index() != b && !reach(&g.succs, e, i.index())[b], "immediate dominator is a strict dominator");
    }
}
fn dfs(succs: &[Vec<Block>], b: usize, seen: &mut Vec<bool>, out: &mut Vec<Block>, n: usize) {
    if seen.is_empty() { for _ in 0..n { seen.push(false); } }
    seen[b] = true;
    for s in succs[b].iter() { if !seen[s.index()] { dfs(succs, s.index(), seen, out, n); } }
    out.push(Block::new(b));
}
