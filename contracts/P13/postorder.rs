// P13: postorder lists each reachable block once, entry last, children first.
use crate::verif::{any_graph, reach};
pub fn c_postorder<N: Nd>(n: &mut N) {
    let g = any_graph(n, 3, 20);
    let e = g.entry.index();
    // Scratch and output arrive dirty.
    let mut visited: Vec<bool> = Vec::new();
    for _ in 0..n.below(3) * 5 { visited.push(true); }
    let mut out: Vec<Block> = Vec::new();
    for _ in 0..n.below(3) { out.push(Block::new(1)); }
    let r = calculate(g.n, g.entry, &mut visited, &mut out, |b| &g.succs[b.index()][..]);
    assert!(r.is_ok(), "valid graph accepted");
    let re = reach(&g.succs, e, usize::MAX);
    let mut pos = vec![usize::MAX; g.n];
    for (i, b) in out.iter().enumerate() {
        assert!(b.index() < g.n && re[b.index()], "lists reachable blocks only");
        assert!(pos[b.index()] == usize::MAX, "each block once");
        pos[b.index()] = i;
    }
    for b in 0..g.n { assert!(!re[b] || pos[b] != usize::MAX, "every reachable block is listed"); }
    assert!(out.last() == Some(&g.entry), "entry last");
    for b in 0..g.n {
        if !re[b] { continue; }
        for s in g.succs[b].iter() {
            let t = s.index();
            assert!(pos[t] <= pos[b] || reach(&g.succs, t, usize::MAX)[b], "children first");
        }
    }
}
pub fn c_out_of_range<N: Nd>(n: &mut N) {
    let mut g = any_graph(n, 3, 20);
    let bad = if n.bool() { g.n } else if n.bool() { g.n + 1 + n.below(1000) } else { (u32::MAX >> 1) as usize };
    let mut entry = g.entry;
    let b = n.below(g.n);
    let re = reach(&g.succs, g.entry.index(), usize::MAX);
    let mut hit = re[b];
    if n.bool() { entry = Block::new(bad); hit = true; } else { let at = n.below(g.succs[b].len() + 1); g.succs[b].insert(at, Block::new(bad)); }
    let (mut v, mut o) = (Vec::new(), Vec::new());
    let r = calculate(g.n, entry, &mut v, &mut o, |b| &g.succs[b.index()][..]);
    match r {
        Err(RegAllocError::BB(x)) => assert!(hit && x.index() == bad, "names the out-of-range block"),
        Err(_) => panic!("wrong error"),
        Ok(()) => assert!(!hit, "out-of-range block accepted"),
    }
}
