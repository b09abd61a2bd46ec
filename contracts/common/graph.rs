/// A flow graph: successor and predecessor lists in step (one entry per edge), any shape.
pub struct Graph { pub n: usize, pub entry: Block, pub succs: Vec<Vec<Block>>, pub preds: Vec<Vec<Block>> }
pub fn any_graph<N: Nd>(n: &mut N, kmax: usize, smax: usize) -> Graph {
    let nb = 1 + n.size(kmax - 1, smax - 1);
    let entry = n.below(nb);
    let mut succs = Vec::new();
    let mut preds: Vec<Vec<Block>> = Vec::new();
    for _ in 0..nb { succs.push(Vec::new()); preds.push(Vec::new()); }
    for b in 0..nb {
        let k = n.below(4);
        for _ in 0..k {
            let t = n.below(nb);
            let v: &mut Vec<Block> = &mut succs[b];
            v.push(Block::new(t));
            let at = n.below(preds[t].len() + 1);
            preds[t].insert(at, Block::new(b));
        }
    }
    Graph { n: nb, entry: Block::new(entry), succs, preds }
}
/// Blocks reachable from `from` along successor edges without entering `without`.
pub fn reach(succs: &[Vec<Block>], from: usize, without: usize) -> Vec<bool> {
    let mut r = Vec::new();
    for _ in 0..succs.len() { r.push(false); }
    if from == without { return r; }
    r[from] = true;
    let mut work = Vec::new();
    work.push(from);
    while let Some(b) = work.pop() {
        for s in succs[b].iter() {
            let t = s.index();
            if t != without && t < r.len() && !r[t] { r[t] = true; work.push(t); }
        }
    }
    r
}
