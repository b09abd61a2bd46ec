//@ ghost g: Graph
//@ ghost pr: Graph
//@ spec
    requires postorder(g, start, post_ord@), post_ord@.len() <= u32::MAX, num_blocks <= u32::MAX,
        forall|i: int| 0 <= i < post_ord@.len() ==> (#[trigger] post_ord@[i]).0 < num_blocks,
        forall|b: Block| post_ord@.contains(b) ==> #[trigger] preds.requires((b,)),
        // the same lists at every call, of the blocks that lead to b
        forall|b: Block, r: &'a [Block]| post_ord@.contains(b) && #[trigger] preds.ensures((b,), r) ==> r@ == pr(b),
        forall|b: Block, p: Block| post_ord@.contains(b) ==> (#[trigger] pr(b).contains(p) <==> g(p).contains(b)),
        forall|b: Block, p: Block| post_ord@.contains(b) && #[trigger] pr(b).contains(p) ==> p.0 < num_blocks
    ensures answers(g, start, final(out)@), final(out)@.len() == num_blocks
