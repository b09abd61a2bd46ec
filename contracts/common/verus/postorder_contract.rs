//@ ghost g: Graph
//@ spec
    requires entry.0 != u32::MAX, forall|b: Block, c: Block| b.0 < num_blocks && #[trigger] g(b).contains(c) ==> c.0 != u32::MAX,
        // the caller's closure describes the graph g
        forall|b: Block| b.0 < num_blocks ==> #[trigger] succ_blocks.requires((b,)), forall|b: Block, r: &'a [Block]| b.0 < num_blocks && #[trigger] succ_blocks.ensures((b,), r) ==> r@ == g(b)
    ensures match res {
        Ok(()) => postorder(g, entry, final(out)@) && forall|b: Block| !stray(g, entry, num_blocks as nat, b),
        Err(e) => exists|b: Block| e == RegAllocError::BB(b) && #[trigger] stray(g, entry, num_blocks as nat, b),
    }
