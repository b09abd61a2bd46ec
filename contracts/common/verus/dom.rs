// ---- dominance, and the table that answers for it
/// a lies on every path from s to b.
spec fn dom(g: Graph, s: Block, a: Block, b: Block) -> bool { forall|p: Seq<Block>| #[trigger] leads(g, p, s, b) ==> p.contains(a) }
spec fn up(t: Seq<Block>, b: Block) -> Block { t[b.0 as int] }
// ---- the finished table, in which the start has no entry
spec fn climb(t: Seq<Block>, b: Block, n: nat) -> Block decreases n { if n == 0 { b } else { let y = climb(t, b, (n - 1) as nat); if y.0 == u32::MAX { y } else { up(t, y) } } }
spec fn above(t: Seq<Block>, a: Block, b: Block) -> bool { exists|n: nat| #[trigger] climb(t, b, n) == a }
spec fn ranks(t: Seq<Block>, r: spec_fn(Block) -> nat) -> bool { forall|b: Block| b.0 < t.len() && (#[trigger] t[b.0 as int]).0 != u32::MAX ==> t[b.0 as int].0 < t.len() && r(t[b.0 as int]) < r(b) }
spec fn acyclic(t: Seq<Block>) -> bool { t.len() <= u32::MAX && exists|r: spec_fn(Block) -> nat| #[trigger] ranks(t, r) }
proof fn climb_front(t: Seq<Block>, b: Block, n: nat)
    requires b.0 != u32::MAX
    ensures climb(t, b, n + 1) == climb(t, up(t, b), n)
    decreases n
{ if n > 0 { climb_front(t, b, (n - 1) as nat); } else { assert(climb(t, b, 0) == b); assert(climb(t, b, 1) == up(t, climb(t, b, 0))); } }
proof fn above_step(t: Seq<Block>, a: Block, b: Block)
    requires b.0 != u32::MAX
    ensures above(t, a, b) <==> a == b || above(t, a, up(t, b))
{
    if a == b { assert(climb(t, b, 0) == a); }
    if above(t, a, b) && a != b {
        let n = choose|n: nat| #[trigger] climb(t, b, n) == a;
        assert(n > 0); climb_front(t, b, (n - 1) as nat); assert(climb(t, up(t, b), (n - 1) as nat) == a);
    }
    if above(t, a, up(t, b)) { let n = choose|n: nat| #[trigger] climb(t, up(t, b), n) == a; climb_front(t, b, n); assert(climb(t, b, n + 1) == a); }
}
proof fn above_none(t: Seq<Block>, a: Block, b: Block)
    requires b.0 == u32::MAX
    ensures above(t, a, b) <==> a == b
{
    assert(climb(t, b, 0) == b);
    assert forall|n: nat| #[trigger] climb(t, b, n) == b by { climb_none(t, b, n); }
}
proof fn climb_none(t: Seq<Block>, b: Block, n: nat)
    requires b.0 == u32::MAX
    ensures climb(t, b, n) == b
    decreases n
{ if n > 0 { climb_none(t, b, (n - 1) as nat); } }
/// The table answers every dominance question about reachable blocks, and has no entry for the others.
spec fn answers(g: Graph, s: Block, t: Seq<Block>) -> bool {
    &&& acyclic(t)
    &&& forall|a: Block, b: Block| a.0 != u32::MAX && reach(g, s, b) ==> #[trigger] above(t, a, b) == dom(g, s, a, b)
    &&& forall|b: Block| b.0 < t.len() && !reach(g, s, b) ==> (#[trigger] t[b.0 as int]).0 == u32::MAX
}
