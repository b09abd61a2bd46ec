// ---- a control-flow graph given by a function from blocks to block lists
type Graph = spec_fn(Block) -> Seq<Block>;
spec fn is_path(g: Graph, p: Seq<Block>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> g(#[trigger] p[i]).contains(p[i + 1]) }
spec fn leads(g: Graph, p: Seq<Block>, a: Block, b: Block) -> bool { is_path(g, p) && p[0] == a && p.last() == b }
/// b can be reached from a (in zero or more steps).
spec fn reach(g: Graph, a: Block, b: Block) -> bool { exists|p: Seq<Block>| #[trigger] leads(g, p, a, b) }
proof fn reach_refl(g: Graph, a: Block)
    ensures reach(g, a, a)
{ assert(leads(g, seq![a], a, a)); }
proof fn reach_step(g: Graph, a: Block, b: Block, c: Block)
    requires reach(g, a, b), g(b).contains(c)
    ensures reach(g, a, c)
{
    let p = choose|p: Seq<Block>| #[trigger] leads(g, p, a, b); let q = p.push(c);
    assert forall|i: int| 0 <= i < q.len() - 1 implies g(#[trigger] q[i]).contains(q[i + 1]) by { if i < p.len() - 1 { assert(q[i] == p[i] && q[i + 1] == p[i + 1]); } else { assert(q[i] == b); } }
    assert(leads(g, q, a, c));
}
/// A set that contains a and is closed under the graph contains all that a reaches.
proof fn reach_closed(g: Graph, s: spec_fn(Block) -> bool, a: Block, b: Block)
    requires s(a), reach(g, a, b), forall|x: Block, y: Block| #[trigger] s(x) && #[trigger] g(x).contains(y) ==> s(y)
    ensures s(b)
{
    let p = choose|p: Seq<Block>| #[trigger] leads(g, p, a, b);
    path_closed(g, s, p, p.len() - 1);
}
proof fn path_closed(g: Graph, s: spec_fn(Block) -> bool, p: Seq<Block>, i: int)
    requires is_path(g, p), 0 <= i < p.len(), s(p[0]), forall|x: Block, y: Block| #[trigger] s(x) && #[trigger] g(x).contains(y) ==> s(y)
    ensures s(p[i])
    decreases i
{ if i > 0 { path_closed(g, s, p, i - 1); assert(g(p[i - 1]).contains(p[i - 1 + 1])); } }
spec fn ahead(g: Graph, out: Seq<Block>, i: int, y: Block) -> bool { (exists|j: int| 0 <= j < i && #[trigger] out[j] == y) || reach(g, y, out[i]) }
spec fn distinct(s: Seq<Block>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
/// The postorder that a depth-first search from entry produces.
spec fn postorder(g: Graph, entry: Block, out: Seq<Block>) -> bool {
    &&& distinct(out)
    &&& forall|b: Block| #[trigger] out.contains(b) <==> reach(g, entry, b)
    &&& out.len() > 0 && out.last() == entry
    &&& forall|i: int, y: Block| 0 <= i < out.len() && #[trigger] g(out[i]).contains(y) ==> ahead(g, out, i, y)
    &&& forall|i: int| 0 <= i < out.len() - 1 ==> #[trigger] parented(g, out, i)
}
/// Some block listed later leads to the i-th.
spec fn parented(g: Graph, out: Seq<Block>, i: int) -> bool { exists|j: int| i < j < out.len() && #[trigger] g(out[j]).contains(out[i]) }
/// b is given as an entry or a successor of a block reached, yet is no block.
spec fn stray(g: Graph, entry: Block, n: nat, b: Block) -> bool { b.0 >= n && (b == entry || exists|x: Block| reach(g, entry, x) && #[trigger] g(x).contains(b)) }
