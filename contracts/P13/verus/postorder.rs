use vstd::prelude::*;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/block.rs
//@ include ../../common/verus/error.rs
//@ include ../../common/verus/vecext.rs
//@ include ../../common/verus/cfg.rs
//@ include ../../common/verus/iter.rs
spec fn seen(vis: Seq<bool>, b: Block) -> bool { b.0 < vis.len() && vis[b.0 as int] }
spec fn edge(g: Graph, bl: Seq<Block>, k: int) -> bool { g(bl[k]).contains(bl[k + 1]) }
/// The first p successors of b have been dealt with.
#[verifier::opaque]
spec fn scanned(g: Graph, vis: Seq<bool>, b: Block, p: int) -> bool { 0 <= p <= g(b).len() && forall|j: int| 0 <= j < p ==> seen(vis, #[trigger] g(b)[j]) }
/// The i-th block put out has all its successors seen, and ahead of it as the postorder wants.
#[verifier::opaque]
spec fn finished(g: Graph, vis: Seq<bool>, out: Seq<Block>, i: int) -> bool { forall|y: Block| #[trigger] g(out[i]).contains(y) ==> seen(vis, y) && ahead(g, out, i, y) }
/// Every block seen is on the stack or put out.
#[verifier::opaque]
spec fn placed(vis: Seq<bool>, bl: Seq<Block>, out: Seq<Block>) -> bool { forall|b: Block| #[trigger] seen(vis, b) ==> out.contains(b) || bl.contains(b) }
#[verifier::opaque]
spec fn apart(a: Seq<Block>, b: Seq<Block>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] a[i] != #[trigger] b[j] }
/// The i-th block put out is followed by one that leads to it, or has one on the stack.
#[verifier::opaque]
spec fn owned(g: Graph, bl: Seq<Block>, out: Seq<Block>, i: int) -> bool { parented(g, out, i) || exists|k: int| 0 <= k < bl.len() && #[trigger] g(bl[k]).contains(out[i]) }
spec fn held(g: Graph, entry: Block, vis: Seq<bool>, b: Block) -> bool { seen(vis, b) && reach(g, entry, b) }
/// State of the search: blocks on the stack, how many successors of each are dealt with, blocks put out.
spec fn dfs(g: Graph, entry: Block, vis: Seq<bool>, bl: Seq<Block>, pos: Seq<int>, out: Seq<Block>) -> bool {
    &&& bl.len() == pos.len()
    &&& forall|k: int| #![trigger bl[k]] 0 <= k < bl.len() ==> held(g, entry, vis, bl[k])
    &&& forall|k: int| #![trigger out[k]] 0 <= k < out.len() ==> held(g, entry, vis, out[k])
    &&& placed(vis, bl, out) && apart(bl, out)
    &&& distinct(bl) && distinct(out)
    &&& bl.len() > 0 ==> bl[0] == entry
    &&& bl.len() == 0 ==> out.len() > 0 && out.last() == entry
    &&& forall|k: int| 0 <= k < bl.len() - 1 ==> #[trigger] edge(g, bl, k)
    &&& forall|k: int| 0 <= k < bl.len() ==> scanned(g, vis, bl[k], #[trigger] pos[k])
    &&& forall|i: int| 0 <= i < out.len() ==> #[trigger] finished(g, vis, out, i)
    &&& forall|i: int| 0 <= i < out.len() - (if bl.len() == 0 { 1int } else { 0 }) ==> #[trigger] owned(g, bl, out, i)
}
proof fn along(g: Graph, bl: Seq<Block>, a: int, b: int)
    requires 0 <= a <= b < bl.len(), forall|k: int| 0 <= k < bl.len() - 1 ==> #[trigger] edge(g, bl, k)
    ensures reach(g, bl[a], bl[b])
    decreases b - a
{
    if a == b { reach_refl(g, bl[a]); } else { along(g, bl, a, b - 1); assert(edge(g, bl, b - 1)); reach_step(g, bl[a], bl[b - 1], bl[b]); }
}
proof fn dfs_skip(g: Graph, entry: Block, vis: Seq<bool>, bl: Seq<Block>, pos: Seq<int>, out: Seq<Block>)
    requires dfs(g, entry, vis, bl, pos, out), bl.len() > 0, pos.last() < g(bl.last()).len(), seen(vis, g(bl.last())[pos.last()])
    ensures dfs(g, entry, vis, bl, pos.update(pos.len() - 1, pos.last() + 1), out)
{
    let n = bl.len() - 1; let p2 = pos.update(n, pos.last() + 1);
    assert(scanned(g, vis, bl[n], pos[n]));
    assert(scanned(g, vis, bl[n], pos[n] + 1)) by { reveal(scanned); }
    assert forall|k: int| 0 <= k < bl.len() implies scanned(g, vis, bl[k], #[trigger] p2[k]) by { if k < n { assert(p2[k] == pos[k]); } }
}
proof fn dfs_push(g: Graph, entry: Block, vis: Seq<bool>, bl: Seq<Block>, pos: Seq<int>, out: Seq<Block>, y: Block)
    requires dfs(g, entry, vis, bl, pos, out), bl.len() > 0, pos.last() < g(bl.last()).len(), y == g(bl.last())[pos.last()], y.0 < vis.len(), !vis[y.0 as int]
    ensures dfs(g, entry, vis.update(y.0 as int, true), bl.push(y), pos.update(pos.len() - 1, pos.last() + 1).push(0), out)
{
    let v2 = vis.update(y.0 as int, true); let b2 = bl.push(y); let n = bl.len() - 1; let p2 = pos.update(n, pos.last() + 1).push(0);
    assert forall|b: Block| seen(vis, b) implies #[trigger] seen(v2, b) by { }
    assert(placed(v2, b2, out)) by {
        reveal(placed);
        assert forall|b: Block| #[trigger] seen(v2, b) implies out.contains(b) || b2.contains(b) by {
            if b == y { assert(b2[n + 1] == y); }
            else { assert(seen(vis, b)); if bl.contains(b) { let k = bl.index_of(b); assert(b2[k] == b); } }
        }
    }
    assert(bl[n] == bl.last()); assert(held(g, entry, vis, bl[n]));
    assert(pos[n] >= 0) by { assert(scanned(g, vis, bl[n], pos[n])); reveal(scanned); }
    assert(g(bl[n]).contains(y));
    reach_step(g, entry, bl[n], y);
    assert(scanned(g, vis, bl[n], pos[n]));
    assert forall|k: int| #![trigger b2[k]] 0 <= k < b2.len() implies held(g, entry, v2, b2[k]) by { if k <= n { assert(b2[k] == bl[k]); assert(held(g, entry, vis, bl[k])); } }
    assert forall|k: int| #![trigger out[k]] 0 <= k < out.len() implies held(g, entry, v2, out[k]) by { assert(held(g, entry, vis, out[k])); }
    assert(apart(b2, out)) by {
        reveal(apart);
        assert forall|i: int, j: int| 0 <= i < b2.len() && 0 <= j < out.len() implies #[trigger] b2[i] != #[trigger] out[j] by { assert(held(g, entry, vis, out[j])); if i <= n { assert(b2[i] == bl[i]); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < b2.len() implies b2[i] != b2[j] by { assert(b2[i] == bl[i]); assert(held(g, entry, vis, bl[i])); if j <= n { assert(b2[j] == bl[j]); } }
    assert forall|k: int| 0 <= k < b2.len() - 1 implies #[trigger] edge(g, b2, k) by { assert(b2[k] == bl[k]); if k < n { assert(edge(g, bl, k)); assert(b2[k + 1] == bl[k + 1]); } }
    assert forall|k: int| 0 <= k < b2.len() implies scanned(g, v2, b2[k], #[trigger] p2[k]) by {
        reveal(scanned);
        if k <= n { assert(b2[k] == bl[k]); assert(scanned(g, vis, bl[k], pos[k])); assert forall|j: int| 0 <= j < p2[k] implies seen(v2, #[trigger] g(bl[k])[j]) by { if j < pos[k] { assert(seen(vis, g(bl[k])[j])); } } }
    }
    assert forall|i: int| 0 <= i < out.len() implies #[trigger] finished(g, v2, out, i) by { reveal(finished); assert(finished(g, vis, out, i)); }
    assert forall|i: int| 0 <= i < out.len() implies #[trigger] owned(g, b2, out, i) by {
        assert(owned(g, bl, out, i)); reveal(owned);
        if !parented(g, out, i) { let k = choose|k: int| 0 <= k < bl.len() && #[trigger] g(bl[k]).contains(out[i]); assert(b2[k] == bl[k]); assert(g(b2[k]).contains(out[i])); }
    }
}
proof fn dfs_pop(g: Graph, entry: Block, vis: Seq<bool>, bl: Seq<Block>, pos: Seq<int>, out: Seq<Block>)
    requires dfs(g, entry, vis, bl, pos, out), bl.len() > 0, pos.last() == g(bl.last()).len()
    ensures dfs(g, entry, vis, bl.drop_last(), pos.drop_last(), out.push(bl.last()))
{
    let x = bl.last(); let o2 = out.push(x); let b2 = bl.drop_last(); let n = bl.len() - 1; let p2 = pos.drop_last();
    assert(x == bl[n]); assert(o2.last() == x); assert(o2[out.len() as int] == x); assert(held(g, entry, vis, bl[n])); assert(scanned(g, vis, bl[n], pos[n]));
    assert forall|b: Block| out.contains(b) implies #[trigger] o2.contains(b) by { let i = out.index_of(b); assert(o2[i] == b); }
    assert(placed(vis, b2, o2)) by {
        reveal(placed);
        assert forall|b: Block| #[trigger] seen(vis, b) implies o2.contains(b) || b2.contains(b) by {
            if !out.contains(b) { let k = bl.index_of(b); if k < n { assert(b2[k] == b); } }
        }
    }
    assert forall|k: int| #![trigger b2[k]] 0 <= k < b2.len() implies held(g, entry, vis, b2[k]) by { assert(b2[k] == bl[k]); }
    assert forall|k: int| #![trigger o2[k]] 0 <= k < o2.len() implies held(g, entry, vis, o2[k]) by { if k < out.len() { assert(o2[k] == out[k]); } }
    assert(apart(b2, o2)) by {
        reveal(apart);
        assert forall|i: int, j: int| 0 <= i < b2.len() && 0 <= j < o2.len() implies #[trigger] b2[i] != #[trigger] o2[j] by { assert(b2[i] == bl[i]); if j < out.len() { assert(o2[j] == out[j]); } else { assert(bl[i] != bl[n]); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < o2.len() implies o2[i] != o2[j] by { reveal(apart); assert(o2[i] == out[i]); if j < out.len() { assert(o2[j] == out[j]); } else { assert(bl[n] != out[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < b2.len() implies b2[i] != b2[j] by { assert(b2[i] == bl[i] && b2[j] == bl[j]); }
    assert forall|k: int| 0 <= k < b2.len() - 1 implies #[trigger] edge(g, b2, k) by { assert(edge(g, bl, k)); assert(b2[k] == bl[k] && b2[k + 1] == bl[k + 1]); }
    assert forall|k: int| 0 <= k < b2.len() implies scanned(g, vis, b2[k], #[trigger] p2[k]) by { assert(b2[k] == bl[k]); assert(scanned(g, vis, bl[k], pos[k])); }
    assert forall|i: int| 0 <= i < o2.len() - (if b2.len() == 0 { 1int } else { 0 }) implies #[trigger] owned(g, b2, o2, i) by {
        reveal(owned);
        if i < out.len() {
            assert(owned(g, bl, out, i)); assert(o2[i] == out[i]);
            if parented(g, out, i) { let j = choose|j: int| i < j < out.len() && #[trigger] g(out[j]).contains(out[i]); assert(o2[j] == out[j]); assert(g(o2[j]).contains(o2[i])); }
            else { let k = choose|k: int| 0 <= k < bl.len() && #[trigger] g(bl[k]).contains(out[i]); if k < n { assert(b2[k] == bl[k]); assert(g(b2[k]).contains(o2[i])); } else { assert(g(o2[out.len() as int]).contains(o2[i])); } }
        } else { assert(edge(g, bl, n - 1)); assert(b2[n - 1] == bl[n - 1]); assert(g(b2[n - 1]).contains(o2[i])); }
    }
    assert forall|i: int| 0 <= i < o2.len() implies #[trigger] finished(g, vis, o2, i) by {
        reveal(finished);
        if i < out.len() {
            assert(o2[i] == out[i]); assert(finished(g, vis, out, i));
            assert forall|y: Block| #[trigger] g(o2[i]).contains(y) implies seen(vis, y) && ahead(g, o2, i, y) by {
                assert(ahead(g, out, i, y));
                if !reach(g, y, out[i]) { let j = choose|j: int| 0 <= j < i && #[trigger] out[j] == y; assert(o2[j] == y); }
            }
        } else {
            assert(o2[i] == x);
            assert forall|y: Block| #[trigger] g(o2[i]).contains(y) implies seen(vis, y) && ahead(g, o2, i, y) by {
                assert(g(x).contains(y)); let j = g(x).index_of(y);
                assert(seen(vis, g(x)[j])) by { reveal(scanned); }
                reveal(placed);
                if out.contains(y) { let q = out.index_of(y); assert(o2[q] == y); }
                else { let k = bl.index_of(y); along(g, bl, k, n); }
            }
        }
    }
}
proof fn dfs_done(g: Graph, entry: Block, vis: Seq<bool>, bl: Seq<Block>, pos: Seq<int>, out: Seq<Block>)
    requires dfs(g, entry, vis, bl, pos, out), bl.len() == 0
    ensures postorder(g, entry, out), forall|b: Block| !stray(g, entry, vis.len(), b)
{
    reveal(finished); reveal(placed);
    assert forall|i: int| 0 <= i < out.len() - 1 implies #[trigger] parented(g, out, i) by { assert(owned(g, bl, out, i)); reveal(owned); }
    let s = |b: Block| out.contains(b);
    let n = out.len() - 1;
    assert(out[n] == entry); assert(held(g, entry, vis, out[n])); assert(out.contains(entry));
    assert forall|x: Block, y: Block| #[trigger] s(x) && #[trigger] g(x).contains(y) implies s(y) && seen(vis, y) by { let i = out.index_of(x); assert(finished(g, vis, out, i)); assert(g(out[i]).contains(y)); }
    assert forall|b: Block| #[trigger] out.contains(b) <==> reach(g, entry, b) by {
        if out.contains(b) { let i = out.index_of(b); assert(held(g, entry, vis, out[i])); }
        if reach(g, entry, b) { reach_closed(g, s, entry, b); assert(s(b)); }
    }
    assert forall|b: Block| !stray(g, entry, vis.len(), b) by {
        if stray(g, entry, vis.len(), b) && b != entry {
            let x = choose|x: Block| reach(g, entry, x) && #[trigger] g(x).contains(b);
            assert(out.contains(x)); assert(s(x)); assert(seen(vis, b));
        }
    }
    assert forall|i: int, y: Block| 0 <= i < out.len() && #[trigger] g(out[i]).contains(y) implies ahead(g, out, i, y) by { assert(finished(g, vis, out, i)); }
}
spec fn todo(v: Seq<bool>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { todo(v.drop_last()) + (if v.last() { 0nat } else { 1nat }) } }
proof fn todo_less(v: Seq<bool>, i: int)
    requires 0 <= i < v.len(), !v[i]
    ensures todo(v.update(i, true)) < todo(v)
    decreases v.len()
{
    let w = v.update(i, true);
    if i == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); } else { assert(w.drop_last() =~= v.drop_last().update(i, true)); todo_less(v.drop_last(), i); }
}
spec fn blocks<'a>(st: Seq<State<'a>>) -> Seq<Block> { Seq::new(st.len(), |k: int| st[k].block) }
spec fn at<'a>(g: Graph, st: Seq<State<'a>>) -> Seq<int> { Seq::new(st.len(), |k: int| st[k].succs.i as int) }
/// What each state's iterator still has to give is the rest of the block's successors.
spec fn tails<'a>(g: Graph, st: Seq<State<'a>>) -> bool {
    forall|k: int| 0 <= k < st.len() ==> rest(g, #[trigger] st[k])
}
spec fn rest<'a>(g: Graph, s: State<'a>) -> bool { s.succs.wf() && s.succs.s@ == g(s.block) }
spec fn top_left<'a>(st: Seq<State<'a>>) -> nat { if st.len() == 0 { 0 } else { (st.last().succs.s@.len() - st.last().succs.i) as nat } }
//@ fn src/postorder.rs calculate
//@ call iter vx_iter
//@ include ../../common/verus/postorder_contract.rs
//@ entry
    proof { if entry.0 >= num_blocks { assert(stray(g, entry, num_blocks as nat, entry)); } }
//@ loop 0 before
    proof {
        reach_refl(g, entry);
        assert(at(g, stack@) =~= seq![0int]); assert(blocks(stack@) =~= seq![entry]);
        reveal(placed); reveal(scanned); reveal(apart);
        assert(blocks(stack@)[0] == entry);
    }
//@ loop 0
    invariant forall|b: Block, c: Block| b.0 < num_blocks && #[trigger] g(b).contains(c) ==> c.0 != u32::MAX,
        forall|b: Block| b.0 < num_blocks ==> #[trigger] succ_blocks.requires((b,)), forall|b: Block, r: &'a [Block]| b.0 < num_blocks && #[trigger] succ_blocks.ensures((b,), r) ==> r@ == g(b),
        visited@.len() == num_blocks, tails(g, stack@), dfs(g, entry, visited@, blocks(stack@), at(g, stack@), out@)
    ensures stack@.len() == 0
    decreases todo(visited@), stack@.len(), top_left(stack@)
//@ loop 0 begin
    let ghost st = stack@; let ghost v0 = visited@; let ghost o0 = out@; let ghost n = st.len() - 1; let ghost b0 = blocks(st); let ghost p0 = at(g, st);
    let ghost y = g(st[n].block)[p0[n]];
    proof {
        if st.len() > 0 {
            assert(rest(g, st[n])); assert(b0.last() == st[n].block);
            assert(b0[n] == st[n].block); assert(held(g, entry, v0, b0[n])); assert(p0.last() == p0[n]);
            if st[n].succs.i < st[n].succs.s@.len() {
                assert(g(st[n].block).contains(y));
                if y.0 >= num_blocks { assert(stray(g, entry, num_blocks as nat, y)); }
            }
        }
    }
//@ loop 0 else
    proof { assert(blocks(stack@) =~= b0); assert(at(g, stack@) =~= p0); }
//@ loop 0 end
    proof {
        let s2 = stack@;
        assert(st.len() > 0);
        if st[n].succs.i == st[n].succs.s@.len() {
            assert(p0.last() == g(b0.last()).len()); dfs_pop(g, entry, v0, b0, p0, o0); assert(s2.len() == st.len() - 1);
            assert(s2 =~= st.drop_last());
            assert(blocks(s2) =~= b0.drop_last()); assert(at(g, s2) =~= p0.drop_last());
            assert(visited@ == v0); assert(out@ == o0.push(b0.last()));
        } else if v0[y.0 as int] {
            dfs_skip(g, entry, v0, b0, p0, o0);assert(s2.len() == st.len()); assert(visited@ == v0); assert(out@ == o0);
            assert(blocks(s2) =~= b0); assert(at(g, s2) =~= p0.update(n, p0[n] + 1));
        } else {
            dfs_push(g, entry, v0, b0, p0, o0, y);
            todo_less(v0, y.0 as int);assert(s2.len() == st.len()+1);assert(out@ == o0); assert(visited@ == v0.update(y.0 as int, true));
            assert(blocks(s2) =~= b0.push(y)); assert(at(g, s2) =~= p0.update(n, p0[n] + 1).push(0));
        }
    }
//@ loop 0 after
    proof { dfs_done(g, entry, visited@, blocks(stack@), at(g, stack@), out@); }
//@ end
}
fn main() {}
