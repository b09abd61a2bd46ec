use vstd::prelude::*;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/block.rs
//@ include ../../common/verus/vecext.rs
//@ include ../../common/verus/cfg.rs
//@ include ../../common/verus/dom.rs
spec fn rank_is(o: Seq<Option<u32>>, po: Seq<Block>, i: int) -> bool { has(o, po[i]) && rk(o, po[i]) == po.len() - 1 - i }
// ---- ranks and the tree built so far
spec fn has(o: Seq<Option<u32>>, b: Block) -> bool { b.0 < o.len() && o[b.0 as int] is Some }
spec fn rk(o: Seq<Option<u32>>, b: Block) -> nat { if has(o, b) { o[b.0 as int]->0 as nat } else { 0 } }
spec fn val(t: Seq<Block>, b: Block) -> bool { b.0 < t.len() && t[b.0 as int].0 != u32::MAX }
ghost struct Cx { g: Graph, pr: Graph, s: Block, o: Seq<Option<u32>> }
impl Cx {
    spec fn rk(self, b: Block) -> nat { rk(self.o, b) }
    spec fn has(self, b: Block) -> bool { has(self.o, b) }
}
#[verifier::opaque]
spec fn early(c: Cx, b: Block) -> bool { exists|p: Block| #[trigger] c.pr(b, p) && c.has(p) && c.rk(p) < c.rk(b) }
impl Cx { spec fn pr(self, b: Block, p: Block) -> bool { (self.pr)(b).contains(p) } }
spec fn ctx(c: Cx) -> bool {
    &&& forall|b: Block| c.has(b) <==> #[trigger] reach(c.g, c.s, b)
    &&& forall|b: Block, p: Block| c.has(b) ==> (#[trigger] c.pr(b, p) <==> (c.g)(p).contains(b))
    &&& forall|b: Block, p: Block| c.has(b) && #[trigger] c.pr(b, p) ==> p.0 < c.o.len()
    &&& forall|b: Block| #[trigger] c.has(b) && b != c.s ==> early(c, b)
    &&& forall|a: Block, b: Block| c.has(a) && c.has(b) && #[trigger] c.rk(a) == #[trigger] c.rk(b) ==> a == b
    &&& c.has(c.s) && c.rk(c.s) == 0 && c.o.len() <= u32::MAX
}
/// Entries point to entries of smaller rank, up to the start, which points to itself.
spec fn tree(c: Cx, t: Seq<Block>) -> bool {
    t.len() == c.o.len() && val(t, c.s) && up(t, c.s) == c.s && entries(c, t)
}
#[verifier::opaque]
spec fn entries(c: Cx, t: Seq<Block>) -> bool { forall|b: Block| #[trigger] val(t, b) ==> c.has(b) && val(t, up(t, b)) && (b != c.s ==> c.rk(up(t, b)) < c.rk(b)) }
proof fn at(c: Cx, t: Seq<Block>, b: Block)
    requires tree(c, t), val(t, b)
    ensures c.has(b), val(t, up(t, b)), c.has(up(t, b)), b != c.s ==> c.rk(up(t, b)) < c.rk(b)
{ reveal(entries); assert(val(t, up(t, b))); }
/// a is b or above it.
spec fn anc(o: Seq<Option<u32>>, t: Seq<Block>, a: Block, b: Block) -> bool decreases rk(o, b) {
    val(t, b) && (a == b || (rk(o, up(t, b)) < rk(o, b) && anc(o, t, a, up(t, b))))
}
proof fn anc_val(c: Cx, t: Seq<Block>, a: Block, b: Block)
    requires ctx(c), tree(c, t), anc(c.o, t, a, b)
    ensures val(t, a), val(t, b), c.has(a), c.has(b), c.rk(a) <= c.rk(b), c.rk(a) == c.rk(b) ==> a == b
    decreases c.rk(b)
{ at(c, t, b); if a != b { anc_val(c, t, a, up(t, b)); } }
proof fn anc_self(o: Seq<Option<u32>>, t: Seq<Block>, a: Block)
    requires val(t, a)
    ensures anc(o, t, a, a)
{ }
proof fn anc_trans(o: Seq<Option<u32>>, t: Seq<Block>, a: Block, b: Block, d: Block)
    requires anc(o, t, a, b), anc(o, t, b, d)
    ensures anc(o, t, a, d)
    decreases rk(o, d)
{ if b != d { anc_trans(o, t, a, b, up(t, d)); } }
/// The lower bounds that all predecessors of b with an entry share.
spec fn common(c: Cx, t: Seq<Block>, b: Block, w: Block) -> bool { forall|p: Block| #[trigger] c.pr(b, p) && val(t, p) ==> anc(c.o, t, w, p) }
spec fn nca(c: Cx, t: Seq<Block>, b: Block, z: Block) -> bool { val(t, z) && common(c, t, b, z) && forall|w: Block| #[trigger] common(c, t, b, w) ==> anc(c.o, t, w, z) }
/// What the predecessors share lies at or above b's entry.
#[verifier::opaque]
spec fn low(c: Cx, t: Seq<Block>, b: Block) -> bool { forall|w: Block| #[trigger] common(c, t, b, w) ==> anc(c.o, t, w, up(t, b)) }
/// b's entry is above its earlier predecessors, unless it is due for a visit in this round.
#[verifier::opaque]
spec fn fwd(c: Cx, t: Seq<Block>, cur: nat, b: Block) -> bool {
    forall|p: Block| #[trigger] c.pr(b, p) && c.has(p) && c.rk(p) < c.rk(b) ==> anc(c.o, t, up(t, b), p) || (c.rk(b) >= cur && c.rk(up(t, b)) < cur)
}
/// What dominates b strictly dominates its entry.
#[verifier::opaque]
spec fn over(c: Cx, t: Seq<Block>, b: Block) -> bool { forall|d: Block| d != b && #[trigger] dom(c.g, c.s, d, b) ==> dom(c.g, c.s, d, up(t, b)) }
spec fn node(c: Cx, t: Seq<Block>, cur: nat, b: Block) -> bool { low(c, t, b) && fwd(c, t, cur, b) && over(c, t, b) }
spec fn inv(c: Cx, t: Seq<Block>, cur: nat) -> bool { tree(c, t) && forall|b: Block| #![trigger val(t, b)] val(t, b) && b != c.s ==> node(c, t, cur, b) }
spec fn settled(c: Cx, t: Seq<Block>, cur: nat) -> bool { forall|b: Block| #![trigger val(t, b)] val(t, b) && b != c.s && c.rk(b) < cur ==> common(c, t, b, up(t, b)) }

proof fn dom_anc(c: Cx, t: Seq<Block>, cur: nat, d: Block, b: Block)
    requires ctx(c), inv(c, t, cur), val(t, b), dom(c.g, c.s, d, b)
    ensures anc(c.o, t, d, b)
    decreases c.rk(b)
{
    if d != b {
        if b == c.s { assert(leads(c.g, seq![c.s], c.s, c.s)); assert(seq![c.s].contains(d)); }
        else { at(c, t, b); assert(node(c, t, cur, b)); reveal(over); dom_anc(c, t, cur, d, up(t, b)); }
    }
}
proof fn dom_down(c: Cx, t: Seq<Block>, cur: nat, d: Block, n: Block, r: Block)
    requires ctx(c), inv(c, t, cur), anc(c.o, t, r, n), anc(c.o, t, d, r), dom(c.g, c.s, d, n)
    ensures dom(c.g, c.s, d, r)
    decreases c.rk(n)
{
    if n != r {
        anc_val(c, t, r, n); anc_val(c, t, d, r);
        assert(n != c.s); at(c, t, n);
        assert(node(c, t, cur, n)); reveal(over);
        dom_down(c, t, cur, d, up(t, n), r);
    }
}
/// A strict dominator of b dominates b's reachable predecessors.
proof fn dom_pred(c: Cx, d: Block, b: Block, p: Block)
    requires ctx(c), c.has(b), c.has(p), c.pr(b, p), d != b, dom(c.g, c.s, d, b)
    ensures dom(c.g, c.s, d, p)
{
    assert forall|q: Seq<Block>| #[trigger] leads(c.g, q, c.s, p) implies q.contains(d) by {
        let r = q.push(b);
        assert forall|i: int| 0 <= i < r.len() - 1 implies (c.g)(#[trigger] r[i]).contains(r[i + 1]) by { assert(r[i] == q[i]); if i < q.len() - 1 { assert(r[i + 1] == q[i + 1]); } }
        assert(leads(c.g, r, c.s, b));
        let i = r.index_of(d); assert(r.contains(d)); assert(q[i] == d);
    }
}
// ---- setting the entry of x to z, a proper step up
spec fn step(c: Cx, t: Seq<Block>, x: Block, z: Block) -> bool {
    &&& ctx(c) && tree(c, t) && c.has(x) && x != c.s && val(t, z) && z.0 != u32::MAX && c.rk(z) < c.rk(x)
    &&& val(t, x) ==> anc(c.o, t, z, up(t, x))
}
spec fn set(t: Seq<Block>, x: Block, z: Block) -> Seq<Block> { t.update(x.0 as int, z) }
proof fn set_tree(c: Cx, t: Seq<Block>, x: Block, z: Block)
    requires step(c, t, x, z)
    ensures tree(c, set(t, x, z)), forall|b: Block| #[trigger] val(set(t, x, z), b) <==> val(t, b) || b == x, forall|b: Block| b != x ==> #[trigger] up(set(t, x, z), b) == up(t, b)
{
    let t2 = set(t, x, z);
    assert forall|b: Block| b != x implies #[trigger] up(t2, b) == up(t, b) by { assert(b.0 != x.0); }
    assert forall|b: Block| #[trigger] val(t2, b) <==> val(t, b) || b == x by { if b != x { assert(b.0 != x.0); } }
    assert(entries(c, t2)) by {
        reveal(entries);
        assert forall|b: Block| #[trigger] val(t2, b) implies c.has(b) && val(t2, up(t2, b)) && (b != c.s ==> c.rk(up(t2, b)) < c.rk(b)) by {
            if b == x { assert(up(t2, b) == z); assert(val(t2, z)); } else { assert(val(t, b)); at(c, t, b); assert(val(t2, up(t, b))); }
        }
    }
}
proof fn anc_same(c: Cx, t: Seq<Block>, x: Block, z: Block, a: Block, b: Block)
    requires step(c, t, x, z), val(t, b), !anc(c.o, t, x, b)
    ensures anc(c.o, set(t, x, z), a, b) == anc(c.o, t, a, b)
    decreases c.rk(b)
{
    at(c, t, b);
    set_tree(c, t, x, z);
    assert(b != x);
    if c.rk(up(t, b)) < c.rk(b) { anc_same(c, t, x, z, a, up(t, b)); }
}
proof fn anc_shrink(c: Cx, t: Seq<Block>, x: Block, z: Block, a: Block, b: Block)
    requires step(c, t, x, z), val(t, b), anc(c.o, set(t, x, z), a, b)
    ensures anc(c.o, t, a, b)
    decreases c.rk(b)
{
    at(c, t, b);
    set_tree(c, t, x, z);
    if a != b {
        if b == x { assert(up(set(t, x, z), x) == z); anc_shrink(c, t, x, z, a, z); anc_trans(c.o, t, a, z, up(t, x)); assert(c.rk(up(t, x)) < c.rk(x)); }
        else { anc_shrink(c, t, x, z, a, up(t, b)); }
    }
}
proof fn anc_keep(c: Cx, t: Seq<Block>, x: Block, z: Block, a: Block, b: Block)
    requires step(c, t, x, z), anc(c.o, t, a, b), anc(c.o, t, x, b), c.rk(a) >= c.rk(x)
    ensures anc(c.o, set(t, x, z), a, b)
    decreases c.rk(b)
{
    anc_val(c, t, a, b); at(c, t, b);
    set_tree(c, t, x, z); anc_val(c, t, a, b); anc_val(c, t, x, b);
    if a != b { assert(b != x); anc_keep(c, t, x, z, a, up(t, b)); }
}
proof fn anc_past(c: Cx, t: Seq<Block>, x: Block, z: Block, a: Block, b: Block)
    requires step(c, t, x, z), anc(c.o, t, x, b), anc(c.o, set(t, x, z), a, z)
    ensures anc(c.o, set(t, x, z), a, b)
    decreases c.rk(b)
{
    anc_val(c, t, x, b); at(c, t, b);
    set_tree(c, t, x, z); anc_val(c, t, x, b);
    if b == x { assert(up(set(t, x, z), x) == z); } else { anc_past(c, t, x, z, a, up(t, b)); }
}
proof fn anc_through(c: Cx, t: Seq<Block>, x: Block, z: Block, a: Block, b: Block)
    requires step(c, t, x, z), anc(c.o, t, x, b), anc(c.o, set(t, x, z), a, b), c.rk(a) < c.rk(x)
    ensures anc(c.o, set(t, x, z), a, z)
    decreases c.rk(b)
{
    anc_val(c, t, x, b); at(c, t, b);
    set_tree(c, t, x, z); anc_val(c, t, x, b);
    if b == x { assert(up(set(t, x, z), x) == z); } else { assert(a != b); anc_through(c, t, x, z, a, up(t, b)); }
}
proof fn common_shrink(c: Cx, t: Seq<Block>, x: Block, z: Block, b: Block, w: Block)
    requires step(c, t, x, z), common(c, set(t, x, z), b, w)
    ensures common(c, t, b, w)
{
    set_tree(c, t, x, z);
    assert forall|p: Block| #[trigger] c.pr(b, p) && val(t, p) implies anc(c.o, t, w, p) by { assert(val(set(t, x, z), p)); anc_shrink(c, t, x, z, w, p); }
}
/// One visit: the invariant moves on, and an entry that was there only moves up.
proof fn visit(c: Cx, t: Seq<Block>, x: Block, z: Block)
    requires ctx(c), inv(c, t, c.rk(x)), c.has(x), x != c.s, nca(c, t, x, z), z.0 != u32::MAX, c.rk(z) < c.rk(x),
        forall|b: Block| #[trigger] c.has(b) && c.rk(b) < c.rk(x) ==> val(t, b), val(t, x) ==> forall|b: Block| #[trigger] c.has(b) ==> val(t, b)
    ensures inv(c, set(t, x, z), c.rk(x) + 1), step(c, t, x, z)
{
    let cur = c.rk(x); let t2 = set(t, x, z); let o = c.o;
    if val(t, x) { at(c, t, x); assert(node(c, t, cur, x)); reveal(low); assert(anc(o, t, z, up(t, x))); }
    set_tree(c, t, x, z);
    assert(!anc(o, t, x, z)) by { if anc(o, t, x, z) { anc_val(c, t, x, z); } }
    assert forall|b: Block| #![trigger val(t2, b)] val(t2, b) && b != c.s implies node(c, t2, cur + 1, b) by {
        if b == x {
            assert(up(t2, x) == z);
            assert(low(c, t2, x)) by { reveal(low); assert forall|w: Block| #[trigger] common(c, t2, x, w) implies anc(o, t2, w, z) by { common_shrink(c, t, x, z, x, w); anc_same(c, t, x, z, w, z); } }
            assert(fwd(c, t2, cur + 1, x)) by {
                reveal(fwd);
                assert forall|p: Block| #[trigger] c.pr(x, p) && c.has(p) && c.rk(p) < c.rk(x) implies anc(o, t2, z, p) by {
                    assert(val(t, p)); if anc(o, t, x, p) { anc_val(c, t, x, p); } anc_same(c, t, x, z, z, p);
                }
            }
            assert(over(c, t2, x)) by {
                reveal(over);
                assert forall|d: Block| d != x && #[trigger] dom(c.g, c.s, d, x) implies dom(c.g, c.s, d, z) by {
                    assert forall|p: Block| #[trigger] c.pr(x, p) && val(t, p) implies anc(o, t, d, p) by { at(c, t, p); dom_pred(c, d, x, p); dom_anc(c, t, cur, d, p); }
                    assert(common(c, t, x, d));
                    assert(early(c, x)); reveal(early);
                    let p = choose|p: Block| #[trigger] c.pr(x, p) && c.has(p) && c.rk(p) < c.rk(x);
                    assert(val(t, p)); dom_pred(c, d, x, p);
                    dom_down(c, t, cur, d, p, z);
                }
            }
        } else {
            assert(val(t, b)); at(c, t, b); assert(node(c, t, cur, b)); assert(up(t2, b) == up(t, b));
            let q = up(t, b);
            if c.rk(b) == cur { assert(b == x); }
            assert(low(c, t2, b)) by {
                reveal(low);
                assert forall|w: Block| #[trigger] common(c, t2, b, w) implies anc(o, t2, w, q) by {
                    common_shrink(c, t, x, z, b, w);
                    assert(anc(o, t, w, q)); assert(val(t, q));
                    if !anc(o, t, x, q) { anc_same(c, t, x, z, w, q); }
                    else {
                        anc_val(c, t, x, q);
                        if c.rk(w) >= c.rk(x) { anc_keep(c, t, x, z, w, q); }
                        else {
                            assert(early(c, b)); reveal(early); reveal(fwd);
                            let p = choose|p: Block| #[trigger] c.pr(b, p) && c.has(p) && c.rk(p) < c.rk(b);
                            assert(anc(o, t, q, p)); assert(val(t, p)); assert(val(t2, p));
                            anc_trans(o, t, x, q, p);
                            assert(anc(o, t2, w, p));
                            anc_through(c, t, x, z, w, p);
                            anc_past(c, t, x, z, w, q);
                        }
                    }
                }
            }
            assert(fwd(c, t2, cur + 1, b)) by {
                reveal(fwd);
                assert forall|p: Block| #[trigger] c.pr(b, p) && c.has(p) && c.rk(p) < c.rk(b) implies anc(o, t2, q, p) || (c.rk(b) >= cur + 1 && c.rk(q) < cur + 1) by {
                    if anc(o, t, q, p) {
                        anc_val(c, t, q, p);
                        if !anc(o, t, x, p) { anc_same(c, t, x, z, q, p); }
                        else { anc_val(c, t, x, p); if c.rk(q) >= c.rk(x) { anc_keep(c, t, x, z, q, p); } }
                    }
                }
            }
            assert(over(c, t2, b)) by { reveal(over); }
        }
    }
}
proof fn round(c: Cx, t: Seq<Block>, n: nat)
    requires ctx(c), inv(c, t, n), forall|b: Block| #[trigger] c.has(b) ==> c.rk(b) < n
    ensures inv(c, t, 0)
{
    assert forall|b: Block| #![trigger val(t, b)] val(t, b) && b != c.s implies node(c, t, 0, b) by { at(c, t, b); assert(node(c, t, n, b)); reveal(fwd); }
}
proof fn pass_start(c: Cx, t: Seq<Block>)
    requires ctx(c), inv(c, t, 0)
    ensures inv(c, t, 1)
{
    assert forall|b: Block| #![trigger val(t, b)] val(t, b) && b != c.s implies node(c, t, 1, b) by { at(c, t, b); assert(node(c, t, 0, b)); assert(c.rk(b) != c.rk(c.s)); reveal(fwd); }
}
/// The entry of a block in a finished tree is above everything on the way to it.
proof fn sound(c: Cx, t: Seq<Block>, n: nat, a: Block, b: Block, p: Seq<Block>)
    requires ctx(c), tree(c, t), settled(c, t, n), forall|b: Block| #[trigger] c.has(b) ==> val(t, b) && c.rk(b) < n, anc(c.o, t, a, b), leads(c.g, p, c.s, b)
    ensures p.contains(a)
    decreases p.len()
{
    let l = p.len() - 1;
    assert(p[l] == b); assert(p[0] == c.s);
    if a != b && b != c.s {
        let p1 = p.drop_last(); let q = p[l - 1];
        assert forall|i: int| 0 <= i < p1.len() - 1 implies (c.g)(#[trigger] p1[i]).contains(p1[i + 1]) by { assert(p[i] == p1[i] && p[i + 1] == p1[i + 1]); }
        assert(leads(c.g, p1, c.s, q)); assert(reach(c.g, c.s, q));
        assert((c.g)(p[l - 1]).contains(p[l - 1 + 1]));
        anc_val(c, t, a, b); at(c, t, b);
        assert(c.has(b)); assert(c.pr(b, q)); assert(val(t, q)); assert(common(c, t, b, up(t, b)));
        anc_trans(c.o, t, a, up(t, b), q);
        sound(c, t, n, a, q, p1);
        let i = p1.index_of(a); assert(p[i] == a);
    } else if a != b { anc_val(c, t, a, b); }
}
proof fn above_anc(c: Cx, t: Seq<Block>, a: Block, b: Block)
    requires ctx(c), tree(c, t), val(t, b), a.0 != u32::MAX
    ensures above(t.update(c.s.0 as int, Block(u32::MAX)), a, b) <==> anc(c.o, t, a, b)
    decreases c.rk(b)
{
    let t2 = t.update(c.s.0 as int, Block(u32::MAX));
    above_step(t2, a, b);
    at(c, t, b);
    if b == c.s { assert(up(t2, b) == Block(u32::MAX)); above_none(t2, a, up(t2, b)); }
    else { assert(b.0 != c.s.0); assert(up(t2, b) == up(t, b)); above_anc(c, t, a, up(t, b)); }
}
proof fn finish(c: Cx, t: Seq<Block>, m: nat, n: nat)
    requires ctx(c), inv(c, t, m), settled(c, t, n), forall|b: Block| #[trigger] c.has(b) ==> val(t, b) && c.rk(b) < n
    ensures answers(c.g, c.s, t.update(c.s.0 as int, Block(u32::MAX)))
{
    let t2 = t.update(c.s.0 as int, Block(u32::MAX)); let r = |b: Block| c.rk(b);
    assert forall|b: Block| b.0 < t2.len() && (#[trigger] t2[b.0 as int]).0 != u32::MAX implies t2[b.0 as int].0 < t2.len() && r(t2[b.0 as int]) < r(b) by {
        assert(b.0 != c.s.0); assert(val(t, b)); at(c, t, b);
    }
    assert(ranks(t2, r));
    assert forall|a: Block, b: Block| a.0 != u32::MAX && reach(c.g, c.s, b) implies #[trigger] above(t2, a, b) == dom(c.g, c.s, a, b) by {
        assert(c.has(b));
        above_anc(c, t, a, b);
        if dom(c.g, c.s, a, b) { dom_anc(c, t, m, a, b); }
        if anc(c.o, t, a, b) { assert forall|p: Seq<Block>| #[trigger] leads(c.g, p, c.s, b) implies p.contains(a) by { sound(c, t, n, a, b, p); } }
    }
    assert forall|b: Block| b.0 < t2.len() && !reach(c.g, c.s, b) implies (#[trigger] t2[b.0 as int]).0 == u32::MAX by { if b != c.s && val(t, b) { at(c, t, b); } }
}
// ---- a measure for the rounds
spec fn weight(o: Seq<Option<u32>>, b: Block) -> nat { if b.0 == u32::MAX { 0x1_0000_0000 } else { rk(o, b) } }
spec fn total(o: Seq<Option<u32>>, t: Seq<Block>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { total(o, t.drop_last()) + weight(o, t.last()) } }
proof fn total_less(o: Seq<Option<u32>>, t: Seq<Block>, i: int, z: Block)
    requires 0 <= i < t.len(), weight(o, z) < weight(o, t[i])
    ensures total(o, t.update(i, z)) < total(o, t)
    decreases t.len()
{
    let u = t.update(i, z);
    if i == t.len() - 1 { assert(u.drop_last() =~= t.drop_last()); } else { assert(u.drop_last() =~= t.drop_last().update(i, z)); total_less(o, t.drop_last(), i, z); }
}
spec fn tree_for(c: Cx, o: Seq<Option<u32>>, t: Seq<Block>) -> bool { c.o == o && ctx(c) && tree(c, t) }
//@ fn src/domtree.rs merge_sets
//@ spec
    requires exists|c: Cx| #[trigger] tree_for(c, block_to_rpo@, idom@), val(idom@, node1), val(idom@, node2)
    ensures val(idom@, res), res.0 != u32::MAX, anc(block_to_rpo@, idom@, res, node1), anc(block_to_rpo@, idom@, res, node2),
        forall|w: Block| #[trigger] anc(block_to_rpo@, idom@, w, node1) && anc(block_to_rpo@, idom@, w, node2) ==> anc(block_to_rpo@, idom@, w, res)
//@ entry
    let ghost t = idom@; let ghost o = block_to_rpo@; let ghost n1 = node1; let ghost n2 = node2;
    let ghost c = choose|c: Cx| #[trigger] tree_for(c, block_to_rpo@, idom@);
//@ loop 0
    invariant t == idom@, o == block_to_rpo@, o == c.o, ctx(c), tree(c, t), val(t, node1), val(t, node2), anc(o, t, node1, n1), anc(o, t, node2, n2),
        forall|w: Block| #[trigger] anc(o, t, w, n1) && anc(o, t, w, n2) ==> anc(o, t, w, node1) && anc(o, t, w, node2)
    decreases c.rk(node1) + c.rk(node2)
//@ loop 0 begin
    proof {
        at(c, t, node1); at(c, t, node2);
        assert(c.rk(node1) != c.rk(node2));
        assert forall|w: Block| #[trigger] anc(o, t, w, n1) && anc(o, t, w, n2) implies c.rk(w) <= c.rk(node1) && c.rk(w) <= c.rk(node2) by { anc_val(c, t, w, node1); anc_val(c, t, w, node2); }
        if c.rk(node1) > c.rk(node2) { anc_self(o, t, up(t, node1)); assert(anc(o, t, up(t, node1), node1)); anc_trans(o, t, up(t, node1), node1, n1); }
        else { anc_self(o, t, up(t, node2)); assert(anc(o, t, up(t, node2), node2)); anc_trans(o, t, up(t, node2), node2, n2); }
    }
//@ end
//@ fn src/domtree.rs dominates
//@ attr verifier::loop_isolation(false)
//@ include ../../common/verus/dominates_contract.rs
//@ entry
    let ghost t = idom@; let ghost b0 = b; let ghost r = choose|r: spec_fn(Block) -> nat| #[trigger] ranks(t, r);
//@ loop 0
    invariant t == idom@, t.len() <= u32::MAX, ranks(t, r), b.0 == u32::MAX || b.0 < t.len(), above(t, a, b) == above(t, a, b0)
    decreases (if b.0 == u32::MAX { 0nat } else { r(b) + 1 })
//@ loop 0 begin
    proof { if b.0 == u32::MAX { above_none(t, a, b); } else { above_step(t, a, b); let y = t[b.0 as int]; } }
//@ end
/// The ranks that the postorder gives.
proof fn order_ctx(c: Cx, po: Seq<Block>)
    requires postorder(c.g, c.s, po), c.o.len() <= u32::MAX,
        forall|i: int| 0 <= i < po.len() ==> rank_is(c.o, po, i),
        forall|b: Block| #[trigger] has(c.o, b) ==> exists|i: int| 0 <= i < po.len() && #[trigger] po[i] == b,
        forall|b: Block, p: Block| po.contains(b) ==> (#[trigger] (c.pr)(b).contains(p) <==> (c.g)(p).contains(b)),
        forall|b: Block, p: Block| po.contains(b) && #[trigger] (c.pr)(b).contains(p) ==> p.0 < c.o.len()
    ensures ctx(c), forall|b: Block| #[trigger] c.has(b) ==> c.rk(b) < po.len(), forall|i: int| 0 <= i < po.len() ==> c.has(#[trigger] po[i]) && c.rk(po[i]) == po.len() - 1 - i
{
    let n = po.len() as int;
    assert forall|i: int| 0 <= i < n implies c.has(#[trigger] po[i]) && c.rk(po[i]) == n - 1 - i by { assert(rank_is(c.o, po, i)); }
    assert forall|b: Block| c.has(b) <==> #[trigger] reach(c.g, c.s, b) by {
        if c.has(b) { assert(has(c.o, b)); let i = choose|i: int| 0 <= i < n && #[trigger] po[i] == b; assert(po.contains(b)); }
        if reach(c.g, c.s, b) { assert(po.contains(b)); let i = po.index_of(b); assert(c.has(po[i])); }
    }
    assert forall|b: Block| #[trigger] c.has(b) implies po.contains(b) && c.rk(b) < n by { assert(reach(c.g, c.s, b)); assert(po.contains(b)); let i = po.index_of(b); assert(c.has(po[i])); }
    assert(c.has(po[n - 1]) && c.rk(po[n - 1]) == 0);
    assert forall|a: Block, b: Block| c.has(a) && c.has(b) && #[trigger] c.rk(a) == #[trigger] c.rk(b) implies a == b by {
        assert(po.contains(a) && po.contains(b)); let i = po.index_of(a); let j = po.index_of(b); assert(c.rk(po[i]) == n - 1 - i); assert(c.rk(po[j]) == n - 1 - j);
    }
    assert forall|b: Block| #[trigger] c.has(b) && b != c.s implies early(c, b) by {
        reveal(early); assert(po.contains(b)); let i = po.index_of(b);
        assert(parented(c.g, po, i)); let j = choose|j: int| i < j < po.len() && #[trigger] (c.g)(po[j]).contains(po[i]);
        assert((c.pr)(b).contains(po[j])); assert(c.pr(b, po[j])); assert(c.has(po[j]) && c.rk(po[j]) == n - 1 - j); assert(c.rk(po[i]) == n - 1 - i);
    }
}
proof fn first_tree(c: Cx, t: Seq<Block>)
    requires ctx(c), t.len() == c.o.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 == (if i == c.s.0 { c.s.0 } else { u32::MAX })
    ensures inv(c, t, 0), forall|b: Block| #[trigger] val(t, b) ==> b == c.s
{
    assert forall|b: Block| #[trigger] val(t, b) implies b == c.s by { let y = t[b.0 as int]; }
    assert(t[c.s.0 as int].0 == c.s.0); assert(up(t, c.s) == c.s); assert(val(t, c.s));
    reveal(entries);
}
proof fn settle(c: Cx, t: Seq<Block>, cur: nat, x: Block)
    requires ctx(c), tree(c, t), settled(c, t, cur), c.has(x), c.rk(x) == cur, x != c.s ==> common(c, t, x, up(t, x))
    ensures settled(c, t, cur + 1)
{
    assert forall|b: Block| #![trigger val(t, b)] val(t, b) && b != c.s && c.rk(b) < cur + 1 implies common(c, t, b, up(t, b)) by { at(c, t, b); if c.rk(b) == c.rk(x) { assert(b == x); } }
}
/// w lies above the first k of the listed blocks that have an entry.
#[verifier::opaque]
spec fn share(c: Cx, t: Seq<Block>, l: Seq<Block>, k: int, w: Block) -> bool { forall|j: int| 0 <= j < k && val(t, #[trigger] l[j]) ==> anc(c.o, t, w, l[j]) }
/// z is the lowest block above p and the first k of the listed blocks.
#[verifier::opaque]
spec fn lowest(c: Cx, t: Seq<Block>, l: Seq<Block>, k: int, p: Block, z: Block) -> bool {
    &&& val(t, z) && z.0 != u32::MAX && anc(c.o, t, z, p) && share(c, t, l, k, z)
    &&& forall|w: Block| #[trigger] anc(c.o, t, w, p) && share(c, t, l, k, w) ==> anc(c.o, t, w, z)
}
spec fn merged(c: Cx, t: Seq<Block>, a: Block, b: Block, z: Block) -> bool {
    &&& val(t, z) && z.0 != u32::MAX && anc(c.o, t, z, a) && anc(c.o, t, z, b)
    &&& forall|w: Block| #[trigger] anc(c.o, t, w, a) && anc(c.o, t, w, b) ==> anc(c.o, t, w, z)
}
proof fn join_first(c: Cx, t: Seq<Block>, l: Seq<Block>, p: Block)
    requires val(t, p), p.0 != u32::MAX
    ensures lowest(c, t, l, 0, p, p)
{ reveal(share); reveal(lowest); }
proof fn join(c: Cx, t: Seq<Block>, l: Seq<Block>, k: int, p: Block, a: Block, z: Block)
    requires lowest(c, t, l, k, p, a), 0 <= k < l.len(), if l[k] == a || !val(t, l[k]) { z == a } else { merged(c, t, a, l[k], z) }
    ensures lowest(c, t, l, k + 1, p, z)
{
    reveal(share); reveal(lowest);
    if z != a { anc_trans(c.o, t, z, a, p); }
    assert(share(c, t, l, k + 1, z)) by {
        assert forall|j: int| 0 <= j < k + 1 && val(t, #[trigger] l[j]) implies anc(c.o, t, z, l[j]) by { if j < k && z != a { anc_trans(c.o, t, z, a, l[j]); } }
    }
    assert forall|w: Block| #[trigger] anc(c.o, t, w, p) && share(c, t, l, k + 1, w) implies anc(c.o, t, w, z) by {
        assert(share(c, t, l, k, w)); assert(anc(c.o, t, w, a));
        if z != a || (l[k] != a && val(t, l[k])) { assert(anc(c.o, t, w, l[k])); }
    }
}
proof fn join_last(c: Cx, t: Seq<Block>, x: Block, l: Seq<Block>, p: Block, z: Block)
    requires ctx(c), tree(c, t), lowest(c, t, l, l.len() as int, p, z), l == (c.pr)(x), l.contains(p), val(t, p), c.rk(p) < c.rk(x)
    ensures nca(c, t, x, z), z.0 != u32::MAX, c.rk(z) < c.rk(x)
{
    reveal(share); reveal(lowest);
    assert(c.pr(x, p));
    assert forall|q: Block| #[trigger] c.pr(x, q) && val(t, q) implies anc(c.o, t, z, q) by { let k = l.index_of(q); assert(val(t, l[k])); }
    assert forall|w: Block| #[trigger] common(c, t, x, w) implies anc(c.o, t, w, z) by {
        assert(anc(c.o, t, w, p));
        assert forall|k: int| 0 <= k < l.len() && val(t, #[trigger] l[k]) implies anc(c.o, t, w, l[k]) by { assert(c.pr(x, l[k])); }
    }
    anc_val(c, t, z, p);
}
/// One visit of the pass over the blocks, whether or not it changes the entry.
proof fn pass_step(c: Cx, t1: Seq<Block>, t2: Seq<Block>, x: Block, z: Block, ch: bool, ch2: bool)
    requires ctx(c), inv(c, t1, c.rk(x)), c.has(x), x != c.s, nca(c, t1, x, z), z.0 != u32::MAX, c.rk(z) < c.rk(x),
        forall|b: Block| #[trigger] c.has(b) && c.rk(b) < c.rk(x) ==> val(t1, b), val(t1, x) ==> forall|b: Block| #[trigger] c.has(b) ==> val(t1, b),
        !ch ==> settled(c, t1, c.rk(x)),
        if z == t1[x.0 as int] { t2 == t1 && ch2 == ch } else { t2 == set(t1, x, z) && ch2 }
    ensures inv(c, t2, c.rk(x) + 1), forall|b: Block| #[trigger] val(t2, b) <==> val(t1, b) || b == x,
        !ch2 ==> settled(c, t2, c.rk(x) + 1), if z == t1[x.0 as int] { t2 == t1 } else { total(c.o, t2) < total(c.o, t1) }
{
    visit(c, t1, x, z);
    set_tree(c, t1, x, z);
    if z == up(t1, x) {
        assert(set(t1, x, z) =~= t1);
        assert(val(t1, x));
        if !ch { settle(c, t1, c.rk(x), x); }
    } else {
        if val(t1, x) { at(c, t1, x); anc_val(c, t1, z, up(t1, x)); }
        total_less(c.o, t1, x.0 as int, z);
    }
}
//@ fn src/domtree.rs calculate
//@ include ../../common/verus/domtree_contract.rs
//@ entry
    let ghost n = post_ord@.len(); let ghost po = post_ord@;
//@ loop 0
    invariant post_ord@ == po, po.len() == n, n <= u32::MAX, block_to_rpo@.len() == num_blocks, num_blocks <= u32::MAX, __i0 <= n, distinct(po), forall|i: int| 0 <= i < n ==> (#[trigger] po[i]).0 < num_blocks,
        forall|i: int| __i0 <= i < n ==> rank_is(block_to_rpo@, po, i),
        forall|b: Block| #[trigger] has(block_to_rpo@, b) ==> exists|i: int| __i0 <= i < n && #[trigger] po[i] == b
    decreases __i0
//@ loop 0 begin
    let ghost o0 = block_to_rpo@; let ghost i0 = __i0 as int;
//@ loop 0 end
    proof {
        let o = block_to_rpo@; let b0 = po[i0 - 1];
        assert(o =~= o0.update(b0.0 as int, Some((n - i0) as u32)));
        assert forall|i: int| i0 - 1 <= i < n implies rank_is(o, po, i) by { if i > i0 - 1 { assert(rank_is(o0, po, i)); assert(po[i] != po[i0 - 1]); assert(po[i].0 != b0.0); } }
        assert forall|b: Block| #[trigger] has(o, b) implies exists|i: int| i0 - 1 <= i < n && #[trigger] po[i] == b by { if b == b0 { assert(po[i0 - 1] == b); } else { assert(b.0 != b0.0); assert(has(o0, b)); } }
    }
//@ before let mut changed
    let ghost c = Cx { g, pr, s: start, o: block_to_rpo@ };
    let ghost mut fresh = true;
    proof { order_ctx(c, po); first_tree(c, idom@); }
//@ loop 1
    invariant post_ord@ == po, po.len() == n, num_blocks <= u32::MAX, c.o == block_to_rpo@, c.pr == pr, c.s == start, ctx(c), c.o.len() == num_blocks,
        forall|b: Block| #[trigger] c.has(b) ==> c.rk(b) < n, forall|i: int| 0 <= i < n ==> c.has(#[trigger] po[i]) && c.rk(po[i]) == n - 1 - i,
        forall|b: Block| po.contains(b) ==> #[trigger] preds.requires((b,)), forall|b: Block, r: &'a [Block]| po.contains(b) && #[trigger] preds.ensures((b,), r) ==> r@ == pr(b),
        inv(c, idom@, 0), if fresh { changed && forall|b: Block| #[trigger] val(idom@, b) ==> b == start } else { forall|b: Block| #[trigger] c.has(b) ==> val(idom@, b) },
        !changed ==> settled(c, idom@, n)
    decreases total(c.o, idom@), (if changed { 1nat } else { 0nat })
//@ loop 1 begin
    let ghost t0 = idom@;
//@ loop 1 end
    proof { round(c, idom@, n); fresh = false; }
//@ loop 2
    invariant post_ord@ == po, po.len() == n, num_blocks <= u32::MAX, c.o == block_to_rpo@, c.pr == pr, c.s == start, ctx(c), c.o.len() == num_blocks,
        forall|b: Block| #[trigger] c.has(b) ==> c.rk(b) < n, forall|i: int| 0 <= i < n ==> c.has(#[trigger] po[i]) && c.rk(po[i]) == n - 1 - i,
        forall|b: Block| po.contains(b) ==> #[trigger] preds.requires((b,)), forall|b: Block, r: &'a [Block]| po.contains(b) && #[trigger] preds.ensures((b,), r) ==> r@ == pr(b),
        __i2 <= n, inv(c, idom@, (n - __i2) as nat),
        forall|b: Block| #[trigger] c.has(b) && (c.rk(b) < n - __i2 || !fresh) ==> val(idom@, b),
        fresh ==> forall|b: Block| #[trigger] val(idom@, b) ==> b == start || c.rk(b) < n - __i2,
        !changed ==> settled(c, idom@, (n - __i2) as nat) && idom@ == t0, changed ==> total(c.o, idom@) < total(c.o, t0)
    decreases __i2
//@ loop 2 begin
    let ghost t1 = idom@; let ghost x = po[__i2 - 1]; let ghost cur = (n - __i2) as nat; let ghost ch = changed;
    proof { assert(c.has(x) && c.rk(x) == cur); assert(po.contains(x)); }
//@ loop 2 end
    proof {
        if x == start { pass_start(c, t1); if !changed { settle(c, t1, cur, x); } }
        else { pass_step(c, t1, idom@, x, parent, ch, changed); }
    }
//@ loop 3
    invariant_except_break parent.0 == u32::MAX, forall|k: int| 0 <= k < __i3 && c.has(#[trigger] pr(x)[k]) ==> c.rk(pr(x)[k]) >= c.rk(x)
    invariant c.o == block_to_rpo@, c.pr == pr, c.has(x), node == x, rponum == c.rk(x), __s3@ == pr(x), __i3 <= pr(x).len(), ctx(c), c.o.len() == num_blocks, num_blocks <= u32::MAX
    ensures if parent.0 == u32::MAX { forall|k: int| 0 <= k < pr(x).len() && c.has(#[trigger] pr(x)[k]) ==> c.rk(pr(x)[k]) >= c.rk(x) }
        else { pr(x).contains(parent) && c.has(parent) && c.rk(parent) < c.rk(x) }
    decreases __s3@.len() - __i3
//@ loop 3 begin
    proof { assert(c.pr(x, pr(x)[__i3 as int])); }
//@ loop 3 after
    proof {
        if x != start { assert(early(c, x)); reveal(early); let p = choose|p: Block| #[trigger] c.pr(x, p) && c.has(p) && c.rk(p) < c.rk(x); let k = pr(x).index_of(p); assert(parent.0 != u32::MAX); }
        else { assert(parent.0 == u32::MAX); }
    }
//@ loop 4 before
    let ghost p0 = parent;
    proof { assert(val(t1, p0)); assert(c.pr(x, p0)); join_first(c, t1, pr(x), p0); reveal(lowest); }
//@ loop 4
    invariant c.o == block_to_rpo@, c.pr == pr, c.has(x), node == x, __s4@ == pr(x), __i4 <= pr(x).len(), ctx(c), c.o.len() == num_blocks, num_blocks <= u32::MAX, idom@ == t1, tree(c, t1),
        val(t1, parent), parent.0 != u32::MAX, lowest(c, t1, pr(x), __i4 as int, p0, parent)
    decreases __s4@.len() - __i4
//@ loop 4 begin
    let ghost y = pr(x)[__i4 as int]; let ghost before = parent; let ghost k0 = __i4 as int;
    proof { assert(c.pr(x, y)); assert(tree_for(c, block_to_rpo@, idom@)); if y == parent || !val(t1, y) { join(c, t1, pr(x), k0, p0, parent, parent); } }
//@ loop 4 end
    proof { join(c, t1, pr(x), k0, p0, before, parent); }
//@ loop 4 after
    proof { join_last(c, t1, x, pr(x), p0, parent); }
//@ loop 1 after
    proof { finish(c, idom@, 0, n); }
//@ end
}
fn main() {}
