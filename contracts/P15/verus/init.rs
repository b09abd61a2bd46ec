use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ type postorder::calculate postorder_calculate
//@ type domtree::calculate domtree_calculate
//@ type domtree::dominates domtree_dominates
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/block.rs
//@ include ../../common/verus/error.rs
//@ include ../../common/verus/vecext.rs
//@ include ../../common/verus/cleared.rs
//@ include ../../common/verus/cfg.rs
//@ include ../../common/verus/dom.rs
//@ include ../../common/verus/func.rs
//@ item src/cfg.rs struct CFGInfoCtx
//@ item src/cfg.rs struct CFGInfo
//@ item src/lib.rs enum InstPosition
//@ item src/lib.rs struct ProgPoint
//@ fn src/lib.rs ProgPoint::new
//@ spec
    ensures res == point(inst, if pos is After { 1 } else { 0 })
//@ end
spec fn point(inst: Inst, k: u32) -> ProgPoint { ProgPoint { bits: (inst.0 << 1u32) | k } }
//@ fn src/lib.rs ProgPoint::before
//@ spec
    ensures res == point(inst, 0)
//@ end
//@ fn src/lib.rs ProgPoint::after
//@ spec
    ensures res == point(inst, 1)
//@ end
// under the contracts that P13 and P14 prove
//@ fn src/postorder.rs calculate external as=postorder_calculate
//@ include ../../common/verus/postorder_contract.rs
//@ end
//@ fn src/domtree.rs calculate external as=domtree_calculate
//@ include ../../common/verus/domtree_contract.rs
//@ end
//@ fn src/domtree.rs dominates external as=domtree_dominates
//@ include ../../common/verus/dominates_contract.rs
//@ end
/// Predecessors of a block, the way into the entry counted.
spec fn ways<F: Function>(f: F, b: Block) -> nat { f.v_preds(b).len() + if b == f.v_entry() { 1nat } else { 0 } }
spec fn critical<F: Function>(f: F, p: Block, b: Block) -> bool { b.0 < f.v_nb() && p.0 < f.v_nb() && f.v_succs(p).contains(b) && ways(f, b) > 1 && f.v_succs(p).len() > 1 }
spec fn last_of<F: Function>(f: F, b: Block) -> Inst { Inst((f.v_range(b).1.0 - 1) as u32) }
spec fn bad_arg<F: Function>(f: F, b: Block, i: Inst) -> bool { b.0 < f.v_nb() && i == last_of(f, b) && f.v_ops(i).len() > 0 && exists|s: Block| #[trigger] f.v_succs(b).contains(s) && ways(f, s) > 1 }
/// The maps cover the first n blocks.
spec fn mapped<F: Function>(f: F, n: nat, ib: Seq<Block>, en: Seq<ProgPoint>, ex: Seq<ProgPoint>) -> bool {
    &&& forall|b: Block, i: Inst| b.0 < n && #[trigger] f.v_range(b).has(i) ==> ib[i.0 as int] == b
    &&& forall|b: Block| b.0 < n ==> #[trigger] en[b.0 as int] == point(f.v_range(b).0, 0) && ex[b.0 as int] == point(last_of(f, b), 1)
}
proof fn reach_last(g: Graph, a: Block, b: Block)
    requires reach(g, a, b), a != b
    ensures exists|x: Block| reach(g, a, x) && #[trigger] g(x).contains(b)
{
    let p = choose|p: Seq<Block>| #[trigger] leads(g, p, a, b); let q = p.drop_last();
    let n = p.len() - 2;
    assert forall|i: int| 0 <= i < q.len() - 1 implies g(#[trigger] q[i]).contains(q[i + 1]) by { assert(q[i] == p[i] && q[i + 1] == p[i + 1]); }
    assert(leads(g, q, a, p[n]));
    assert(g(p[n]).contains(p[n + 1]));
}
proof fn distinct_len(s: Seq<Block>, n: nat)
    requires distinct(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < n
    ensures s.len() <= n
{
    let t = s.map_values(|b: Block| b.0 as int);
    assert(t.no_duplicates());
    t.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(t.to_set().subset_of(vstd::set_lib::set_int_range(0, n as int)));
    vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, n as int));
}
/// Nothing is wrong with the edges into b, nor with the branch at its end.
spec fn clear<F: Function>(f: F, b: Block) -> bool {
    &&& ways(f, b) > 1 ==> forall|p: Block| #[trigger] f.v_preds(b).contains(p) ==> f.v_succs(p).len() <= 1
    &&& f.v_ops(last_of(f, b)).len() > 0 ==> forall|s: Block| #[trigger] f.v_succs(b).contains(s) ==> ways(f, s) <= 1
}
proof fn edges_mono<F: Function>(f: F, m: nat, n: nat)
    requires m <= n
    ensures edges(f, m) <= edges(f, n)
    decreases n
{ if m < n { edges_mono(f, m, (n - 1) as nat); } }
proof fn all_clear<F: Function>(f: F)
    requires well_formed(f), forall|b: Block| b.0 < f.v_nb() ==> #[trigger] clear(f, b)
    ensures forall|p: Block, b: Block| !#[trigger] critical(f, p, b), forall|b: Block, i: Inst| !#[trigger] bad_arg(f, b, i)
{
    assert forall|p: Block, b: Block| !#[trigger] critical(f, p, b) by { if critical(f, p, b) { assert(clear(f, b)); assert(f.v_preds(b).contains(p)); } }
    assert forall|b: Block, i: Inst| !#[trigger] bad_arg(f, b, i) by { if bad_arg(f, b, i) { assert(clear(f, b)); } }
}
spec fn below(s: Seq<u32>, n: nat) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] <= n }
//@ fn src/cfg.rs CFGInfo::init
//@ spec
    requires well_formed(*f)
    ensures match res {
        Ok(()) => {
            &&& forall|p: Block, b: Block| !#[trigger] critical(*f, p, b)
            &&& forall|b: Block, i: Inst| !#[trigger] bad_arg(*f, b, i)
            &&& final(self).insn_block@.len() == f.v_ni() && final(self).block_entry@.len() == f.v_nb() && final(self).block_exit@.len() == f.v_nb()
            &&& mapped(*f, f.v_nb(), final(self).insn_block@, final(self).block_entry@, final(self).block_exit@)
            &&& final(self).approx_loop_depth@.len() == f.v_nb()
            &&& postorder(succ_graph(*f), f.v_entry(), final(self).postorder@)
            &&& final(self).domtree@.len() == f.v_nb() && answers(succ_graph(*f), f.v_entry(), final(self).domtree@)
        }
        Err(RegAllocError::CritEdge(p, b)) => critical(*f, p, b),
        Err(RegAllocError::DisallowedBranchArg(i)) => exists|b: Block| #[trigger] bad_arg(*f, b, i),
        Err(_) => false,
    }
//@ pass postorder_calculate succ_graph(*f)
//@ pass domtree_calculate succ_graph(*f)
//@ pass domtree_calculate pred_graph(*f)
//@ lambda 0
|$1: Block| -> (r: &[Block])
    requires $1.0 < f.v_nb()
    ensures r@ == f.v_succs($1)
//@ lambda 1
|$1: Block| -> (r: &[Block])
    requires $1.0 < f.v_nb()
    ensures r@ == f.v_preds($1)
//@ slice 2
//@ slice 3
//@ slice 4
//@ iter 1
//@ call iter vx_insts
//@ entry
    let ghost g = succ_graph(*f); let ghost e = f.v_entry(); let ghost nbs = f.v_nb();
    proof { assert forall|b: Block| !stray(g, e, nbs, b) by { if stray(g, e, nbs, b) && b != e { let x = choose|x: Block| reach(g, e, x) && #[trigger] g(x).contains(b); assert(f.v_succs(x).contains(b)); } } }
//@ before domtree_calculate
    let ghost po = self.postorder@;
    proof {
        assert forall|b: Block| #[trigger] po.contains(b) implies b.0 < nbs by { if b != e { reach_last(g, e, b); } }
        assert forall|i: int| 0 <= i < po.len() implies (#[trigger] po[i]).0 < nbs by { assert(po.contains(po[i])); }
        distinct_len(po, nbs);
    }
//@ loop 0
    invariant well_formed(*f), __n0 == nb, nb == f.v_nb(), __i0 <= nb, nbs == nb,
        insn_block@.len() == f.v_ni(), block_entry@.len() == nb, block_exit@.len() == nb, backedge_in@.len() == nb, backedge_out@.len() == nb,
        mapped(*f, __i0 as nat, insn_block@, block_entry@, block_exit@), forall|b: Block| b.0 < __i0 ==> #[trigger] clear(*f, b),
        below(backedge_in@, edges(*f, __i0 as nat)), below(backedge_out@, edges(*f, __i0 as nat))
    decreases nb - __i0
//@ loop 0 begin
    let ghost ib0 = insn_block@; let ghost en0 = block_entry@; let ghost ex0 = block_exit@; let ghost bl = Block(__i0 as u32); let ghost n0 = __i0 as nat;
    proof { assert(f.v_range(bl).0.0 < f.v_range(bl).1.0); edges_mono(*f, n0 + 1, nbs); }
//@ loop 0 end
    proof {
        assert(clear(*f, bl));
        assert forall|b: Block| b.0 < n0 + 1 implies #[trigger] clear(*f, b) by { if b.0 == n0 { assert(b == bl); } }
    }
//@ loop 1 before
    let ghost mut k = __nx1.unwrap().0;
//@ loop 1
    invariant f.v_range(bl).0.0 <= k <= f.v_range(bl).1.0, __it1.wf(), __it1.n == f.v_range(bl).1.0,
        match __nx1 { Some(i) => i.0 == k && __it1.i == k + 1 && k < __it1.n, None => k == __it1.n },
        insn_block@.len() == f.v_ni(), well_formed(*f), bl.0 == n0, n0 < f.v_nb(), block == bl,
        mapped(*f, n0, insn_block@, en0, ex0), forall|i: Inst| f.v_range(bl).0.0 <= i.0 < k ==> #[trigger] insn_block@[i.0 as int] == bl
    decreases __it1.n - k
//@ loop 1 begin
    let ghost ib1 = insn_block@;
//@ loop 1 end
    proof {
        assert forall|b: Block, i: Inst| b.0 < n0 && #[trigger] f.v_range(b).has(i) implies insn_block@[i.0 as int] == b by { assert(ib1[i.0 as int] == b); if i.0 == k { assert(f.v_range(bl).has(i)); } }
        k = (k + 1) as u32;
    }
//@ after block_exit [
    proof {
        assert forall|b: Block, i: Inst| b.0 < n0 + 1 && #[trigger] f.v_range(b).has(i) implies insn_block@[i.0 as int] == b by { if b.0 == n0 { assert(b == bl); } }
        assert(block_entry@ == en0.update(n0 as int, point(f.v_range(bl).0, 0))); assert(block_exit@ == ex0.update(n0 as int, point(last_of(*f, bl), 1)));
        assert forall|b: Block| b.0 < n0 + 1 implies #[trigger] block_entry@[b.0 as int] == point(f.v_range(b).0, 0) && block_exit@[b.0 as int] == point(last_of(*f, b), 1) by { if b.0 == n0 { assert(b == bl); } else { assert(en0[b.0 as int] == point(f.v_range(b).0, 0)); } }
        assert(mapped(*f, n0 + 1, insn_block@, block_entry@, block_exit@));
    }
//@ loop 2
    invariant __s2@ == f.v_preds(bl), well_formed(*f), block == bl, bl.0 < f.v_nb(), ways(*f, bl) > 1, __i2 <= __s2@.len(), forall|i: int| 0 <= i < __i2 ==> f.v_succs(#[trigger] __s2@[i]).len() <= 1
    decreases __s2@.len() - __i2
//@ loop 2 begin
    proof { assert(f.v_preds(bl).contains(__s2@[__i2 as int])); }
//@ loop 3
    invariant_except_break !require_no_branch_args, forall|i: int| 0 <= i < __i3 ==> ways(*f, #[trigger] __s3@[i]) <= 1
    invariant __s3@ == f.v_succs(bl), well_formed(*f), bl.0 < f.v_nb(), __i3 <= __s3@.len()
    ensures require_no_branch_args == exists|s: Block| #[trigger] f.v_succs(bl).contains(s) && ways(*f, s) > 1
    decreases __s3@.len() - __i3
//@ loop 3 begin
    proof { assert(f.v_succs(bl).contains(__s3@[__i3 as int])); }
//@ before return Err (RegAllocError :: Disa
    proof { assert(last == last_of(*f, bl)); assert(f.v_ops(last).len() > 0); assert(bad_arg(*f, bl, last)); assert(exists|b: Block| #[trigger] bad_arg(*f, b, last)); let e = RegAllocError::DisallowedBranchArg(last); match e { RegAllocError::DisallowedBranchArg(i) => { assert(i == last); assert(bad_arg(*f, bl, i)); } _ => { assert(false); } } }
//@ loop 4
    invariant __s4@ == f.v_succs(bl), well_formed(*f), bl.0 == n0, n0 < f.v_nb(), block == bl, __i4 <= __s4@.len(), backedge_in@.len() == f.v_nb(), backedge_out@.len() == f.v_nb(),
        edges(*f, n0 + 1) <= u32::MAX, below(backedge_in@, edges(*f, n0) + __i4 as nat), below(backedge_out@, edges(*f, n0) + __i4 as nat)
    decreases __s4@.len() - __i4
//@ loop 4 begin
    proof { assert(f.v_succs(bl).contains(__s4@[__i4 as int])); assert(edges(*f, n0 + 1) == edges(*f, n0) + f.v_succs(bl).len()); }
//@ loop 0 after
    proof { all_clear(*f); }
//@ loop 5
    invariant __n5 == nb, nb == f.v_nb(), nb <= u32::MAX, __i5 <= nb, backedge_in@.len() == nb, backedge_out@.len() == nb, approx_loop_depth@.len() == __i5,
        cur_depth == backedge_stack@.len(), cur_depth <= __i5, forall|i: int| 0 <= i < backedge_stack@.len() ==> #[trigger] backedge_stack@[i] > 0
    decreases nb - __i5
//@ loop 6
    invariant backedge_out@.len() == nb, block < nb, cur_depth == backedge_stack@.len(), cur_depth <= __i5, __i5 <= nb, forall|i: int| 0 <= i < backedge_stack@.len() ==> #[trigger] backedge_stack@[i] > 0
    decreases backedge_out@[block as int]
//@ end
//@ fn src/cfg.rs CFGInfo::dominates
//@ spec
    requires acyclic(self.domtree@), b.0 == u32::MAX || b.0 < self.domtree@.len()
    ensures res == above(self.domtree@, a, b)
//@ end
}
fn main() {}
