// ---- what the embedder provides (src/lib.rs trait Function): the methods the extracted code calls, under assumed contracts
//@ fn src/index.rs!define_index!Inst Inst::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!Inst Inst::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!Inst Inst::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!Inst Inst::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ fn src/index.rs!define_index!Inst Inst::prev
//@ spec
    requires self.0 != u32::MAX, self.0 > 0
    ensures res.0 == self.0 - 1
//@ end
//@ item src/index.rs struct InstRange
impl InstRange {
    spec fn wf(self) -> bool { self.0.0 <= self.1.0 && self.1.0 != u32::MAX }
    spec fn has(self, i: Inst) -> bool { self.0.0 <= i.0 < self.1.0 }
}
//@ fn src/index.rs InstRange::len
//@ spec
    requires self.wf()
    ensures res == self.1.0 - self.0.0
//@ end
//@ fn src/index.rs InstRange::first
//@ spec
    requires self.wf(), self.0.0 < self.1.0
    ensures res == self.0
//@ end
//@ fn src/index.rs InstRange::last
//@ spec
    requires self.wf(), self.0.0 < self.1.0
    ensures res.0 == self.1.0 - 1
//@ end
/// Standing for InstRange::iter: the instructions from the first up to but not including the end.
struct VxInsts { i: u32, n: u32 }
impl VxInsts {
    spec fn wf(self) -> bool { self.i <= self.n && self.n != u32::MAX }
    fn next(&mut self) -> (res: Option<Inst>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).n == old(self).n,
            old(self).i < old(self).n ==> res == Some(Inst(old(self).i)) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).n ==> res is None && final(self).i == old(self).i
    { if self.i < self.n { let r = Inst(self.i); self.i = self.i + 1; Some(r) } else { None } }
}
fn vx_insts(r: InstRange) -> (res: VxInsts)
    requires r.wf()
    ensures res.wf(), res.i == r.0.0, res.n == r.1.0
{ VxInsts { i: r.0.0, n: r.1.0 } }
fn vx_into_iter(x: VxInsts) -> (res: VxInsts)
    ensures res == x
{ x }
//@ item src/lib.rs struct Operand
trait Function: Sized {
    spec fn v_nb(&self) -> nat;
    spec fn v_ni(&self) -> nat;
    spec fn v_entry(&self) -> Block;
    spec fn v_range(&self, b: Block) -> InstRange;
    spec fn v_succs(&self, b: Block) -> Seq<Block>;
    spec fn v_preds(&self, b: Block) -> Seq<Block>;
    spec fn v_ops(&self, i: Inst) -> Seq<Operand>;
    spec fn v_params(&self, b: Block) -> Seq<VReg>;
    spec fn v_args(&self, b: Block, k: int) -> Seq<VReg>;
    spec fn v_branch(&self, i: Inst) -> bool;
    spec fn v_ret(&self, i: Inst) -> bool;
    spec fn v_vregs(&self) -> nat;
    fn block_params(&self, block: Block) -> (r: &[VReg]) requires block.0 < self.v_nb() ensures r@ == self.v_params(block);
    fn is_ret(&self, insn: Inst) -> (r: bool) requires insn.0 < self.v_ni() ensures r == self.v_ret(insn);
    fn is_branch(&self, insn: Inst) -> (r: bool) requires insn.0 < self.v_ni() ensures r == self.v_branch(insn);
    fn branch_blockparams(&self, block: Block, insn: Inst, succ_idx: usize) -> (r: &[VReg]) requires block.0 < self.v_nb(), insn.0 == self.v_range(block).1.0 - 1, succ_idx < self.v_succs(block).len() ensures r@ == self.v_args(block, succ_idx as int);
    fn num_vregs(&self) -> (r: usize) ensures r == self.v_vregs();
    fn num_insts(&self) -> (r: usize) ensures r == self.v_ni();
    fn num_blocks(&self) -> (r: usize) ensures r == self.v_nb();
    fn entry_block(&self) -> (r: Block) ensures r == self.v_entry();
    fn block_insns(&self, block: Block) -> (r: InstRange) requires block.0 < self.v_nb() ensures r == self.v_range(block);
    fn block_succs(&self, block: Block) -> (r: &[Block]) requires block.0 < self.v_nb() ensures r@ == self.v_succs(block);
    fn block_preds(&self, block: Block) -> (r: &[Block]) requires block.0 < self.v_nb() ensures r@ == self.v_preds(block);
    fn inst_operands(&self, insn: Inst) -> (r: &[Operand]) requires insn.0 < self.v_ni() ensures r@ == self.v_ops(insn);
}
spec fn succ_graph<F: Function>(f: F) -> Graph { |b: Block| if b.0 < f.v_nb() { f.v_succs(b) } else { Seq::empty() } }
spec fn pred_graph<F: Function>(f: F) -> Graph { |b: Block| f.v_preds(b) }
/// Edges that leave the first n blocks.
spec fn edges<F: Function>(f: F, n: nat) -> nat decreases n { if n == 0 { 0 } else { edges(f, (n - 1) as nat) + f.v_succs(Block((n - 1) as u32)).len() } }
/// What the documentation of the trait asks of a function: numbers in range, blocks with disjoint
/// instruction ranges (none of them empty), predecessors that mirror the successors.
spec fn well_formed<F: Function>(f: F) -> bool {
    &&& f.v_nb() <= u32::MAX && f.v_ni() < u32::MAX && f.v_entry().0 < f.v_nb()
    &&& forall|b: Block| b.0 < f.v_nb() ==> (#[trigger] f.v_range(b)).0.0 < f.v_range(b).1.0 <= f.v_ni()
    &&& forall|a: Block, b: Block, i: Inst| a.0 < f.v_nb() && b.0 < f.v_nb() && #[trigger] f.v_range(a).has(i) && #[trigger] f.v_range(b).has(i) ==> a == b
    &&& forall|b: Block, p: Block| b.0 < f.v_nb() ==> (#[trigger] f.v_preds(b).contains(p) <==> p.0 < f.v_nb() && f.v_succs(p).contains(b))
    &&& forall|b: Block, p: Block| b.0 < f.v_nb() && #[trigger] f.v_succs(b).contains(p) ==> p.0 < f.v_nb()
    &&& forall|b: Block| b.0 < f.v_nb() ==> #[trigger] f.v_preds(b).len() < u32::MAX
    &&& edges(f, f.v_nb()) <= u32::MAX
}
