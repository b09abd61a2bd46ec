/// A function given by explicit tables; the contracts' test double for the client's `Function`.
pub struct TF {
    pub entry: Block,
    pub insts: usize,
    pub ranges: Vec<(usize, usize)>,
    pub succs: Vec<Vec<Block>>,
    pub preds: Vec<Vec<Block>>,
    pub params: Vec<Vec<VReg>>,
    /// Per block, per successor: arguments.
    pub args: Vec<Vec<Vec<VReg>>>,
    pub operands: Vec<Vec<Operand>>,
    pub clobbers: Vec<PRegSet>,
    pub is_ret: Vec<bool>,
    pub is_branch: Vec<bool>,
    pub vregs: usize,
    pub slot_size: [usize; 3],
    pub named_by_last: bool,
    pub multi_defs: bool,
    pub labels: Vec<(VReg, Inst, Inst, u32)>,
    pub strict: bool,
}
impl TF {
    pub fn empty() -> TF {
        TF { entry: Block::new(0), insts: 0, ranges: Vec::new(), succs: Vec::new(), preds: Vec::new(), params: Vec::new(), args: Vec::new(),
             operands: Vec::new(), clobbers: Vec::new(), is_ret: Vec::new(), is_branch: Vec::new(), vregs: 0, slot_size: [1, 1, 2], named_by_last: false, multi_defs: false, labels: Vec::new(), strict: false }
    }
}
impl Function for TF {
    fn num_insts(&self) -> usize { self.insts }
    fn num_blocks(&self) -> usize { self.ranges.len() }
    fn entry_block(&self) -> Block { self.entry }
    fn block_insns(&self, b: Block) -> InstRange {
        let (x, y) = self.ranges[b.index()];
        InstRange::new(Inst::new(x), Inst::new(y))
    }
    fn block_succs(&self, b: Block) -> &[Block] { &self.succs[b.index()] }
    fn block_preds(&self, b: Block) -> &[Block] { &self.preds[b.index()] }
    fn block_params(&self, b: Block) -> &[VReg] { &self.params[b.index()] }
    fn is_ret(&self, i: Inst) -> bool { self.is_ret[i.index()] }
    fn is_branch(&self, i: Inst) -> bool { self.is_branch[i.index()] }
    fn branch_blockparams(&self, b: Block, _i: Inst, s: usize) -> &[VReg] {
        #[cfg(not(kani))]
        if self.strict { assert!(_i.index() + 1 == self.ranges[b.index()].1, "asked about the block's branch"); }
        &self.args[b.index()][s]
    }
    fn inst_operands(&self, i: Inst) -> &[Operand] { &self.operands[i.index()] }
    fn inst_clobbers(&self, i: Inst) -> PRegSet { self.clobbers[i.index()] }
    fn num_vregs(&self) -> usize { self.vregs }
    fn spillslot_size(&self, c: RegClass) -> usize { self.slot_size[c as usize] }
    fn multi_spillslot_named_by_last_slot(&self) -> bool { self.named_by_last }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] { &self.labels }
    fn allow_multiple_vreg_defs(&self) -> bool { self.multi_defs }
}
pub fn no_env() -> MachineEnv {
    MachineEnv { preferred_regs_by_class: [PRegSet::empty(); 3], non_preferred_regs_by_class: [PRegSet::empty(); 3], scratch_by_class: [None; 3], fixed_stack_slots: Vec::new() }
}
