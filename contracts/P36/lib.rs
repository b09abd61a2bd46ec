// P36: a saved function answers as the original, before and after a round through the snapshot format.
#[cfg(feature = "enable-serde")]
pub static CODEC: std::sync::OnceLock<fn(&crate::serialize::SerializableFunction) -> crate::serialize::SerializableFunction> = std::sync::OnceLock::new();
#[cfg(all(feature = "fuzzing", feature = "enable-serde"))]
fn answers_alike<F: Function, G: Function>(f: &F, g: &G) {
    assert!(f.num_insts() == g.num_insts() && f.num_blocks() == g.num_blocks() && f.num_vregs() == g.num_vregs() && f.entry_block() == g.entry_block(), "counts and entry");
    for c in [RegClass::Int, RegClass::Float, RegClass::Vector] { assert!(f.spillslot_size(c) == g.spillslot_size(c), "slot size"); }
    assert!(f.multi_spillslot_named_by_last_slot() == g.multi_spillslot_named_by_last_slot() && f.allow_multiple_vreg_defs() == g.allow_multiple_vreg_defs(), "flags");
    assert!(f.debug_value_labels() == g.debug_value_labels(), "labels");
    for b in 0..f.num_blocks() {
        let b = Block::new(b);
        let (r, q) = (f.block_insns(b), g.block_insns(b));
        assert!(r.first() == q.first() && r.len() == q.len(), "block range");
        assert!(f.block_succs(b) == g.block_succs(b) && f.block_preds(b) == g.block_preds(b) && f.block_params(b) == g.block_params(b), "block {:?}", b);
        for k in 0..f.block_succs(b).len() { assert!(f.branch_blockparams(b, r.last(), k) == g.branch_blockparams(b, r.last(), k), "arguments of {:?} for successor {}", b, k); }
    }
    for i in 0..f.num_insts() {
        let i = Inst::new(i);
        assert!(f.inst_operands(i) == g.inst_operands(i) && f.inst_clobbers(i) == g.inst_clobbers(i), "instruction {:?}", i);
        assert!(f.is_ret(i) == g.is_ret(i) && f.is_branch(i) == g.is_branch(i), "kind of {:?}", i);
    }
}
#[cfg(all(feature = "fuzzing", feature = "enable-serde"))]
pub fn c_saved<N: Nd>(n: &mut N) {
    use crate::serialize::SerializableFunction;
    let c = runfn::any_case(n);
    let ok = c.is_some(); n.assume(ok);
    let mut c = c.unwrap();
    c.f.multi_defs = n.bool();
    c.f.strict = true;
    let env = std::format!("{:?}", c.env);
    let a = SerializableFunction::new(&c.f, c.env.clone());
    answers_alike(&c.f, &a);
    assert!(env == std::format!("{:?}", a.machine_env()), "the environment is kept");
    if let Some(codec) = CODEC.get() {
        let b = codec(&a);
        answers_alike(&c.f, &b);
        assert!(env == std::format!("{:?}", b.machine_env()), "the environment survives saving");
        // the environment as the allocator sees it
        let (x, y) = (&c.env, b.machine_env());
        assert!(x.preferred_regs_by_class == y.preferred_regs_by_class && x.non_preferred_regs_by_class == y.non_preferred_regs_by_class && x.scratch_by_class == y.scratch_by_class && x.fixed_stack_slots == y.fixed_stack_slots, "the environment survives saving");
        std::format!("{:?}", b);
    }
}
#[cfg(not(all(feature = "fuzzing", feature = "enable-serde")))]
pub fn c_saved<N: Nd>(_n: &mut N) {}
