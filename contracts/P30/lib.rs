// P30: see common/runfn.rs.
#[cfg(feature = "fuzzing")]
pub fn c_values<N: Nd>(n: &mut N) { runfn::values(n) }
#[cfg(not(feature = "fuzzing"))]
pub fn c_values<N: Nd>(_n: &mut N) {}
/// A variable defined by a branch, passed to one successor and read in the other.
#[cfg(feature = "fuzzing")]
pub fn c_branch_def<N: Nd>(_n: &mut N) { branch_def(crate::Algorithm::Ion) }
#[cfg(feature = "fuzzing")]
pub fn c_branch_def_fast<N: Nd>(_n: &mut N) { branch_def(crate::Algorithm::Fastalloc) }
#[cfg(feature = "fuzzing")]
fn branch_def(algorithm: crate::Algorithm) {
    let v = |i| VReg::new(i, RegClass::Int);
    let mut f = TF::empty();
    f.vregs = 2;
    f.slot_size = [1; 3];
    let def = Operand::new(v(0), OperandConstraint::Any, OperandKind::Def, OperandPos::Late);
    let read = |i| Operand::new(v(i), OperandConstraint::Any, OperandKind::Use, OperandPos::Early);
    // block0: v0 = branch block1(v0), block2; block1(v1): read v1, ret; block2: read v0, ret
    f.operands = std::vec![std::vec![def], std::vec![read(1)], std::vec![], std::vec![read(0)], std::vec![]];
    f.insts = 5;
    f.ranges = std::vec![(0, 1), (1, 3), (3, 5)];
    f.is_branch = std::vec![true, false, false, false, false];
    f.is_ret = std::vec![false, false, true, false, true];
    f.clobbers = std::vec![PRegSet::empty(); 5];
    f.succs = std::vec![std::vec![Block::new(1), Block::new(2)], std::vec![], std::vec![]];
    f.preds = std::vec![std::vec![], std::vec![Block::new(0)], std::vec![Block::new(0)]];
    f.params = std::vec![std::vec![], std::vec![v(1)], std::vec![]];
    f.args = std::vec![std::vec![std::vec![v(0)], std::vec![]], std::vec![], std::vec![]];
    let o = crate::RegallocOptions { verbose_log: false, validate_ssa: true, algorithm };
    let c = runfn::Case { f, env: crate::fuzzing::func::machine_env(), o, full: true, easy: true };
    let out = crate::run(&c.f, &c.env, &c.o).unwrap();
    runfn::Judge::new(&c, &out).check(false);
}
#[cfg(not(feature = "fuzzing"))]
pub fn c_branch_def<N: Nd>(_n: &mut N) {}
#[cfg(not(feature = "fuzzing"))]
pub fn c_branch_def_fast<N: Nd>(_n: &mut N) {}
