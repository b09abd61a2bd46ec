use vstd::prelude::*;
verus! {
//@ type ion::Stats ()
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/block.rs
//@ item src/index.rs!define_index!Inst struct Inst
//@ item src/lib.rs struct Allocation
//@ item src/index.rs struct InstRange
//@ include ../../common/verus/inst.rs
trait Function: Sized {
    spec fn v_nb(&self) -> nat;
    spec fn v_range(&self, b: Block) -> InstRange;
    fn block_insns(&self, block: Block) -> (r: InstRange) requires block.0 < self.v_nb() ensures r == self.v_range(block);
}
//@ include ../../common/verus/output.rs
} // verus!
fn main() {}
