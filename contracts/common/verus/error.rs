//@ item src/index.rs!define_index!Inst struct Inst
//@ item src/lib.rs struct VReg
//@ item src/lib.rs enum RegAllocError
