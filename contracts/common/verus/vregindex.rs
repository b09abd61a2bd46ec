//@ item src/index.rs!define_index!VRegIndex struct VRegIndex
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!VRegIndex VRegIndex::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
