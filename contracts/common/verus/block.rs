//@ item src/index.rs!define_index!Block struct Block
//@ fn src/index.rs!define_index!Block Block::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!Block Block::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!Block Block::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!Block Block::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ fn src/index.rs!define_index!Block Block::is_invalid
//@ spec
    ensures res == (self.0 == u32::MAX)
//@ end
