//@ fn src/index.rs!define_index!Inst Inst::new
//@ spec
    ensures res.0 == i as u32
//@ end
//@ fn src/index.rs!define_index!Inst Inst::invalid
//@ spec
    ensures res.0 == u32::MAX
//@ end
//@ fn src/index.rs!define_index!Inst Inst::is_valid
//@ spec
    ensures res == (self.0 != u32::MAX)
//@ end
//@ fn src/index.rs!define_index!Inst Inst::index
//@ spec
    requires self.0 != u32::MAX
    ensures res == self.0
//@ end
//@ fn src/index.rs!define_index!Inst Inst::next
//@ spec
    requires self.0 != u32::MAX
    ensures res.0 == self.0 + 1
//@ end
//@ fn src/index.rs InstRange::new
//@ spec
    requires from.0 <= to.0, to.0 != u32::MAX
    ensures res.0 == from, res.1 == to
//@ end
//@ fn src/index.rs InstRange::rest
//@ spec
    requires self.wf(), self.0.0 < self.1.0
    ensures res.0.0 == self.0.0 + 1, res.1 == self.1
//@ end
impl InstRange {
    spec fn wf(self) -> bool { self.0.0 <= self.1.0 && self.1.0 != u32::MAX }
    spec fn has(self, i: Inst) -> bool { self.0.0 <= i.0 < self.1.0 }
}
//@ fn src/index.rs InstRange::len
//@ spec
    requires self.wf()
    ensures res == self.1.0 - self.0.0
//@ end
//@ fn src/index.rs InstRange::first
//@ spec
    requires self.wf(), self.0.0 < self.1.0
    ensures res == self.0
//@ end
