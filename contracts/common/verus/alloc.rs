//@ item src/lib.rs enum AllocationKind
//@ item src/lib.rs struct Allocation
impl Allocation {
    spec fn nil() -> Allocation { Allocation { bits: 0u32 } }
    spec fn k(self) -> u32 { (self.bits >> 29u32) & 7u32 }
    /// A location, or the placeholder in its one form.
    spec fn valid(self) -> bool { self.k() <= 2 && (self.k() == 0 ==> self == Allocation::nil()) }
}
proof fn alloc_nil() ensures Allocation::nil().k() == 0 { assert((0u32 >> 29u32) & 7u32 == 0) by(bit_vector); }
//@ fn src/lib.rs Allocation::new
//@ spec
    requires index < (1usize << 28usize)
    ensures res.bits == (((kind as u8 as u32) << 29u32) | index as u32)
//@ end
//@ fn src/lib.rs Allocation::none
//@ spec
    ensures res == Allocation::nil()
//@ entry
    proof { assert(0usize < (1usize << 28usize)) by(bit_vector); assert(((0u32 << 29u32) | 0u32) == 0u32) by(bit_vector); }
//@ end
//@ fn src/lib.rs Allocation::kind
//@ spec
    requires self.k() <= 2
    ensures res == (if self.k() == 0 { AllocationKind::None } else if self.k() == 1 { AllocationKind::Reg } else { AllocationKind::Stack })
//@ end
//@ fn src/lib.rs Allocation::is_none
//@ spec
    requires self.k() <= 2
    ensures res == (self.k() == 0)
//@ end
//@ fn src/lib.rs Allocation::is_some
//@ spec
    requires self.k() <= 2
    ensures res == (self.k() != 0)
//@ end
//@ fn src/lib.rs Allocation::bits
//@ spec
    ensures res == self.bits
//@ end
