//@ item src/lib.rs enum RegClass
//@ item src/lib.rs struct VReg
//@ item src/lib.rs aconst VReg::MAX_BITS
//@ item src/lib.rs aconst VReg::MAX exec Self::MAX == 0x3fff_ffff | assert((1usize << 30usize) == 0x4000_0000usize) by(bit_vector);
impl VReg {
    #[verifier::opaque]
    spec fn num(self) -> nat { (self.bits >> 2) as nat }
    spec fn inv() -> VReg { VReg { bits: 0xffff_fffcu32 } }
}
//@ fn src/lib.rs VReg::new
//@ spec
    requires virt_reg <= 0x3fff_ffff
    ensures res.num() == virt_reg, class == RegClass::Int ==> res.bits == virt_reg * 4,
//@ entry
    proof { reveal(VReg::num);
        let v = virt_reg as u32;
        assert(v <= 0x3fff_ffff ==> ((v << 2) | 0) == mul(v, 4)) by(bit_vector);
        assert(v <= 0x3fff_ffff ==> ((v << 2) | 0) >> 2 == v) by(bit_vector);
        assert(v <= 0x3fff_ffff ==> ((v << 2) | 1) >> 2 == v) by(bit_vector);
        assert(v <= 0x3fff_ffff ==> ((v << 2) | 2) >> 2 == v) by(bit_vector);
    }
//@ end
//@ fn src/lib.rs VReg::vreg
//@ spec
    ensures res == self.num()
//@ entry
    proof { reveal(VReg::num); }
//@ end
//@ fn src/lib.rs VReg::invalid
//@ spec
    ensures res == VReg::inv()
//@ end
