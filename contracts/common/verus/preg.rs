//@ item src/lib.rs enum RegClass
//@ item src/lib.rs struct PReg
//@ item src/lib.rs aconst PReg::MAX_BITS
//@ item src/lib.rs aconst PReg::MAX exec Self::MAX == 63 | assert((1usize << 6usize) == 64usize) by(bit_vector);
impl PReg {
    spec fn hw(self) -> u8 { self.bits & 63u8 }
    spec fn of(hw: int, class: RegClass) -> PReg { PReg { bits: (((class as u8) << 6u8) | (hw as u8)) } }
}
proof fn preg_hw(hw: u8, class: RegClass)
    requires hw < 64
    ensures PReg::of(hw as int, class).hw() == hw
{
    let c = class as u8;
    assert(hw < 64 ==> ((c << 6u8) | hw) & 63u8 == hw) by(bit_vector);
}
//@ fn src/lib.rs PReg::new
//@ spec
    requires hw_enc <= 63
    ensures res == PReg::of(hw_enc as int, class)
//@ end
//@ fn src/lib.rs PReg::hw_enc
//@ spec
    ensures res == self.hw(), res < 64
//@ entry
    proof { let b = self.bits; assert((b as usize & 63usize) == (b & 63u8) as usize) by(bit_vector); assert((b & 63u8) < 64) by(bit_vector); }
//@ end
