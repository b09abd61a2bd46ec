// P08: fast allocator slots.
pub fn c_fast_slot<N: Nd>(n: &mut N) {
    let mut f = crate::verif::TF::empty();
    f.named_by_last = n.bool();
    let c = n.class();
    let size = 1u32 << n.below(8);
    f.slot_size[c as usize] = size as usize;
    let frame = n.u32();
    n.assume(frame < (1 << 23));
    let last = f.named_by_last;
    let mut s = Stack::new(&f);
    assert!(s.num_spillslots == 0);
    s.num_spillslots = frame;
    let slot = s.allocstack(c).index() as u32;
    let start = if last { slot + 1 - size } else { slot };
    assert!(start % size == 0, "misaligned");
    assert!(start >= frame, "overlaps an earlier slot");
    assert!(start + size <= s.num_spillslots, "outside the frame");
}
