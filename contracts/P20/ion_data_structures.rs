use super::super::liveranges::SpillWeight;
use crate::Bump;
// P20: packed keys order like tuples; packed fields read back what was written.
fn w<N: Nd>(n: &mut N) -> u32 { n.u32() }
pub fn c_u64_key<N: Nd>(n: &mut N) {
    let (a, b) = ((w(n), w(n)), (w(n), w(n)));
    let (x, y) = (u64_key(a.0, a.1), u64_key(b.0, b.1));
    assert!(x.cmp(&y) == a.cmp(&b));
}
pub fn c_u128_key<N: Nd>(n: &mut N) {
    let a = (w(n), w(n), w(n), w(n));
    let b = (w(n), w(n), w(n), w(n));
    assert!(u128_key(a.0, a.1, a.2, a.3).cmp(&u128_key(b.0, b.1, b.2, b.3)) == a.cmp(&b));
}
fn vidx<N: Nd>(n: &mut N) -> VRegIndex { let v = n.u32(); n.assume(v < u32::MAX); VRegIndex::new(v as usize) }
fn blk<N: Nd>(n: &mut N) -> Block { let v = n.u32(); n.assume(v < u32::MAX); Block::new(v as usize) }
pub fn c_blockparam_out_key<N: Nd>(n: &mut N) {
    let mk = |n: &mut N| BlockparamOut { to_vreg: vidx(n), to_block: blk(n), from_block: blk(n), from_vreg: vidx(n) };
    let (a, b) = (mk(n), mk(n));
    let t = |x: &BlockparamOut| (x.from_vreg.index(), x.from_block.index(), x.to_block.index(), x.to_vreg.index());
    assert!(a.key().cmp(&b.key()) == t(&a).cmp(&t(&b)));
}
pub fn c_blockparam_in_key<N: Nd>(n: &mut N) {
    let mk = |n: &mut N| BlockparamIn { from_block: blk(n), to_block: blk(n), to_vreg: vidx(n) };
    let (a, b) = (mk(n), mk(n));
    let t = |x: &BlockparamIn| (x.to_vreg.index(), x.to_block.index(), x.from_block.index());
    assert!(a.key().cmp(&b.key()) == t(&a).cmp(&t(&b)));
}
pub fn c_pos_prio_key<N: Nd>(n: &mut N) {
    let mk = |n: &mut N| PosWithPrio { prio: n.u32(), pos: ProgPoint::from_index(n.u32()) };
    let (a, b) = (mk(n), mk(n));
    let t = |x: &PosWithPrio| (x.pos, x.prio);
    assert!(a.key().cmp(&b.key()) == t(&a).cmp(&t(&b)));
}
fn lr(word: u32) -> core::mem::ManuallyDrop<LiveRange> {
    core::mem::ManuallyDrop::new(LiveRange { range: CodeRange { from: ProgPoint::from_index(0), to: ProgPoint::from_index(2) }, vreg: VRegIndex::invalid(), bundle: LiveBundleIndex::invalid(),
        uses_spill_weight_and_flags: word, uses: UseList::new_in(Bump::default()) })
}
pub fn c_range_flag<N: Nd>(n: &mut N) {
    let f = LiveRangeFlag::StartsAtDef;
    let mut r = lr(n.u32());
    let weight = r.uses_spill_weight().to_f32().to_bits();
    let other = r.flag_word() & !((f as u32) << 29);
    let (had, val, merged) = (r.has_flag(f), n.bool(), n.u32() & 0xe000_0000);
    let expect = match n.below(4) {
        0 => { r.set_flag(f); true }
        1 => { r.clear_flag(f); false }
        2 => { r.assign_flag(f, val); val }
        _ => {
            let mut o = lr(0);
            if n.bool() { o.set_flag(f); }
            let e = had | o.has_flag(f);
            r.merge_flags(o.flag_word());
            e
        }
    };
    let _ = merged;
    assert!(r.has_flag(f) == expect);
    assert!(r.uses_spill_weight().to_f32().to_bits() == weight, "weight disturbed");
    assert!(r.flag_word() & !((f as u32) << 29) == other, "other flags disturbed");
}
pub fn c_range_weight<N: Nd>(n: &mut N) {
    let f = LiveRangeFlag::StartsAtDef;
    let mut r = lr(n.u32());
    let (had, word) = (r.has_flag(f), r.flag_word());
    let b = n.u32();
    n.assume(b < 0x7f80_0000); // finite, non-negative
    let v = SpillWeight::from_f32(f32::from_bits(b));
    r.set_uses_spill_weight(v);
    assert!(r.has_flag(f) == had && r.flag_word() == word, "flags disturbed");
    // Only the two lowest mantissa bits are dropped.
    assert!(r.uses_spill_weight().to_f32().to_bits() == b & !3);
    let again = r.uses_spill_weight();
    r.set_uses_spill_weight(again);
    assert!(r.uses_spill_weight().to_f32().to_bits() == b & !3);
}
fn bundle(word: u32) -> core::mem::ManuallyDrop<LiveBundle> {
    core::mem::ManuallyDrop::new(LiveBundle { ranges: LiveRangeList::new_in(Bump::default()), spillset: SpillSetIndex::invalid(), allocation: Allocation::none(), prio: 0, spill_weight_and_props: word, limit: None })
}
fn props(b: &LiveBundle) -> (u32, bool, bool, bool, bool) {
    (b.cached_spill_weight(), b.cached_minimal(), b.cached_fixed(), b.cached_fixed_def(), b.cached_stack())
}
pub fn c_bundle_props<N: Nd>(n: &mut N) {
    let mut b = bundle(n.u32());
    let want = (n.u32(), n.bool(), n.bool(), n.bool(), n.bool());
    n.assume(want.0 <= BUNDLE_MAX_SPILL_WEIGHT);
    b.set_cached_spill_weight_and_props(want.0, want.1, want.2, want.3, want.4);
    assert!(props(&b) == want);
}
pub fn c_bundle_set<N: Nd>(n: &mut N) {
    let mut b = bundle(n.u32());
    let mut want = props(&b);
    match n.below(3) {
        0 => { b.set_cached_fixed(); want.2 = true; }
        1 => { b.set_cached_fixed_def(); want.3 = true; }
        _ => { b.set_cached_stack(); want.4 = true; }
    }
    assert!(props(&b) == want);
}
/// The special weights keep their documented order.
pub fn c_weight_order<N: Nd>(_n: &mut N) {
    assert!(BUNDLE_MAX_NORMAL_SPILL_WEIGHT < MINIMAL_BUNDLE_SPILL_WEIGHT);
    assert!(MINIMAL_BUNDLE_SPILL_WEIGHT < MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT);
    assert!(MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT < MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT);
    assert!(MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT <= BUNDLE_MAX_SPILL_WEIGHT);
    let mut b = bundle(0);
    b.set_cached_spill_weight_and_props(BUNDLE_MAX_SPILL_WEIGHT, false, false, false, false);
    assert!(props(&b) == (BUNDLE_MAX_SPILL_WEIGHT, false, false, false, false));
}
