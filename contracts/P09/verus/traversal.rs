use vstd::prelude::*;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/preg.rs
//@ item src/lib.rs aconst PReg::INVALID exec Self::INVALID == 63 | assert(((0u8 << 6usize) | 63u8) == 63u8) by(bit_vector);
//@ fn src/lib.rs PReg::invalid
//@ spec
    ensures res.bits == 63
//@ end

/// Register sets by their members; the operations are proved in P02 (c_ctx, c_iter_start, c_iter_step).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PRegSet { x: u64 }
#[verifier::external_body]
pub struct PRegSetIter { x: u64 }
impl PRegSetIter {
    /// What is still to be yielded.
    pub uninterp spec fn rem(self) -> ISet<u8>;
    /// The lowest remaining index first.
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<PReg>)
        ensures
            res is None ==> old(self).rem() =~= ISet::<u8>::empty(),
            res is None ==> final(self).rem() == old(self).rem(),
            res matches Some(r) ==> old(self).rem().contains(r.bits) && final(self).rem() =~= old(self).rem().remove(r.bits)
                && forall|b: u8| #[trigger] old(self).rem().contains(b) ==> r.bits <= b
    { None }
}
impl vstd::std_specs::ops::BitAndSpecImpl<PRegSet> for PRegSet {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: PRegSet) -> bool { true }
    uninterp spec fn bitand_spec(self, o: PRegSet) -> PRegSet;
}
impl core::ops::BitAnd<PRegSet> for PRegSet {
    type Output = PRegSet;
    #[verifier::external_body]
    fn bitand(self, o: PRegSet) -> (res: PRegSet) ensures res.mem() =~= self.mem().intersect(o.mem()) { self }
}
impl PRegSet {
    pub uninterp spec fn mem(self) -> ISet<u8>;
    #[verifier::external_body]
    fn empty() -> (res: PRegSet) ensures res.mem() =~= ISet::<u8>::empty() { PRegSet { x: 0 } }
    #[verifier::external_body]
    fn add_up_to(&mut self, reg: PReg) ensures final(self).mem() =~= old(self).mem().union(ISet::new(|b: u8| b < reg.bits)) {}
    #[verifier::external_body]
    fn invert(&self) -> (res: PRegSet) ensures res.mem() =~= self.mem().complement() { *self }
    #[verifier::external_body]
    fn into_iter(self) -> (res: PRegSetIter) ensures res.rem() == self.mem() { PRegSetIter { x: 0 } }
}
//@ item src/lib.rs struct MachineEnv
//@ item src/ion/reg_traversal.rs struct Cursor
//@ item src/ion/reg_traversal.rs struct RegTraversalIter

impl Cursor {
    /// Still to be offered from this set.
    spec fn rem(self) -> ISet<u8> { self.first.rem().union(self.second.rem()) }
    spec fn wf(self) -> bool { self.first.rem().disjoint(self.second.rem()) }
}
//@ fn src/ion/reg_traversal.rs Cursor::new
//@ spec
    ensures res.wf(), res.rem() =~= registers.mem()
//@ entry
    proof { assert(offset_hint % 63 < 63); }
//@ end
//@ fn src/ion/reg_traversal.rs Cursor::next
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        res is None ==> old(self).rem() =~= ISet::<u8>::empty(),
        res is None ==> final(self).rem() == old(self).rem(),
        res matches Some(r) ==> old(self).rem().contains(r.bits) && final(self).rem() =~= old(self).rem().remove(r.bits)
//@ end
spec fn cnt(s: ISet<u8>, n: nat) -> nat decreases n { if n == 0 { 0 } else { cnt(s, (n - 1) as nat) + if s.contains((n - 1) as u8) { 1nat } else { 0 } } }
proof fn cnt_remove(s: ISet<u8>, b: u8, n: nat)
    requires s.contains(b), n <= 256
    ensures cnt(s.remove(b), n) + (if b < n { 1nat } else { 0 }) == cnt(s, n)
    decreases n
{ if n > 0 { cnt_remove(s, b, (n - 1) as nat); } }
spec fn below(r: PReg, limit: Option<usize>) -> bool { limit matches Some(l) ==> (r.hw() as usize) < l }
spec fn reg(b: u8) -> PReg { PReg { bits: b } }
impl RegTraversalIter {
    spec fn wf(self) -> bool {
        &&& self.preferred.wf() && self.non_preferred.wf()
        &&& self.preferred.rem().disjoint(self.non_preferred.rem())
        &&& self.use_hint ==> self.hint is Some
    }
    spec fn ok(self, b: u8) -> bool { Some(reg(b)) != self.hint && below(reg(b), self.limit) }
    /// Exactly the registers this iterator will still yield.
    spec fn rest(self) -> ISet<u8> {
        if self.is_fixed { ISet::new(|b: u8| self.fixed == Some(reg(b))) }
        else { ISet::new(|b: u8| (self.use_hint && self.hint == Some(reg(b)) && below(reg(b), self.limit))
            || ((self.preferred.rem().contains(b) || self.non_preferred.rem().contains(b)) && self.ok(b))) }
    }
}
/// Fixed: that register alone. Otherwise every register of the two lists below the limit, and the hint if it is below the limit.
//@ fn src/ion/reg_traversal.rs RegTraversalIter::new
//@ spec
    requires fixed != Some(reg(63)), hint != Some(reg(63)),
        env.preferred_regs_by_class[class as int].mem().disjoint(env.non_preferred_regs_by_class[class as int].mem())
    ensures res.wf(),
        res.is_fixed == (fixed is Some), res.use_hint == (hint is Some), res.hint == hint, res.limit == limit,
        res.preferred.rem() =~= env.preferred_regs_by_class[class as int].mem(),
        res.non_preferred.rem() =~= env.non_preferred_regs_by_class[class as int].mem(),
        fixed matches Some(f) ==> res.rest() =~= iset![f.bits],
        fixed is None ==> res.rest() =~= ISet::new(|b: u8| (hint == Some(reg(b)) || env.preferred_regs_by_class[class as int].mem().contains(b)
            || env.non_preferred_regs_by_class[class as int].mem().contains(b)) && below(reg(b), limit))
//@ end
//@ fn src/ion/reg_traversal.rs RegTraversalIter::next
//@ spec
    requires old(self).wf()
    ensures final(self).wf(),
        res is None ==> old(self).rest() =~= ISet::<u8>::empty(),
        res is None ==> final(self).rest() =~= old(self).rest(),
        // one that was still to come, and now no longer is: each exactly once
        res matches Some(r) ==> old(self).rest().contains(r.bits) && final(self).rest() =~= old(self).rest().remove(r.bits),
        // the hint first
        !old(self).is_fixed && old(self).use_hint && below(old(self).hint->0, old(self).limit) ==> res == old(self).hint,
        !final(self).use_hint || old(self).is_fixed,
        // preferred registers before the others
        res matches Some(r) ==> !old(self).is_fixed && old(self).non_preferred.rem().contains(r.bits) && Some(r) != old(self).hint
            ==> forall|b: u8| #[trigger] old(self).preferred.rem().contains(b) ==> !old(self).ok(b),
        final(self).is_fixed == old(self).is_fixed, final(self).hint == old(self).hint, final(self).limit == old(self).limit
//@ loop 0
    invariant self.wf(), !self.is_fixed, !old(self).is_fixed, !self.use_hint, self.hint == old(self).hint, self.limit == old(self).limit, old(self).wf(),
        old(self).use_hint ==> !below(old(self).hint->0, self.limit),
        self.rest() =~= old(self).rest(), self.non_preferred == old(self).non_preferred,
        forall|b: u8| #[trigger] old(self).preferred.rem().contains(b) ==> self.preferred.rem().contains(b) || !self.ok(b),
        forall|b: u8| #[trigger] self.preferred.rem().contains(b) ==> old(self).preferred.rem().contains(b)
    ensures self.preferred.rem() =~= ISet::<u8>::empty()
    decreases cnt(self.preferred.rem(), 256)
//@ loop 0 begin
    let ghost before = self.preferred.rem();
//@ loop 0 bound
    proof { cnt_remove(before, reg.bits, 256); }
//@ loop 1
    invariant self.wf(), !self.is_fixed, !old(self).is_fixed, !self.use_hint, self.hint == old(self).hint, self.limit == old(self).limit, old(self).wf(),
        old(self).use_hint ==> !below(old(self).hint->0, self.limit),
        self.rest() =~= old(self).rest(), self.preferred.rem() =~= ISet::<u8>::empty(),
        forall|b: u8| #[trigger] old(self).preferred.rem().contains(b) ==> !self.ok(b),
        forall|b: u8| #[trigger] self.non_preferred.rem().contains(b) ==> old(self).non_preferred.rem().contains(b)
    ensures self.non_preferred.rem() =~= ISet::<u8>::empty()
    decreases cnt(self.non_preferred.rem(), 256)
//@ loop 1 begin
    let ghost before = self.non_preferred.rem();
//@ loop 1 bound
    proof { cnt_remove(before, reg.bits, 256); }
//@ end
/// Exhausting the iterator yields every register of `rest` exactly once: the sequence of results has no repetition and misses none.
spec fn drains(s: Seq<u8>, all: ISet<u8>, left: ISet<u8>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
    &&& forall|b: u8| #[trigger] all.contains(b) <==> (s.contains(b) || left.contains(b))
    &&& forall|i: int| 0 <= i < s.len() ==> !left.contains(#[trigger] s[i])
}
proof fn drain_step(s: Seq<u8>, all: ISet<u8>, left: ISet<u8>, b: u8)
    requires drains(s, all, left), left.contains(b)
    ensures drains(s.push(b), all, left.remove(b))
{
    let t = s.push(b);
    assert(t[s.len() as int] == b);
    assert forall|c: u8| #[trigger] all.contains(c) <==> (t.contains(c) || left.remove(b).contains(c)) by {
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(t[i] == c); }
        if t.contains(c) { let i = choose|i: int| 0 <= i < t.len() && t[i] == c; if i < s.len() { assert(s[i] == c); } }
    }
}
fn drain(it: &mut RegTraversalIter) -> (res: Vec<PReg>)
    requires old(it).wf()
    ensures drains(Seq::new(res@.len(), |i: int| res@[i].bits), old(it).rest(), ISet::empty())
{
    let mut v: Vec<PReg> = Vec::new();
    let ghost mut s: Seq<u8> = Seq::empty();
    proof { assert(forall|b: u8| !s.contains(b)); }
    loop
        invariant it.wf(), drains(s, old(it).rest(), it.rest()), s =~= Seq::new(v@.len(), |i: int| v@[i].bits)
        decreases cnt(it.rest(), 256)
    {
        let ghost before = it.rest();
        match it.next() {
            Some(r) => { proof { drain_step(s, old(it).rest(), before, r.bits); cnt_remove(before, r.bits, 256); s = s.push(r.bits); } v.push(r); }
            None => { return v; }
        }
    }
}
} // verus!
fn main() {}
