// ---- the output and its iterator; program points are their numbers (an instruction's points are 2i and 2i + 1)
//@ item src/lib.rs enum InstPosition
//@ item src/lib.rs struct ProgPoint derive(Clone,Copy,PartialEq,Eq)
//@ item src/lib.rs enum Edit derive()
//@ item src/lib.rs enum InstOrEdit derive()
//@ item src/lib.rs struct OutputIter derive()
//@ item src/lib.rs struct Output derive()
/// The derived order of a struct of one number.
impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProgPoint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &ProgPoint) -> Option<core::cmp::Ordering> { Some(if self.bits < o.bits { core::cmp::Ordering::Less } else if self.bits == o.bits { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) }
}
impl PartialOrd for ProgPoint { #[verifier::external_body] fn partial_cmp(&self, o: &ProgPoint) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
//@ fn src/lib.rs ProgPoint::new
//@ entry
    let ghost x = inst.0;
    assert(x <= 0x7fff_ffffu32 ==> ((x << 1u32) | 0u32 == 2 * x) && ((x << 1u32) | 1u32 == 2 * x + 1)) by(bit_vector);
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0 + (if pos is After { 1int } else { 0 })
//@ end
//@ fn src/lib.rs ProgPoint::before
//@ spec
    requires inst.0 <= 0x7fff_ffff
    ensures res.bits == 2 * inst.0
//@ end
type Edits = Seq<(ProgPoint, Edit)>;
spec fn sorted(e: Edits) -> bool { forall|i: int, j: int| 0 <= i <= j < e.len() ==> (#[trigger] e[i]).0.bits <= (#[trigger] e[j]).0.bits }
/// What an iterator still has to give: an instruction, or an edit.
enum Item { I(Inst), E(Edit) }
spec fn item(x: InstOrEdit<'_>) -> Item { match x { InstOrEdit::Inst(i) => Item::I(i), InstOrEdit::Edit(e) => Item::E(*e) } }
spec fn due(e: Edits, i: int) -> bool { e.len() > 0 && e[0].0.bits <= 2 * i }
spec fn rest_of(e: Edits, i: int, end: int) -> Seq<Item> decreases e.len() + (if i < end { end - i } else { 0 }) {
    if i >= end { Seq::empty() }
    else if due(e, i) { seq![Item::E(e[0].1)] + rest_of(e.drop_first(), i, end) }
    else { seq![Item::I(Inst(i as u32))] + rest_of(e, i + 1, end) }
}
spec fn remaining(it: OutputIter<'_>) -> Seq<Item> { rest_of(it.edits@, it.inst_range.0.0 as int, it.inst_range.1.0 as int) }
spec fn usable(it: OutputIter<'_>) -> bool { it.inst_range.wf() && it.inst_range.1.0 <= 0x7fff_ffff }
//@ fn src/lib.rs OutputIter::next
//@ impl <'a> OutputIter<'a>
//@ spec
    requires usable(*old(self))
    ensures usable(*final(self)),
        remaining(*old(self)).len() == 0 <==> res is None,
        res matches Some(x) ==> remaining(*old(self)) == seq![item(x)] + remaining(*final(self)),
//@ end
/// The number of edits before point p.
spec fn lower(e: Edits, p: int) -> int decreases e.len() { if e.len() == 0 || e[0].0.bits >= p { 0 } else { 1 + lower(e.drop_first(), p) } }
proof fn lower_is(e: Edits, p: int)
    requires sorted(e)
    ensures 0 <= lower(e, p) <= e.len(), forall|k: int| 0 <= k < lower(e, p) ==> (#[trigger] e[k]).0.bits < p, forall|k: int| lower(e, p) <= k < e.len() ==> (#[trigger] e[k]).0.bits >= p
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_first();
        if e[0].0.bits >= p { } else {
            lower_is(d, p);
            assert forall|k: int| 0 <= k < lower(e, p) implies (#[trigger] e[k]).0.bits < p by { if k > 0 { assert(d[k - 1] == e[k]); } }
            assert forall|k: int| lower(e, p) <= k < e.len() implies (#[trigger] e[k]).0.bits >= p by { assert(d[k - 1] == e[k]); }
        }
    }
}
spec fn items(e: Edits) -> Seq<Item> { Seq::new(e.len(), |k: int| Item::E(e[k].1)) }
/// The instructions i..end in order, each preceded by the edits at the points after the previous one up to before it:
/// the edits from number a on, those at points up to 2i, in list order.
spec fn listing(e: Edits, a: int, i: int, end: int) -> Seq<Item> decreases end - i {
    if i >= end { Seq::empty() } else { items(e.subrange(a, lower(e, 2 * i + 1))) + seq![Item::I(Inst(i as u32))] + listing(e, lower(e, 2 * i + 1), i + 1, end) }
}
/// The iterator, begun at edit number a, gives that listing.
proof fn rest_is_listing(e: Edits, a: int, i: int, end: int)
    requires sorted(e), 0 <= a <= e.len(), i < end ==> a <= lower(e, 2 * i + 1)
    ensures rest_of(e.skip(a), i, end) == listing(e, a, i, end)
    decreases e.len() - a + (if i < end { end - i } else { 0 })
{
    if i < end {
        let n = lower(e, 2 * i + 1);
        lower_is(e, 2 * i + 1);
        let r = e.skip(a);
        if due(r, i) {
            assert(r[0] == e[a]);
            assert(a < n);
            assert(r.drop_first() =~= e.skip(a + 1));
            rest_is_listing(e, a + 1, i, end);
            assert(seq![Item::E(e[a].1)] + items(e.subrange(a + 1, n)) =~= items(e.subrange(a, n)));
            assert(rest_of(r, i, end) =~= listing(e, a, i, end));
        } else {
            if a < n { assert(r[0] == e[a]); }
            lower_is(e, 2 * i + 3);
            if n > lower(e, 2 * i + 3) { assert(e[n - 1].0.bits < 2 * i + 1); }
            rest_is_listing(e, a, i + 1, end);
            assert(items(e.subrange(a, n)) =~= Seq::empty());
            assert(rest_of(r, i, end) =~= listing(e, a, i, end));
        }
    }
}
/// slice::binary_search_by, from the comparisons of the elements.
#[verifier::external_body]
fn vx_binary_search_by(o: &Vec<core::cmp::Ordering>) -> (res: core::result::Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i <= j < o@.len() && (o@[i] is Greater || o@[j] is Less) ==> o@[i] == o@[j]
    ensures match res {
        Ok(k) => k < o@.len() && o@[k as int] is Equal,
        Err(k) => k <= o@.len() && (k > 0 ==> o@[k - 1] is Less) && (k < o@.len() ==> o@[k as int] is Greater) && forall|i: int| 0 <= i < o@.len() ==> (if i < k { #[trigger] o@[i] is Less } else { o@[i] is Greater }) }
{ unimplemented!() }
/// Slicing from an index.
trait VxFrom<T> { spec fn vs(&self) -> Seq<T>; fn vx_from(&self, i: usize) -> (r: &[T]) requires i <= self.vs().len() ensures r@ == self.vs().skip(i as int); fn vx_sub(&self, i: usize, j: usize) -> (r: &[T]) requires i <= j <= self.vs().len() ensures r@ == self.vs().subrange(i as int, j as int); }
impl<T> VxFrom<T> for Vec<T> { spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_from(&self, i: usize) -> (r: &[T]) { &self[i..] } #[verifier::external_body] fn vx_sub(&self, i: usize, j: usize) -> (r: &[T]) { &self[i..j] } }
spec fn block_listing<F: Function>(f: F, out: Output, b: Block) -> Seq<Item> {
    let r = f.v_range(b);
    listing(out.edits@, lower(out.edits@, 2 * r.0.0), r.0.0 as int, r.1.0 as int)
}
//@ fn src/lib.rs Output::block_insts_and_edits
//@ loop 0
    invariant
        __s0@ == self.edits@, __i0 <= self.edits@.len(), inst_range.wf(), inst_range.0.0 < inst_range.1.0 <= 0x7fff_ffff,
        __o0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __o0@[k] == (if self.edits@[k].0.bits < 2 * inst_range.0.0 { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater }),
    decreases self.edits@.len() - __i0
//@ before let edits =
    proof {
        let e = self.edits@;
        lower_is(e, 2 * inst_range.0.0); lower_is(e, 2 * inst_range.0.0 + 1);
        let k = lower(e, 2 * inst_range.0.0);
        assert(edit_idx == k) by { if edit_idx < k { assert(e[edit_idx as int].0.bits < 2 * inst_range.0.0); } if edit_idx > k { assert(e[edit_idx - 1].0.bits >= 2 * inst_range.0.0); } }
        if k > lower(e, 2 * inst_range.0.0 + 1) { assert(e[k - 1].0.bits < 2 * inst_range.0.0); }
        rest_is_listing(e, k, inst_range.0.0 as int, inst_range.1.0 as int);
    }
//@ spec
    requires block.0 < func.v_nb(), func.v_range(block).wf(), func.v_range(block).0.0 < func.v_range(block).1.0 <= 0x7fff_ffff, sorted(self.edits@)
    ensures usable(res), remaining(res) == block_listing(*func, *self, block)
//@ end
/// The part of the location table that is instruction i's.
spec fn portion(out: Output, i: int) -> Seq<Allocation> {
    out.allocs@.subrange(out.inst_alloc_offsets@[i] as int, if i + 1 < out.inst_alloc_offsets@.len() { out.inst_alloc_offsets@[i + 1] as int } else { out.allocs@.len() as int })
}
/// The table is made of the instructions' portions in order.
spec fn tabled(out: Output) -> bool {
    &&& out.inst_alloc_offsets@.len() < u32::MAX
    &&& forall|i: int| 0 <= i < out.inst_alloc_offsets@.len() ==> #[trigger] out.inst_alloc_offsets@[i] <= out.allocs@.len()
    &&& forall|i: int, j: int| 0 <= i <= j < out.inst_alloc_offsets@.len() ==> #[trigger] out.inst_alloc_offsets@[i] <= #[trigger] out.inst_alloc_offsets@[j]
}
//@ fn src/lib.rs Output::inst_allocs
//@ spec
    requires tabled(*self), inst.0 < self.inst_alloc_offsets@.len()
    ensures res@ == portion(*self, inst.0 as int)
//@ end
