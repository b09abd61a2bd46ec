use vstd::prelude::*;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/vregindex.rs
//@ include ../../common/verus/vreg.rs
//@ item src/fastalloc/vregset.rs struct VRegNode derive(Clone, Copy)
//@ item src/fastalloc/vregset.rs struct VRegSet
//@ item src/fastalloc/vregset.rs struct VRegSetIter

#[verifier::opaque]
spec fn num_at(s: Seq<VReg>, i: int, head: int) -> int { if 0 <= i < s.len() { s[i].num() as int } else { head } }
proof fn na(s: Seq<VReg>, i: int, head: int) ensures num_at(s, i, head) == (if 0 <= i < s.len() { s[i].num() as int } else { head }) { reveal(num_at); }
spec fn mem(s: Seq<VReg>, n: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).num() == n }
/// From member i on, the links spell s.
spec fn links(items: Seq<VRegNode>, head: int, s: Seq<VReg>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).num() < head
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).num() != (#[trigger] s[j]).num()
    &&& forall|i: int| 0 <= i < s.len() ==> items[(#[trigger] s[i]).num() as int].vreg == s[i] && items[s[i].num() as int].next.0 == num_at(s, i + 1, head)
}
impl VRegSet {
    /// The set holds exactly the variables of s, most recently inserted first.
    spec fn wf(self, s: Seq<VReg>) -> bool {
        let n = self.head.0 as int;
        &&& n < 0x3fff_ffff
        &&& self.items@.len() == n + 1
        &&& links(self.items@, n, s)
        &&& self.items@[n].next.0 == num_at(s, 0, n)
        &&& self.items@[n].prev.0 == num_at(s, s.len() - 1, n)
        &&& forall|i: int| 0 <= i < s.len() ==> self.items@[(#[trigger] s[i]).num() as int].prev.0 == num_at(s, i - 1, n)
        &&& forall|k: int| 0 <= k < n && !mem(s, k) ==> (#[trigger] self.items@[k]).vreg == VReg::inv()
    }
}
/// The contents are determined by the representation.
proof fn contents_unique(v: VRegSet, s: Seq<VReg>, t: Seq<VReg>)
    requires v.wf(s), v.wf(t)
    ensures s == t
{
    agree(v, s, t, s.len()); agree(v, t, s, t.len());
    let n = v.head.0 as int; na(s, s.len() as int, n); na(t, s.len() as int, n); na(t, t.len() as int, n); na(s, t.len() as int, n);
    if s.len() < t.len() { assert(t[s.len() as int].num() < v.head.0); }
    if t.len() < s.len() { assert(s[t.len() as int].num() < v.head.0); }
    assert(s =~= t);
}
proof fn agree(v: VRegSet, s: Seq<VReg>, t: Seq<VReg>, k: nat)
    requires v.wf(s), v.wf(t), k <= s.len()
    ensures k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i], num_at(s, k as int, v.head.0 as int) == num_at(t, k as int, v.head.0 as int)
    decreases k
{
    if k > 0 {
        agree(v, s, t, (k - 1) as nat);
        let n = v.head.0 as int; na(s, k - 1, n); na(t, k - 1, n);
        assert(s[k - 1].num() < v.head.0);
        if k > t.len() { assert(false); }
        assert(t[k - 1].num() < v.head.0);
        assert(s[k - 1] == v.items@[s[k - 1].num() as int].vreg);
        assert(t[k - 1] == v.items@[t[k - 1].num() as int].vreg);
    }
}
impl<'a> VRegSetIter<'a> {
    /// The iterator still has to yield exactly s, in order.
    spec fn rest(self, s: Seq<VReg>) -> bool {
        let n = self.head.0 as int;
        &&& n < 0x3fff_ffff && self.items@.len() == n + 1
        &&& links(self.items@, n, s)
        &&& self.curr_item.0 == num_at(s, 0, n)
    }
}

proof fn lemma_insert(v0: VRegSet, v1: VRegSet, s: Seq<VReg>, x: VReg)
    requires v0.wf(s), !mem(s, x.num() as int), x.num() < v0.head.0, v1.head == v0.head,
        v1.items@.len() == v0.items@.len(),
        ({ let n = v0.head.0 as int; let m = x.num() as int; let f = num_at(s, 0, n);
           &&& v1.items@[m].vreg == x && v1.items@[m].next.0 == f && v1.items@[m].prev.0 == n
           &&& v1.items@[n].next.0 == m && v1.items@[n].prev.0 == (if f == n { m } else { v0.items@[n].prev.0 as int })
           &&& v1.items@[n].vreg == v0.items@[n].vreg
           &&& f != n ==> v1.items@[f].prev.0 == m && v1.items@[f].next == v0.items@[f].next && v1.items@[f].vreg == v0.items@[f].vreg
           &&& forall|k: int| 0 <= k < n && k != m && k != f ==> (#[trigger] v1.items@[k]) == v0.items@[k] })
    ensures v1.wf(seq![x] + s)
{
    let r = seq![x] + s; let n = v0.head.0 as int; let m = x.num() as int;
    na(s, 0, n); na(s, s.len() - 1, n); na(r, 0, n); na(r, r.len() - 1, n);
    if s.len() > 0 { assert(s[0].num() < n); assert(s[0].num() != m); }
    assert(r.len() == s.len() + 1 && r[0] == x);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).num() < n
        && v1.items@[r[i].num() as int].vreg == r[i] && v1.items@[r[i].num() as int].next.0 == num_at(r, i + 1, n)
        && v1.items@[r[i].num() as int].prev.0 == num_at(r, i - 1, n) by {
        na(r, i + 1, n); na(r, i - 1, n); na(s, i, n); na(s, i - 2, n);
        if i > 0 {
            let o = i - 1;
            assert(r[i] == s[o]); assert(s[o].num() != m);
            if i + 1 < r.len() { assert(r[i + 1] == s[i]); }
            if o > 0 { assert(s[0].num() != s[o].num()); assert(r[i - 1] == s[o - 1]); } else { assert(r[i - 1] == x); }
        } else { if s.len() > 0 { assert(r[1] == s[0]); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).num() != (#[trigger] r[j]).num() by {
        assert(r[j] == s[j - 1]);
        if i > 0 { assert(r[i] == s[i - 1]); }
    }
    assert forall|k: int| 0 <= k < n && !mem(r, k) implies (#[trigger] v1.items@[k]).vreg == VReg::inv() by {
        assert(r[0].num() != k);
        if mem(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).num() == k; assert(r[i + 1] == s[i]); assert(r[i + 1].num() == k); }
        if s.len() > 0 { assert(s[0].num() != k); }
        assert(v0.items@[k].vreg == VReg::inv());
    }
    if s.len() > 0 { assert(r[r.len() - 1] == s[s.len() - 1]); }
}
spec fn removed(v0: VRegSet, v1: VRegSet, s: Seq<VReg>, j: int) -> bool {
    let n = v0.head.0 as int; let m = s[j].num() as int; let p = num_at(s, j - 1, n); let q = num_at(s, j + 1, n);
    &&& v0.wf(s) && 0 <= j < s.len() && v1.head == v0.head && v1.items@.len() == v0.items@.len()
    &&& v1.items@[m].vreg == VReg::inv()
    &&& v1.items@[p].next.0 == q && (p != q ==> v1.items@[p].prev == v0.items@[p].prev) && v1.items@[p].vreg == v0.items@[p].vreg
    &&& v1.items@[q].prev.0 == p && (p != q ==> v1.items@[q].next == v0.items@[q].next) && v1.items@[q].vreg == v0.items@[q].vreg
    &&& forall|k: int| 0 <= k <= n && k != m && k != p && k != q ==> (#[trigger] v1.items@[k]) == v0.items@[k]
}
proof fn lemma_remove_at(v0: VRegSet, v1: VRegSet, s: Seq<VReg>, j: int, i: int)
    requires removed(v0, v1, s, j), 0 <= i < s.len() - 1
    ensures ({ let r = s.remove(j); let n = v0.head.0 as int;
        r[i].num() < n && v1.items@[r[i].num() as int].vreg == r[i] && v1.items@[r[i].num() as int].next.0 == num_at(r, i + 1, n)
        && v1.items@[r[i].num() as int].prev.0 == num_at(r, i - 1, n) })
{
    let r = s.remove(j); let n = v0.head.0 as int; let m = s[j].num() as int;
    let o = if i < j { i } else { i + 1 };
    na(r, i + 1, n); na(r, i - 1, n); na(s, o + 1, n); na(s, o - 1, n); na(s, j - 1, n); na(s, j + 1, n); na(s, o, n);
    assert(r[i] == s[o]); assert(s[o].num() < n); assert(s[j].num() < n);
    differ(s, o, j);
    if j > 0 { assert(s[j - 1].num() < n); if o != j - 1 { differ(s, o, j - 1); } }
    if j + 1 < s.len() { assert(s[j + 1].num() < n); if o != j + 1 { differ(s, o, j + 1); } }
    if j > 0 && j + 1 < s.len() { differ(s, j - 1, j + 1); }
    if i + 1 < r.len() { assert(r[i + 1] == (if i + 1 < j { s[i + 1] } else { s[i + 2] })); }
    if i > 0 { assert(r[i - 1] == (if i - 1 < j { s[i - 1] } else { s[i] })); }
}
proof fn lemma_remove_out(v0: VRegSet, v1: VRegSet, s: Seq<VReg>, j: int, k: int)
    requires removed(v0, v1, s, j), 0 <= k < v0.head.0, !mem(s.remove(j), k)
    ensures v1.items@[k].vreg == VReg::inv()
{
    let r = s.remove(j); let n = v0.head.0 as int; let m = s[j].num() as int;
    na(s, j - 1, n); na(s, j + 1, n);
    if k != m {
        if mem(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).num() == k; if i < j { assert(r[i] == s[i]); assert(r[i].num() == k); } else { assert(r[i - 1] == s[i]); assert(r[i - 1].num() == k); } assert(false); }
        if j > 0 { assert(s[j - 1].num() != k); } if j + 1 < s.len() { assert(s[j + 1].num() != k); }
        assert(v0.items@[k].vreg == VReg::inv());
    }
}
proof fn lemma_remove_head(v0: VRegSet, v1: VRegSet, s: Seq<VReg>, j: int)
    requires removed(v0, v1, s, j)
    ensures ({ let r = s.remove(j); let n = v0.head.0 as int; v1.items@[n].next.0 == num_at(r, 0, n) && v1.items@[n].prev.0 == num_at(r, r.len() - 1, n) })
{
    let r = s.remove(j); let n = v0.head.0 as int;
    na(s, j - 1, n); na(s, j + 1, n); na(s, 0, n); na(s, s.len() - 1, n); na(r, 0, n); na(r, r.len() - 1, n);
    assert(s[j].num() < n);
    if j > 0 { assert(s[j - 1].num() < n); } if j + 1 < s.len() { assert(s[j + 1].num() < n); }
    if r.len() > 0 { assert(r[0] == (if j == 0 { s[1] } else { s[0] })); assert(r[r.len() - 1] == (if j == s.len() - 1 { s[s.len() - 2] } else { s[s.len() - 1] })); }
}
proof fn lemma_remove(v0: VRegSet, v1: VRegSet, s: Seq<VReg>, j: int)
    requires removed(v0, v1, s, j)
    ensures v1.wf(s.remove(j))
{
    let r = s.remove(j); let n = v0.head.0 as int;
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).num() < n && v1.items@[r[i].num() as int].vreg == r[i] && v1.items@[r[i].num() as int].next.0 == num_at(r, i + 1, n)
        && v1.items@[r[i].num() as int].prev.0 == num_at(r, i - 1, n) by { lemma_remove_at(v0, v1, s, j, i); }
    assert forall|i: int, k: int| 0 <= i < k < r.len() implies (#[trigger] r[i]).num() != (#[trigger] r[k]).num() by {
        differ(s, if i < j { i } else { i + 1 }, if k < j { k } else { k + 1 });
    }
    assert forall|k: int| 0 <= k < n && !mem(r, k) implies (#[trigger] v1.items@[k]).vreg == VReg::inv() by { lemma_remove_out(v0, v1, s, j, k); }
    lemma_remove_head(v0, v1, s, j);
}
proof fn differ(s: Seq<VReg>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), a != b, forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).num() != (#[trigger] s[j]).num()
    ensures s[a].num() != s[b].num()
{ if a < b { } else { assert(s[b].num() != s[a].num()); } }
//@ fn src/fastalloc/vregset.rs VRegSet::insert
//@ spec
    requires exists|s: Seq<VReg>| #[trigger] old(self).wf(s) && !mem(s, vreg.num() as int), vreg.num() < old(self).head.0
    ensures final(self).head == old(self).head,
        forall|s: Seq<VReg>| #[trigger] old(self).wf(s) ==> final(self).wf(seq![vreg] + s)
//@ entry
    let ghost s0 = choose|s: Seq<VReg>| #[trigger] self.wf(s) && !mem(s, vreg.num() as int);
    let ghost v0 = *self;
    proof { na(s0, 0, self.head.0 as int); if s0.len() > 0 { assert(s0[0].num() < self.head.0); assert(s0[0].num() != vreg.num()); } }
//@ exit
    proof {
        lemma_insert(v0, *self, s0, vreg);
        assert forall|s: Seq<VReg>| #[trigger] v0.wf(s) implies self.wf(seq![vreg] + s) by { contents_unique(v0, s, s0); }
    }
//@ end
//@ fn src/fastalloc/vregset.rs VRegSet::with_capacity
//@ spec
    requires num_vregs < 0x3fff_ffff
    ensures res.head.0 == num_vregs, res.wf(Seq::<VReg>::empty())
//@ entry
    proof { na(Seq::<VReg>::empty(), 0, num_vregs as int); na(Seq::<VReg>::empty(), -1, num_vregs as int); }
//@ entry
    proof { }
//@ end
//@ fn src/fastalloc/vregset.rs VRegSet::remove
//@ spec
    requires exists|s: Seq<VReg>| #[trigger] old(self).wf(s) && mem(s, vreg_num as int)
    ensures final(self).head == old(self).head,
        forall|s: Seq<VReg>, i: int| #[trigger] old(self).wf(s) && 0 <= i < s.len() && (#[trigger] s[i]).num() == vreg_num ==> final(self).wf(s.remove(i))
//@ entry
    let ghost s0 = choose|s: Seq<VReg>| #[trigger] self.wf(s) && mem(s, vreg_num as int);
    let ghost j = choose|i: int| 0 <= i < s0.len() && (#[trigger] s0[i]).num() == vreg_num;
    let ghost v0 = *self;
    proof {
        
        na(s0, j - 1, v0.head.0 as int); na(s0, j + 1, v0.head.0 as int);
        if j > 0 { assert(s0[j - 1].num() < v0.head.0); differ(s0, j - 1, j); }
        if j + 1 < s0.len() { assert(s0[j + 1].num() < v0.head.0); differ(s0, j + 1, j); }
        if j > 0 && j + 1 < s0.len() { differ(s0, j - 1, j + 1); }
    }
//@ exit
    proof {
        lemma_remove(v0, *self, s0, j);
        assert forall|s: Seq<VReg>, i: int| #[trigger] v0.wf(s) && 0 <= i < s.len() && (#[trigger] s[i]).num() == vreg_num implies self.wf(s.remove(i)) by {
            contents_unique(v0, s, s0); if i < j { assert(s0[i].num() != s0[j].num()); } else if j < i { assert(s0[j].num() != s0[i].num()); }
        }
    }
//@ end
//@ fn src/fastalloc/vregset.rs VRegSet::is_empty
//@ spec
    requires exists|s: Seq<VReg>| #[trigger] self.wf(s)
    ensures forall|s: Seq<VReg>| #[trigger] self.wf(s) ==> res == (s.len() == 0)
//@ entry
    proof { 
        assert forall|s: Seq<VReg>| #[trigger] self.wf(s) && true implies num_at(s, 0, self.head.0 as int) == (if s.len() > 0 { s[0].num() as int } else { self.head.0 as int }) && (s.len() > 0 ==> s[0].num() < self.head.0) by { na(s, 0, self.head.0 as int); } }
//@ end
//@ fn src/fastalloc/vregset.rs VRegSet::iter
//@ spec
    requires exists|s: Seq<VReg>| #[trigger] self.wf(s)
    ensures forall|s: Seq<VReg>| #[trigger] self.wf(s) ==> res.rest(s)
//@ entry
    proof { }
//@ end
//@ fn src/fastalloc/vregset.rs VRegSetIter::next
//@ spec
    requires exists|s: Seq<VReg>| #[trigger] old(self).rest(s)
    ensures forall|s: Seq<VReg>| #[trigger] old(self).rest(s) ==> (if s.len() == 0 { res is None && final(self).rest(s) } else { res == Some(s[0]) && final(self).rest(s.drop_first()) })
//@ entry
    let ghost v0 = *self;
    proof { 
        assert forall|s: Seq<VReg>| #[trigger] self.rest(s) && s.len() == 0 implies self.curr_item == self.head by { na(s, 0, self.head.0 as int); }
        assert forall|s: Seq<VReg>| #[trigger] self.rest(s) && s.len() > 0 implies s[0].num() < self.head.0 && self.curr_item.0 == s[0].num() && self.items@[s[0].num() as int].next.0 == num_at(s.drop_first(), 0, self.head.0 as int) && links(self.items@, self.head.0 as int, s.drop_first()) by {
            let d = s.drop_first(); na(s, 0, self.head.0 as int); na(s, 1, self.head.0 as int); na(d, 0, self.head.0 as int);
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) == s[i + 1] && num_at(d, i + 1, self.head.0 as int) == num_at(s, i + 2, self.head.0 as int) by { na(d, i + 1, self.head.0 as int); na(s, i + 2, self.head.0 as int); }
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == s[i + 1] by { }
        }
    }
//@ end
}
fn main() {}
