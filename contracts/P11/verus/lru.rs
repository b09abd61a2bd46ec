use vstd::prelude::*;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/preg.rs
//@ include ../../common/verus/pregset_abs.rs
/// Collecting the iteration (each member once, P02).
#[verifier::external_body]
fn vx_collect(s: &PRegSet) -> (res: Vec<PReg>)
    ensures forall|i: int| 0 <= i < res@.len() ==> s.mem(#[trigger] res@[i]),
        forall|r: PReg| #[trigger] s.mem(r) ==> exists|i: int| 0 <= i < res@.len() && #[trigger] res@[i] == r,
        forall|i: int, j: int| 0 <= i < j < res@.len() ==> #[trigger] res@[i] != #[trigger] res@[j]
{ Vec::new() }
//@ include ../../common/verus/hashset.rs
//@ type FxHashSet::default VxSet::default
//@ item src/fastalloc/lru.rs struct LruNode derive(Clone, Copy)
//@ item src/fastalloc/lru.rs struct Lru

#[verifier::opaque]
spec fn nx(s: Seq<u8>, i: int) -> u8 { if i + 1 < s.len() { s[i + 1] } else { s[0] } }
#[verifier::opaque]
spec fn pv(s: Seq<u8>, i: int) -> u8 { if i > 0 { s[i - 1] } else { s[s.len() - 1] } }
spec fn up(s: Seq<u8>, i: int) -> int { if i + 1 < s.len() { i + 1 } else { 0 } }
spec fn dn(s: Seq<u8>, i: int) -> int { if i > 0 { i - 1 } else { s.len() - 1 } }
proof fn np(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures nx(s, i) == s[up(s, i)], pv(s, i) == s[dn(s, i)]
{ reveal(nx); reveal(pv); }
proof fn differ(s: Seq<u8>, a: int, b: int)
    requires distinct(s), 0 <= a < s.len(), 0 <= b < s.len()
    ensures s[a] == s[b] <==> a == b
{ if a < b { assert(s[a] != s[b]); } else if b < a { assert(s[b] != s[a]); } }
spec fn distinct(s: Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
impl Lru {
    /// The list holds exactly the registers of s, most recently used first.
    spec fn wf(self, s: Seq<u8>) -> bool {
        &&& self.data@.len() == 64
        &&& self.head == (if s.len() > 0 { s[0] } else { 255u8 })
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < 64
        &&& distinct(s)
        &&& forall|i: int| 0 <= i < s.len() ==> self.data@[(#[trigger] s[i]) as int].next == nx(s, i) && self.data@[s[i] as int].prev == pv(s, i)
        &&& forall|k: int| 0 <= k < 64 && !s.contains(k as u8) ==> (#[trigger] self.data@[k]).next == 255 && self.data@[k].prev == 255
    }
    spec fn ok(self) -> bool { exists|s: Seq<u8>| #[trigger] self.wf(s) }
    /// The registers in the list, most recently used first.
    spec fn order(self) -> Seq<u8> { choose|s: Seq<u8>| #[trigger] self.wf(s) }
}
/// s after x was marked as the most recently used.
spec fn touched(s: Seq<u8>, x: u8) -> Seq<u8> { seq![x] + s.remove(s.index_of(x)) }
proof fn agree(v: Lru, s: Seq<u8>, t: Seq<u8>, k: nat)
    requires v.wf(s), v.wf(t), k <= s.len(), k <= t.len()
    ensures forall|i: int| 0 <= i < k ==> s[i] == t[i]
    decreases k
{ if k > 1 { agree(v, s, t, (k - 1) as nat); np(s, k - 2); np(t, k - 2); assert(s[k - 2] == t[k - 2]); } }
proof fn unique(v: Lru, s: Seq<u8>)
    requires v.wf(s)
    ensures v.ok(), v.order() == s
{
    let t = v.order();
    if s.len() > 0 { assert(s[0] < 64); } if t.len() > 0 { assert(t[0] < 64); }
    let m = if s.len() < t.len() { s.len() } else { t.len() };
    agree(v, s, t, m);
    if s.len() < t.len() && m > 0 { np(s, m - 1); np(t, m - 1); assert(s[m - 1] == t[m - 1]); differ(t, 0, m as int); }
    if t.len() < s.len() && m > 0 { np(s, m - 1); np(t, m - 1); assert(s[m - 1] == t[m - 1]); differ(s, 0, m as int); }
    assert(s =~= t);
}
proof fn facts(v: Lru, i: int)
    requires v.ok(), 0 <= i < v.order().len()
    ensures ({ let s = v.order(); let u = up(s, i); let d = dn(s, i);
        v.wf(s) && s[i] < 64 && s[u] < 64 && s[d] < 64 && v.head == s[0] && v.data@.len() == 64 && s.contains(s[i]) && s.contains(s[u]) && s.contains(s[d])
        && v.data@[s[i] as int].next == s[u] && v.data@[s[i] as int].prev == s[d] && nx(s, i) == s[u] && pv(s, i) == s[d]
        && (s.len() > 1 ==> s[u] != s[i] && s[d] != s[i]) && (s[u] == s[d] <==> s.len() <= 2) })
{
    let s = v.order(); np(s, i); differ(s, i, up(s, i)); differ(s, i, dn(s, i)); differ(s, up(s, i), dn(s, i));
}
proof fn index(s: Seq<u8>, i: int)
    requires distinct(s), 0 <= i < s.len()
    ensures s.index_of(s[i]) == i, s.contains(s[i])
{ let j = s.index_of(s[i]); assert(s[i] == s[i]); differ(s, i, j); }

spec fn spliced(v0: Lru, v1: Lru, s: Seq<u8>, i: int) -> bool {
    let x = s[i] as int; let p = pv(s, i) as int; let n = nx(s, i) as int;
    &&& v0.wf(s) && 0 <= i < s.len() && v1.data@.len() == 64
    &&& v1.data@[x].prev == 255 && v1.data@[x].next == 255
    &&& p != x ==> v1.data@[p].next == n && v1.data@[n].prev == p && (p != n ==> v1.data@[p].prev == v0.data@[p].prev && v1.data@[n].next == v0.data@[n].next)
    &&& forall|k: int| 0 <= k < 64 && k != x && k != p && k != n ==> v1.data@[k] == v0.data@[k]
    &&& v1.head == (if v0.head == x { if n == x { 255u8 } else { n as u8 } } else { v0.head })
}
proof fn lemma_remove_at(v0: Lru, v1: Lru, s: Seq<u8>, i: int, a: int)
    requires spliced(v0, v1, s, i), 0 <= a < s.len() - 1
    ensures ({ let r = s.remove(i); r[a] < 64 && v1.data@[r[a] as int].next == nx(r, a) && v1.data@[r[a] as int].prev == pv(r, a) })
{
    let r = s.remove(i); let o = if a < i { a } else { a + 1 }; let ip = dn(s, i); let inn = up(s, i);
    np(s, i); np(s, o); np(r, a);
    differ(s, o, ip); differ(s, o, inn); differ(s, o, i); differ(s, ip, i); differ(s, inn, i); differ(s, ip, inn);
    assert(r[a] == s[o] && s[o] < 64 && s[ip] < 64 && s[inn] < 64 && s[i] < 64);
    let x = up(r, a); let y = dn(r, a);
    assert(r[x] == s[if x < i { x } else { x + 1 }]); assert(r[y] == s[if y < i { y } else { y + 1 }]);
    np(s, up(s, o)); np(s, dn(s, o));
}
proof fn lemma_remove_out(v0: Lru, v1: Lru, s: Seq<u8>, i: int, k: int)
    requires spliced(v0, v1, s, i), 0 <= k < 64, !s.remove(i).contains(k as u8)
    ensures v1.data@[k].next == 255, v1.data@[k].prev == 255
{
    let r = s.remove(i); let ip = dn(s, i); let inn = up(s, i); np(s, i); differ(s, ip, i); differ(s, inn, i);
    if k != s[i] {
        if s.contains(k as u8) { let o = s.index_of(k as u8); if o < i { assert(r[o] == k as u8); } else { assert(r[o - 1] == k as u8); } }
        assert(s.contains(s[ip]) && s.contains(s[inn]));
    }
}
proof fn distinct_remove(s: Seq<u8>, i: int)
    requires distinct(s), 0 <= i < s.len()
    ensures distinct(s.remove(i)), !s.remove(i).contains(s[i])
{
    let r = s.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies r[a] != r[b] by { differ(s, if a < i { a } else { a + 1 }, if b < i { b } else { b + 1 }); }
    if r.contains(s[i]) { let b = r.index_of(s[i]); differ(s, if b < i { b } else { b + 1 }, i); }
}
proof fn lemma_remove(v0: Lru, v1: Lru, s: Seq<u8>, i: int)
    requires spliced(v0, v1, s, i)
    ensures v1.wf(s.remove(i))
{
    let r = s.remove(i); np(s, i); distinct_remove(s, i); differ(s, 0, i);
    assert forall|a: int| 0 <= a < r.len() implies (#[trigger] r[a]) < 64 && v1.data@[r[a] as int].next == nx(r, a) && v1.data@[r[a] as int].prev == pv(r, a) by { lemma_remove_at(v0, v1, s, i, a); }
    assert forall|k: int| 0 <= k < 64 && !r.contains(k as u8) implies (#[trigger] v1.data@[k]).next == 255 && v1.data@[k].prev == 255 by { lemma_remove_out(v0, v1, s, i, k); }
    differ(s, up(s, i), i);
    if r.len() > 0 { assert(r[0] == (if i == 0 { s[1] } else { s[0] })); }
}
spec fn inserted(v0: Lru, v1: Lru, s: Seq<u8>, x: u8, i: int) -> bool {
    let p = pv(s, i) as int; let j = s[i] as int;
    &&& v0.wf(s) && 0 <= i < s.len() && x < 64 && !s.contains(x) && v1.data@.len() == 64 && v1.head == v0.head
    &&& v1.data@[x as int].next == j && v1.data@[x as int].prev == p
    &&& v1.data@[p].next == x && v1.data@[j].prev == x
    &&& p != j ==> v1.data@[p].prev == v0.data@[p].prev && v1.data@[j].next == v0.data@[j].next
    &&& forall|k: int| 0 <= k < 64 && k != x && k != p && k != j ==> v1.data@[k] == v0.data@[k]
}
/// Before the first one means at the end of the circle.
spec fn put(s: Seq<u8>, i: int, x: u8) -> Seq<u8> { if i == 0 { s.push(x) } else { s.insert(i, x) } }
spec fn spot(s: Seq<u8>, i: int) -> int { if i == 0 { s.len() as int } else { i } }
proof fn lemma_insert_at(v0: Lru, v1: Lru, s: Seq<u8>, x: u8, i: int, a: int)
    requires inserted(v0, v1, s, x, i), 0 <= a <= s.len()
    ensures ({ let r = put(s, i, x); r.len() == s.len() + 1 && r[a] < 64 && v1.data@[r[a] as int].next == nx(r, a) && v1.data@[r[a] as int].prev == pv(r, a) })
{
    let r = put(s, i, x); let at = spot(s, i); let ip = dn(s, i);
    assert(r.len() == s.len() + 1 && r[at] == x);
    np(s, i); np(r, a); differ(s, i, ip);
    let u = up(r, a); let d = dn(r, a);
    assert(u != at ==> r[u] == s[if u < at { u } else { u - 1 }]);
    assert(d != at ==> r[d] == s[if d < at { d } else { d - 1 }]);
    if a != at {
        let o = if a < at { a } else { a - 1 };
        np(s, o); differ(s, o, i); differ(s, o, ip);
        assert(r[a] == s[o] && s[o] < 64 && s.contains(s[o]));
    }
}
proof fn put_distinct(s: Seq<u8>, x: u8, i: int)
    requires distinct(s), !s.contains(x), 0 <= i < s.len()
    ensures distinct(put(s, i, x))
{
    let r = put(s, i, x); let at = spot(s, i);
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies r[a] != r[b] by {
        let oa = if a < at { a } else { a - 1 }; let ob = if b < at { b } else { b - 1 };
        if a == at { assert(r[b] == s[ob]); assert(s.contains(s[ob])); }
        else if b == at { assert(r[a] == s[oa]); assert(s.contains(s[oa])); }
        else { assert(r[a] == s[oa] && r[b] == s[ob]); differ(s, oa, ob); }
    }
}
proof fn lemma_insert_out(v0: Lru, v1: Lru, s: Seq<u8>, x: u8, i: int, k: int)
    requires inserted(v0, v1, s, x, i), 0 <= k < 64, !put(s, i, x).contains(k as u8)
    ensures v1.data@[k].next == 255, v1.data@[k].prev == 255
{
    let r = put(s, i, x); let at = spot(s, i); let ip = dn(s, i); np(s, i);
    assert(r[at] == x); assert(r.contains(r[at]));
    if s.contains(k as u8) { let o = s.index_of(k as u8); if o < at { assert(r[o] == k as u8); } else { assert(r[o + 1] == k as u8); } }
    assert(s.contains(s[ip]) && s.contains(s[i]));
}
proof fn lemma_insert(v0: Lru, v1: Lru, s: Seq<u8>, x: u8, i: int)
    requires inserted(v0, v1, s, x, i)
    ensures v1.wf(put(s, i, x))
{
    let r = put(s, i, x);
    put_distinct(s, x, i);
    assert forall|a: int| 0 <= a < r.len() implies (#[trigger] r[a]) < 64 && v1.data@[r[a] as int].next == nx(r, a) && v1.data@[r[a] as int].prev == pv(r, a) by { lemma_insert_at(v0, v1, s, x, i, a); }
    assert forall|k: int| 0 <= k < 64 && !r.contains(k as u8) implies (#[trigger] v1.data@[k]).next == 255 && v1.data@[k].prev == 255 by { lemma_insert_out(v0, v1, s, x, i, k); }
    assert(r.len() == s.len() + 1 && r[0] == s[0]);
}
/// Only the head differs: the same circle, started at its last member.
proof fn lemma_rotate_at(s: Seq<u8>, a: int)
    requires 0 <= a < s.len(), distinct(s)
    ensures ({ let r = seq![s[s.len() - 1]] + s.drop_last(); let o = if a == 0 { s.len() - 1 } else { a - 1 }; r.len() == s.len() && r[a] == s[o] && nx(r, a) == nx(s, o) && pv(r, a) == pv(s, o) })
{
    let n = s.len(); let r = seq![s[n - 1]] + s.drop_last(); let o = if a == 0 { s.len() - 1 } else { a - 1 };
    np(r, a); np(s, o);
    let u = up(r, a); let d = dn(r, a);
    assert(r[a] == s[o]); assert(r[u] == s[if u == 0 { n - 1 } else { u - 1 }]); assert(r[d] == s[if d == 0 { n - 1 } else { d - 1 }]);
}
proof fn lemma_rotate(v0: Lru, v1: Lru, s: Seq<u8>)
    requires v0.wf(s), s.len() > 0, v1.data@ == v0.data@, v1.head == s[s.len() - 1]
    ensures v1.wf(seq![s[s.len() - 1]] + s.drop_last())
{
    let n = s.len(); let r = seq![s[n - 1]] + s.drop_last();
    assert(r.len() == n);
    assert forall|a: int| 0 <= a < r.len() implies (#[trigger] r[a]) < 64 && v1.data@[r[a] as int].next == nx(r, a) && v1.data@[r[a] as int].prev == pv(r, a) by {
        lemma_rotate_at(s, a); let o = if a == 0 { n - 1 } else { a - 1 }; assert(s[o] < 64);
    }
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies r[a] != r[b] by { differ(s, if a == 0 { n - 1 } else { a - 1 }, b - 1); lemma_rotate_at(s, a); lemma_rotate_at(s, b); }
    assert forall|k: int| 0 <= k < 64 && !r.contains(k as u8) implies (#[trigger] v1.data@[k]).next == 255 && v1.data@[k].prev == 255 by {
        if s.contains(k as u8) { let o = s.index_of(k as u8); if o == n - 1 { assert(r[0] == s[o]); } else { assert(r[o + 1] == s[o]); } }
    }
}
//@ fn src/fastalloc/lru.rs Lru::validate_lru
//@ spec
    requires self.ok()
//@ entry
    let ghost s = self.order();
    proof { if s.len() > 0 { facts(*self, 0); } }
    let ghost mut j: int = if s.len() > 1 { 1 } else { 0 };
//@ loop 0
    invariant self.ok(), s == self.order(), s.len() > 0, 0 <= j < s.len(), node == s[j], self.head == s[0], j == 0 || forall|y: u8| seen@.contains(y) ==> exists|i: int| 1 <= i < j && s[i] == y
    decreases if j == 0 { 0 } else { s.len() - j }
//@ loop 0 begin
    proof { facts(*self, j); assert(j > 0);
        assert(!seen@.contains(node)); }
//@ loop 0 end
    proof { j = if j + 1 < s.len() { j + 1 } else { 0 }; }
//@ loop 1
    invariant self.ok(), s == self.order(), __n1 == self.data@.len(), __i1 <= __n1
    decreases __n1 - __i1
//@ loop 1 begin
    proof { if s.contains(__i1 as u8) { let a = s.index_of(__i1 as u8); facts(*self, a); facts(*self, up(s, a)); facts(*self, dn(s, a)); } }
//@ end
//@ fn src/fastalloc/lru.rs Lru::is_empty
//@ spec
    requires self.ok()
    ensures res == (self.order().len() == 0)
//@ entry
    proof { if self.order().len() > 0 { facts(*self, 0); } }
//@ end
//@ fn src/fastalloc/lru.rs Lru::remove
//@ spec
    requires old(self).ok(), old(self).order().contains(hw_enc as u8), hw_enc < 64
    ensures final(self).ok(), final(self).order() == old(self).order().remove(old(self).order().index_of(hw_enc as u8)), final(self).regclass == old(self).regclass
//@ entry
    let ghost v0 = *self; let ghost s = self.order(); let ghost i = s.index_of(hw_enc as u8);
    proof { facts(*self, i); }
//@ before if vx_cfg()
    proof { assert(spliced(v0, *self, s, i)); lemma_remove(v0, *self, s, i); unique(*self, s.remove(i)); }
//@ end
//@ fn src/fastalloc/lru.rs Lru::insert_before
//@ spec
    requires old(self).ok(), old(self).order().contains(j), i < 64, !old(self).order().contains(i)
    ensures final(self).ok(), final(self).order() == put(old(self).order(), old(self).order().index_of(j), i), final(self).regclass == old(self).regclass, final(self).head == old(self).head
//@ entry
    let ghost v0 = *self; let ghost s = self.order(); let ghost a = s.index_of(j);
    proof { facts(*self, a); }
//@ before if vx_cfg()
    proof { assert(inserted(v0, *self, s, i, a)); lemma_insert(v0, *self, s, i, a); unique(*self, put(s, a, i)); }
//@ end
//@ fn src/fastalloc/lru.rs Lru::new
//@ spec
    requires forall|r: PReg| #[trigger] regs.mem(r) ==> r == PReg::of(r.hw() as int, regclass)
    ensures res.ok(), res.regclass == regclass, forall|r: PReg| r == PReg::of(r.hw() as int, regclass) ==> (res.order().contains(#[trigger] r.hw()) <==> regs.mem(r))
//@ entry
    let ghost set = *regs;
//@ before let mut data
    let ghost hs = Seq::new(regs@.len(), |i: int| regs@[i].hw());
    proof {
        assert forall|i: int| 0 <= i < hs.len() implies #[trigger] hs[i] < 64 by { let b = regs@[i].bits; assert((b & 63u8) < 64) by(bit_vector); }
        assert forall|i: int, j: int| 0 <= i < j < hs.len() implies hs[i] != hs[j] by { assert(set.mem(regs@[i]) && set.mem(regs@[j])); assert(regs@[i] != regs@[j]); }
    }
//@ loop 0
    invariant no_of_regs == regs@.len(), __n0 == no_of_regs, __i0 <= __n0, data@.len() == 64, hs.len() == regs@.len(), distinct(hs),
        forall|i: int| 0 <= i < hs.len() ==> (#[trigger] hs[i]) < 64 && regs@[i].hw() == hs[i],
        forall|i: int| 0 <= i < __i0 ==> data@[(#[trigger] hs[i]) as int].next == nx(hs, i) && data@[hs[i] as int].prev == pv(hs, i),
        forall|k: int| 0 <= k < 64 && !hs.contains(k as u8) ==> (#[trigger] data@[k]).next == 255 && data@[k].prev == 255
    decreases __n0 - __i0
//@ loop 0 bound
    proof { np(hs, i as int); assert(hs.contains(hs[i as int])); assert(hs[up(hs, i as int)] < 64 && hs[dn(hs, i as int)] < 64);
        assert forall|j: int| 0 <= j < i implies hs[j] != hs[i as int] by { differ(hs, j, i as int); } }
//@ exit
    proof { assert(__res.wf(hs)); unique(__res, hs);
        assert forall|r: PReg| r == PReg::of(r.hw() as int, regclass) implies (hs.contains(#[trigger] r.hw()) <==> set.mem(r)) by {
            if hs.contains(r.hw()) { let i = hs.index_of(r.hw()); assert(set.mem(regs@[i])); }
            if set.mem(r) { let i = choose|i: int| 0 <= i < regs@.len() && #[trigger] regs@[i] == r; assert(hs[i] == r.hw()); }
        }
    }
//@ end
//@ fn src/fastalloc/lru.rs Lru::poke
//@ spec
    requires old(self).ok(), old(self).order().contains(preg.hw())
    ensures final(self).ok(), final(self).order() == touched(old(self).order(), preg.hw()), final(self).regclass == old(self).regclass
//@ entry
    let ghost v0 = *self; let ghost s = self.order(); let ghost x = preg.hw(); let ghost i = s.index_of(x); let ghost r = s.remove(i);
    proof {
        facts(*self, i); facts(*self, 0); index(s, 0); index(s, s.len() - 1); differ(s, 0, i); distinct_remove(s, i);
        if i == 0 { assert(touched(s, x) =~= s); } else { assert(s[0] == r[0]); index(r, 0); }
    }
//@ before self.head = hw_enc
    let ghost v1 = *self;
    proof {
        if s[s.len() - 1] == x { assert(i == s.len() - 1); assert(r =~= s.drop_last()); assert(v1.order() == s); }
        else { assert(v1.order() == r.push(x)); assert(r.push(x).drop_last() =~= r); }
        assert(v1.wf(v1.order()));
    }
//@ after self.head = hw_enc
    proof { lemma_rotate(v1, *self, v1.order()); unique(*self, touched(s, x)); }
//@ end
//@ fn src/fastalloc/lru.rs Lru::pop
//@ spec
    requires old(self).ok(), old(self).order().len() > 0
    ensures *final(self) == *old(self), res == PReg::of(old(self).order().last() as int, old(self).regclass)
//@ entry
    proof { facts(*self, 0); }
//@ end
//@ fn src/fastalloc/lru.rs Lru::last_satisfying
//@ spec
    requires self.ok(), self.order().len() > 0, forall|p: PReg| f.requires((p,)),
    ensures match res {
        Some(p) => exists|i: int| 0 <= i < self.order().len() && p == PReg::of(#[trigger] self.order()[i] as int, self.regclass) && f.ensures((p,), true)
            && forall|k: int| i < k < self.order().len() ==> f.ensures((PReg::of(#[trigger] self.order()[k] as int, self.regclass),), false),
        None => forall|k: int| 0 <= k < self.order().len() ==> f.ensures((PReg::of(#[trigger] self.order()[k] as int, self.regclass),), false),
    }
//@ entry
    let ghost s = self.order();
    proof { facts(*self, 0); }
    let ghost mut j: int = s.len() - 1;
//@ loop 0
    invariant self.ok(), s == self.order(), 0 <= j < s.len(), last == s[j], init_last == s[s.len() - 1], forall|p: PReg| f.requires((p,)),
        forall|k: int| j < k < s.len() ==> f.ensures((PReg::of(#[trigger] self.order()[k] as int, self.regclass),), false)
    decreases j
//@ loop 0 begin
    proof { facts(*self, j); }
//@ after last = self.data[last as usize].prev
    proof { assert(self.order()[j] == s[j]); differ(s, dn(s, j), s.len() - 1); if j > 0 { j = j - 1; } }
//@ end
//@ fn src/fastalloc/lru.rs Lru::last
//@ spec
    requires self.ok(), self.order().len() > 0
    ensures match res {
        Some(p) => exists|i: int| 0 <= i < self.order().len() && p == PReg::of(#[trigger] self.order()[i] as int, self.regclass) && from.mem(p)
            && forall|k: int| i < k < self.order().len() ==> !from.mem(PReg::of(#[trigger] self.order()[k] as int, self.regclass)),
        None => forall|k: int| 0 <= k < self.order().len() ==> !from.mem(PReg::of(#[trigger] self.order()[k] as int, self.regclass)),
    }
//@ lambda 0
    |$1: PReg| -> (b: bool) ensures b == from.mem($1)
//@ end
}
fn main() {}
