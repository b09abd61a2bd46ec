//@ type T::default vx_default
//@ item src/moves.rs type MoveVec
//@ item src/moves.rs enum MoveVecWithScratch derive()
#[verifier::external_body]
fn vx_default<T: Default>() -> T { T::default() }
type Mv<T> = (Allocation, Allocation, T);
type Mem = spec_fn(Allocation) -> int;
spec fn put(m: Mem, d: Allocation, v: int) -> Mem { |a: Allocation| if a == d { v } else { m(a) } }
/// Execute a sequence of moves in order.
spec fn exec<T>(s: Seq<Mv<T>>, m: Mem) -> Mem decreases s.len() {
    if s.len() == 0 { m } else { exec(s.drop_first(), put(m, s[0].1, m(s[0].0))) }
}
spec fn real(a: Allocation) -> bool { a.k() == 1 || a.k() == 2 }
spec fn all_real<T>(v: Seq<Mv<T>>) -> bool { forall|i: int| 0 <= i < v.len() ==> real((#[trigger] v[i]).0) && real(v[i].1) }
/// The placeholder is written before it is read, never moved to itself.
spec fn placeholder_ok<T>(s: Seq<Mv<T>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.valid() && s[i].1.valid() && !(s[i].0 == Allocation::nil() && s[i].1 == Allocation::nil())
        && (s[i].0 == Allocation::nil() ==> exists|j: int| 0 <= j < i && (#[trigger] s[j]).1 == Allocation::nil())
}
proof fn real_valid(a: Allocation)
    requires real(a)
    ensures a.valid(), a != Allocation::nil()
{ alloc_nil(); }

/// Substituting the scratch location for the placeholder does what the placeholder form does.
spec fn filled(a: Allocation, x: Allocation) -> Allocation { if a == Allocation::nil() { x } else { a } }
proof fn fill<T>(s: Seq<Mv<T>>, t: Seq<Mv<T>>, x: Allocation, m: Mem, w: Mem)
    requires s.len() == t.len(), x != Allocation::nil(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != x && s[i].1 != x && t[i].0 == filled(s[i].0, x) && t[i].1 == filled(s[i].1, x),
        forall|a: Allocation| a != x && a != Allocation::nil() ==> #[trigger] w(a) == m(a), w(x) == m(Allocation::nil())
    ensures forall|a: Allocation| a != x && a != Allocation::nil() ==> #[trigger] exec(t, w)(a) == exec(s, m)(a)
    decreases s.len()
{
    if s.len() > 0 {
        let m1 = put(m, s[0].1, m(s[0].0)); let w1 = put(w, t[0].1, w(t[0].0));
        assert(s[0].0 != x && s[0].1 != x);
        assert(t[0].0 == filled(s[0].0, x) && t[0].1 == filled(s[0].1, x));
        let s1 = s.drop_first(); let t1 = t.drop_first();
        assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).0 != x && s1[i].1 != x && t1[i].0 == filled(s1[i].0, x) && t1[i].1 == filled(s1[i].1, x) by { assert(s1[i] == s[i + 1]); assert(t1[i] == t[i + 1]); }
        let v = m(s[0].0);
        assert(w(t[0].0) == v) by { if s[0].0 != Allocation::nil() { assert(w(s[0].0) == m(s[0].0)); } }
        assert forall|a: Allocation| a != x && a != Allocation::nil() implies #[trigger] w1(a) == m1(a) by { assert(w(a) == m(a)); }
        fill(s1, t1, x, m1, w1);
        assert(exec(s, m) == exec(s1, m1)); assert(exec(t, w) == exec(t1, w1));
    }
}

//@ fn src/moves.rs MoveVecWithScratch::needs_scratch
//@ spec
    ensures res == (self is Scratch)
//@ end
//@ fn src/moves.rs MoveVecWithScratch::without_scratch
//@ spec
    ensures match self { MoveVecWithScratch::NoScratch(m) => res == Some(m), MoveVecWithScratch::Scratch(_) => res is None }
//@ end
//@ fn src/moves.rs MoveVecWithScratch::with_scratch
//@ spec
    requires scratch != Allocation::nil(), match self { MoveVecWithScratch::NoScratch(m) => true, MoveVecWithScratch::Scratch(m) => placeholder_ok(m@) && forall|i: int| 0 <= i < m@.len() ==> (#[trigger] m@[i]).0 != scratch && m@[i].1 != scratch }
    ensures match self {
        MoveVecWithScratch::NoScratch(m) => res == m,
        MoveVecWithScratch::Scratch(m) => res@.len() == m@.len() && forall|i: int| 0 <= i < m@.len() ==> (#[trigger] res@[i]).0 == filled(m@[i].0, scratch) && res@[i].1 == filled(m@[i].1, scratch) && res@[i].2 == m@[i].2,
    }
//@ loop 0 before
    let ghost o = __s0@;
//@ loop 0
    invariant scratch != Allocation::nil(), placeholder_ok(o), __s0@.len() == o.len(), __i0 <= o.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 != scratch && o[i].1 != scratch,
        forall|i: int| __i0 <= i < o.len() ==> #[trigger] __s0@[i] == o[i],
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] __s0@[i]).0 == filled(o[i].0, scratch) && __s0@[i].1 == filled(o[i].1, scratch) && __s0@[i].2 == o[i].2
    decreases o.len() - __i0
//@ loop 0 begin
    proof { alloc_nil(); assert(__s0@[__i0 as int] == o[__i0 as int]); assert(o[__i0 as int].0.valid()); }
//@ end
