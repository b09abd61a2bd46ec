use vstd::prelude::*;
use core::fmt::Debug;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/stdlib.rs
//@ include ../../common/verus/preg.rs
//@ include ../../common/verus/alloc.rs
//@ include ../../common/verus/moves.rs
//@ item src/moves.rs struct MoveAndScratchResolver
// ---- the caller's side: which locations are free here, and what its closures hand out
/// Locations whose contents nobody needs at this point.
uninterp spec fn free(a: Allocation) -> bool;
/// Locations that count as memory, as the caller classifies them.
uninterp spec fn stk(a: Allocation) -> bool;
/// What the closure has handed out so far.
uninterp spec fn given<F>(f: F) -> Set<Allocation>;
#[verifier::external_body]
fn vx_find_free_reg<F>(f: &mut F) -> (res: Option<Allocation>)
    ensures match res {
        Some(a) => real(a) && !stk(a) && free(a) && !given(*old(f)).contains(a) && given(*final(f)) == given(*old(f)).insert(a),
        None => given(*final(f)) == given(*old(f)),
    }
{ None }
#[verifier::external_body]
fn vx_get_stackslot<F>(f: &mut F) -> (a: Allocation)
    ensures real(a), stk(a), free(a), !given(*old(f)).contains(a), given(*final(f)) == given(*old(f)).insert(a)
{ Allocation { bits: 0 } }
//@ fn src/lib.rs PReg::index
//@ spec
    ensures res == self.bits
//@ end
spec fn reg(p: PReg) -> Allocation { Allocation { bits: (1u32 << 29u32) | (p.bits as u32) } }
//@ fn src/lib.rs Allocation::reg
//@ spec
    ensures res == reg(preg), real(res), res != Allocation::nil()
//@ entry
    proof {
        let b = preg.bits; alloc_nil();
        assert(b as usize <= 255 && 255usize < (1usize << 28usize)) by(bit_vector);
        assert((((1u32 << 29u32) | b as u32) >> 29u32) & 7u32 == 1u32) by(bit_vector);
    }
//@ end
/// An input free of the placeholder, or one that uses it well.
spec fn well<T>(v: MoveVecWithScratch<T>) -> bool {
    match v { MoveVecWithScratch::NoScratch(s) => all_real(s@), MoveVecWithScratch::Scratch(s) => placeholder_ok(s@) }
}
spec fn seq_of<T>(v: MoveVecWithScratch<T>) -> Seq<Mv<T>> { match v { MoveVecWithScratch::NoScratch(s) => s@, MoveVecWithScratch::Scratch(s) => s@ } }
spec fn spares<T>(s: Seq<Mv<T>>, x: Allocation) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != x && s[i].1 != x }
/// out does to every location in use what s does.
spec fn same<T>(s: Seq<Mv<T>>, out: Seq<Mv<T>>) -> bool {
    forall|m: Mem, a: Allocation| !free(a) && a != Allocation::nil() ==> #[trigger] exec(out, m)(a) == exec(s, m)(a)
}
spec fn no_mem_mem<T>(s: Seq<Mv<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(stk((#[trigger] s[i]).0) && stk(s[i].1)) }
proof fn exec_push<T>(s: Seq<Mv<T>>, x: Mv<T>, m: Mem)
    ensures exec(s.push(x), m) == put(exec(s, m), x.1, exec(s, m)(x.0))
    decreases s.len()
{
    let t = s.push(x);
    if s.len() == 0 {
        assert(t.drop_first() =~= Seq::<Mv<T>>::empty()); assert(t[0] == x);
        assert(exec(t.drop_first(), put(m, x.1, m(x.0))) == put(m, x.1, m(x.0)));
    } else {
        assert(t.drop_first() =~= s.drop_first().push(x)); assert(t[0] == s[0]);
        exec_push(s.drop_first(), x, put(m, s[0].1, m(s[0].0)));
    }
}
/// What the placeholder holds at first does not matter.
proof fn start<T>(s: Seq<Mv<T>>, m: Mem, w: Mem, set: bool)
    requires forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == Allocation::nil() ==> set || exists|j: int| 0 <= j < i && (#[trigger] s[j]).1 == Allocation::nil(),
        forall|a: Allocation| a != Allocation::nil() ==> #[trigger] m(a) == w(a), set ==> m(Allocation::nil()) == w(Allocation::nil())
    ensures forall|a: Allocation| a != Allocation::nil() ==> #[trigger] exec(s, m)(a) == exec(s, w)(a)
    decreases s.len()
{
    if s.len() > 0 {
        let n = Allocation::nil();
        let s1 = s.drop_first(); let m1 = put(m, s[0].1, m(s[0].0)); let w1 = put(w, s[0].1, w(s[0].0));
        let set1 = set || s[0].1 == n;
        assert(m(s[0].0) == w(s[0].0)) by { if s[0].0 == n { assert(set); } }
        assert forall|i: int| 0 <= i < s1.len() && (#[trigger] s1[i]).0 == n implies set1 || exists|j: int| 0 <= j < i && (#[trigger] s1[j]).1 == n by {
            assert(s1[i] == s[i + 1]);
            if !set1 { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] s[j]).1 == n; assert(j != 0); assert(s1[j - 1] == s[j]); }
        }
        start(s1, m1, w1, set1); assert(exec(s, m) == exec(s1, m1)); assert(exec(s, w) == exec(s1, w1));
    }
}
proof fn filled_same<T>(s: Seq<Mv<T>>, t: Seq<Mv<T>>, x: Allocation)
    requires placeholder_ok(s), real(x), free(x), spares(s, x), s.len() == t.len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).0 == filled(s[i].0, x) && t[i].1 == filled(s[i].1, x)
    ensures same(s, t), all_real(t)
{
    real_valid(x);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != x && s[i].1 != x && t[i].0 == filled(s[i].0, x) && t[i].1 == filled(s[i].1, x) by { assert(t[i].0 == filled(s[i].0, x)); }
    assert forall|i: int| 0 <= i < t.len() implies real((#[trigger] t[i]).0) && real(t[i].1) by { assert(s[i].0.valid() && s[i].1.valid()); }
    assert forall|m: Mem, a: Allocation| !free(a) && a != Allocation::nil() implies #[trigger] exec(t, m)(a) == exec(s, m)(a) by {
        let m1 = put(m, Allocation::nil(), m(x));
        start(s, m, m1, false);
        fill(s, t, x, m1, m);
        assert(exec(t, m)(a) == exec(s, m1)(a)); assert(exec(s, m)(a) == exec(s, m1)(a));
    }
}
// ---- going through a register r, saved in v when it had to be borrowed
spec fn agree(a: Mem, b: Mem, r: Allocation, v: Option<Allocation>, sd: bool, vd: bool) -> bool {
    &&& forall|l: Allocation| l != r && v != Some(l) ==> #[trigger] a(l) == b(l)
    &&& v is Some && !sd ==> b(r) == a(r)
    &&& v is Some && !vd ==> b(v->0) == a(r)
}
spec fn sim<T>(s: Seq<Mv<T>>, o: Seq<Mv<T>>, r: Allocation, v: Option<Allocation>, sd: bool, vd: bool) -> bool {
    forall|m: Mem| agree(#[trigger] exec(s, m), exec(o, m), r, v, sd, vd)
}
/// A move of the resolver's own: saving the register, or restoring it.
proof fn sim_own<T>(s: Seq<Mv<T>>, o: Seq<Mv<T>>, x: Mv<T>, r: Allocation, v: Allocation, sd: bool, vd: bool)
    requires sim(s, o, r, Some(v), sd, vd), r != v, (x.0 == r && x.1 == v && !sd) || (x.0 == v && x.1 == r && !vd)
    ensures sim(s, o.push(x), r, Some(v), false, false)
{
    assert forall|m: Mem| agree(#[trigger] exec(s, m), exec(o.push(x), m), r, Some(v), false, false) by {
        exec_push(o, x, m); assert(agree(exec(s, m), exec(o, m), r, Some(v), sd, vd));
    }
}
proof fn sim_via<T>(s: Seq<Mv<T>>, o: Seq<Mv<T>>, x: Mv<T>, y: Mv<T>, z: Mv<T>, r: Allocation, v: Option<Allocation>, sd: bool, vd: bool)
    requires sim(s, o, r, v, sd, vd), v is Some ==> !vd && v->0 != r, x.0 != r, x.1 != r, v != Some(x.0), v != Some(x.1), y.0 == x.0, y.1 == r, z.0 == r, z.1 == x.1
    ensures sim(s.push(x), o.push(y).push(z), r, v, true, vd)
{
    assert forall|m: Mem| agree(#[trigger] exec(s.push(x), m), exec(o.push(y).push(z), m), r, v, true, vd) by {
        exec_push(s, x, m); exec_push(o, y, m); exec_push(o.push(y), z, m);
        assert(agree(exec(s, m), exec(o, m), r, v, sd, vd));
    }
}
proof fn sim_plain<T>(s: Seq<Mv<T>>, o: Seq<Mv<T>>, x: Mv<T>, r: Allocation, v: Option<Allocation>, sd: bool, vd: bool, sd2: bool, vd2: bool)
    requires sim(s, o, r, v, sd, vd), v is Some ==> v->0 != r, x.0 == r ==> v is Some && !sd, v != Some(x.0), v != Some(x.1), v is None ==> x.1 != r,
        x.1 == r ==> !sd2 && vd2, x.1 != r ==> sd2 == sd && vd2 == vd
    ensures sim(s.push(x), o.push(x), r, v, sd2, vd2)
{
    assert forall|m: Mem| agree(#[trigger] exec(s.push(x), m), exec(o.push(x), m), r, v, sd2, vd2) by {
        exec_push(s, x, m); exec_push(o, x, m);
        assert(agree(exec(s, m), exec(o, m), r, v, sd, vd));
    }
}
proof fn sim_done<T>(s: Seq<Mv<T>>, o: Seq<Mv<T>>, r: Allocation, v: Option<Allocation>, sd: bool, vd: bool)
    requires sim(s, o, r, v, sd, vd), v is Some ==> !sd && free(v->0), v is None ==> free(r)
    ensures same(s, o)
{
    assert forall|m: Mem, a: Allocation| !free(a) && a != Allocation::nil() implies #[trigger] exec(o, m)(a) == exec(s, m)(a) by {
        assert(agree(exec(s, m), exec(o, m), r, v, sd, vd));
    }
}
proof fn same_trans<T>(a: Seq<Mv<T>>, b: Seq<Mv<T>>, c: Seq<Mv<T>>)
    requires same(a, b), same(b, c)
    ensures same(a, c)
{
    assert forall|m: Mem, l: Allocation| !free(l) && l != Allocation::nil() implies #[trigger] exec(c, m)(l) == exec(a, m)(l) by { assert(exec(b, m)(l) == exec(a, m)(l)); }
}
//@ fn src/moves.rs MoveAndScratchResolver::is_stack_to_stack_move
//@ spec
    requires forall|a: Allocation| #[trigger] self.is_stack_alloc.requires((a,)), forall|a: Allocation, b: bool| #[trigger] self.is_stack_alloc.ensures((a,), b) ==> b == stk(a)
    ensures res == (stk(src) && stk(dst))
//@ end
//@ fn src/moves.rs MoveAndScratchResolver::compute
//@ closure find_free_reg
//@ closure get_stackslot
//@ spec
    requires well(moves),
        // the moves touch only locations in use, the register to borrow among them
        forall|i: int| 0 <= i < seq_of(moves).len() ==> !free((#[trigger] seq_of(moves)[i]).0) && !free(seq_of(moves)[i].1),
        !free(reg(self.borrowed_scratch_reg)), !stk(reg(self.borrowed_scratch_reg)),
        forall|a: Allocation| #[trigger] self.is_stack_alloc.requires((a,)), forall|a: Allocation, b: bool| #[trigger] self.is_stack_alloc.ensures((a,), b) ==> b == stk(a)
    ensures all_real(res@), no_mem_mem(res@), same(seq_of(moves), res@)
//@ entry
    let ghost v0 = seq_of(moves);
    let ghost mut sx: Option<Allocation> = None;
//@ after let scratch =
    proof { real_valid(scratch); sx = Some(scratch); }
//@ before let stack_to_stack =
    let ghost s = moves@;
    proof {
        if sx is Some { filled_same(v0, s, sx->0); } else { assert(same(v0, s)); }
        assert forall|a: Allocation| free(a) && sx != Some(a) implies #[trigger] spares(s, a) by {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != a && s[i].1 != a by { let y = v0[i]; }
        }
    }
//@ loop 0
    invariant_except_break !__o0, forall|k: int| 0 <= k < __i0 ==> !(stk((#[trigger] s[k]).0) && stk(s[k].1))
    invariant moves@ == s, __i0 <= s.len(),
        forall|a: Allocation| #[trigger] __this.is_stack_alloc.requires((a,)), forall|a: Allocation, b: bool| #[trigger] __this.is_stack_alloc.ensures((a,), b) ==> b == stk(a)
    ensures !__o0 ==> no_mem_mem(s)
    decreases s.len() - __i0
//@ before let mut scratch_dirty = false
    let ghost r = scratch_reg; let ghost v = save_slot; let ghost mut done: Seq<Mv<T>> = Seq::empty();
    proof { if v is None { assert(free(r)); assert(sx != Some(r)); assert(spares(s, r)); } else { assert(spares(s, v->0)); } }
//@ loop 1 before
    proof { assert(s.subrange(0, 0) =~= Seq::empty()); assert(result@ =~= Seq::empty()); }
//@ loop 1
    invariant moves@ == s, __i1 <= s.len(), all_real(s), scratch_reg == r, save_slot == v, real(r), !stk(r),
        forall|a: Allocation| #[trigger] __this.is_stack_alloc.requires((a,)), forall|a: Allocation, b: bool| #[trigger] __this.is_stack_alloc.ensures((a,), b) ==> b == stk(a),
        v is Some ==> real(v->0) && stk(v->0) && spares(s, v->0), v is None ==> spares(s, r),
        scratch_dirty && v is Some ==> !save_dirty,
        sim(s.subrange(0, __i1 as int), result@, r, v, scratch_dirty, save_dirty), all_real(result@), no_mem_mem(result@)
    decreases s.len() - __i1
//@ loop 1 begin
    let ghost x = s[__i1 as int]; let ghost p = s.subrange(0, __i1 as int);
    let ghost o = result@; let ghost sd = scratch_dirty; let ghost vd = save_dirty;
    proof { assert(s.subrange(0, __i1 + 1) =~= p.push(x)); }
//@ loop 1 end
    proof {
        let t = result@; let n = o.len() as int;
        let f1 = o.push(t[n]);
        if stk(x.0) && stk(x.1) {
            if v is Some && vd {
                sim_own(p, o, t[n], r, v->0, sd, vd);
                assert(t =~= f1.push(t[n + 1]).push(t[n + 2]));
                sim_via(p, f1, x, t[n + 1], t[n + 2], r, v, false, false);
            } else {
                assert(t =~= f1.push(t[n + 1]));
                sim_via(p, o, x, t[n], t[n + 1], r, v, sd, vd);
            }
        } else if x.0 == r && sd {
            sim_own(p, o, t[n], r, v->0, sd, vd);
            assert(t =~= f1.push(t[n + 1]));
            sim_plain(p, f1, x, r, v, false, false, scratch_dirty, save_dirty);
        } else {
            assert(t =~= f1);
            sim_plain(p, o, x, r, v, sd, vd, scratch_dirty, save_dirty);
        }
    }
//@ loop 1 after
    proof { assert(s.subrange(0, s.len() as int) =~= s); done = result@; }
//@ exit
    proof {
        if v is Some && scratch_dirty { assert(result@ =~= done.push(result@[done.len() as int])); sim_own(s, done, result@[done.len() as int], r, v->0, true, false); sim_done(s, result@, r, v, false, false); }
        else { sim_done(s, result@, r, v, scratch_dirty, save_dirty); }
        same_trans(v0, s, result@);
    }
//@ end
}
fn main() {}
