use vstd::prelude::*;
verus! {
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/stdlib.rs
//@ include ../../common/verus/alloc.rs
//@ include ../../common/verus/moves.rs
//@ item src/moves.rs struct ParallelMoves
//@ fn src/ion/data_structures.rs u64_key
//@ spec
    ensures res == (b as int) * 0x1_0000_0000 + a
//@ entry
    proof { assert((a as u64 | (b as u64) << 32) == (b as u64) * 0x1_0000_0000 + a as u64) by(bit_vector); }
//@ end
//@ fn src/moves.rs ParallelMoves::new
//@ spec
    ensures res.parallel_moves@.len() == 0
//@ end
//@ fn src/moves.rs ParallelMoves::add
//@ spec
    ensures final(self).parallel_moves@ == old(self).parallel_moves@.push((from, to, t))
//@ end
/// Destinations are distinct apart from repetitions of the same move.
spec fn one_writer<T>(v: Seq<Mv<T>>) -> bool { forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).1 == (#[trigger] v[j]).1 ==> v[i] == v[j] }
/// Executing s performs the parallel assignment v on every location but the placeholder.
spec fn performs<T>(v: Seq<Mv<T>>, s: Seq<Mv<T>>) -> bool {
    &&& forall|m: Mem, i: int| 0 <= i < v.len() ==> (#[trigger] exec(s, m))((#[trigger] v[i]).1) == m(v[i].0)
    &&& forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 != a) ==> #[trigger] exec(s, m)(a) == m(a)
}
/// c is a cycle among the moves v: each reads the location the next one writes.
spec fn cycle<T>(v: Seq<Mv<T>>, c: Seq<Mv<T>>) -> bool {
    &&& c.len() >= 2
    &&& forall|k: int| 0 <= k < c.len() ==> v.contains(#[trigger] c[k])
    &&& forall|k: int, l: int| 0 <= k < l < c.len() ==> (#[trigger] c[k]).1 != (#[trigger] c[l]).1
    &&& forall|k: int| 0 <= k < c.len() - 1 ==> (#[trigger] c[k]).0 == c[k + 1].1
    &&& c[c.len() - 1].0 == c[0].1
}

// ---- the working set: strictly sorted by destination, no self-moves
spec fn sorted<T>(v: Seq<Mv<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1.bits < (#[trigger] v[j]).1.bits }
spec fn within<T>(a: Seq<Mv<T>>, b: Seq<Mv<T>>) -> bool { forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) }
proof fn same_dst<T>(v: Seq<Mv<T>>, i: int, j: int)
    requires sorted(v), 0 <= i < v.len(), 0 <= j < v.len(), v[i].1 == v[j].1
    ensures i == j
{ if i < j { assert(v[i].1.bits < v[j].1.bits); } else if j < i { assert(v[j].1.bits < v[i].1.bits); } }
// ---- the effect of the moves emitted so far (ret is in reverse order)
spec fn fin(st: Seq<State>, i: int) -> bool { st[i] == State::Done }
spec fn eff<T>(pm: Seq<Mv<T>>, st: Seq<State>, ret: Seq<Mv<T>>, hole: int) -> bool {
    &&& forall|m: Mem, i: int| 0 <= i < pm.len() && fin(st, i) ==> (#[trigger] exec(ret.reverse(), m))((#[trigger] pm[i]).1) == (if i == hole { m(Allocation::nil()) } else { m(pm[i].0) })
    &&& forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|i: int| 0 <= i < pm.len() && fin(st, i) ==> (#[trigger] pm[i]).1 != a) ==> #[trigger] exec(ret.reverse(), m)(a) == m(a)
}
/// Whatever a finished move reads is overwritten only by finished moves.
spec fn closed<T>(pm: Seq<Mv<T>>, st: Seq<State>, hole: int) -> bool {
    forall|j: int, i: int| 0 <= j < pm.len() && 0 <= i < pm.len() && fin(st, j) && j != hole && (#[trigger] pm[j]).0 == (#[trigger] pm[i]).1 ==> fin(st, i)
}
spec fn work<T>(pm: Seq<Mv<T>>) -> bool { sorted(pm) && all_real(pm) }
proof fn exec_front<T>(ret: Seq<Mv<T>>, x: Mv<T>, m: Mem)
    ensures exec(ret.push(x).reverse(), m) == exec(ret.reverse(), put(m, x.1, m(x.0)))
{ let s = ret.push(x).reverse(); assert(s[0] == x); assert(s.drop_first() =~= ret.reverse()); }
proof fn step<T>(pm: Seq<Mv<T>>, st: Seq<State>, ret: Seq<Mv<T>>, hole: int, i: int)
    requires work(pm), st.len() == pm.len(), 0 <= i < pm.len(), !fin(st, i), hole != i, eff(pm, st, ret, hole), closed(pm, st, hole),
        forall|k: int| 0 <= k < pm.len() && (#[trigger] pm[k]).1 == pm[i].0 && k != i ==> fin(st, k)
    ensures eff(pm, st.update(i, State::Done), ret.push(pm[i]), hole), closed(pm, st.update(i, State::Done), hole)
{
    let st2 = st.update(i, State::Done); let r2 = ret.push(pm[i]); let x = pm[i];
    real_valid(x.0); real_valid(x.1);
    assert forall|m: Mem, j: int| 0 <= j < pm.len() && fin(st2, j) implies (#[trigger] exec(r2.reverse(), m))((#[trigger] pm[j]).1) == (if j == hole { m(Allocation::nil()) } else { m(pm[j].0) }) by {
        exec_front(ret, x, m); let m1 = put(m, x.1, m(x.0));
        if j == i {
            assert forall|k: int| 0 <= k < pm.len() && fin(st, k) implies (#[trigger] pm[k]).1 != x.1 by { if pm[k].1 == x.1 { same_dst(pm, k, i); } }
            assert(exec(ret.reverse(), m1)(x.1) == m1(x.1));
        } else { assert(fin(st, j)); assert(exec(ret.reverse(), m1)(pm[j].1) == (if j == hole { m1(Allocation::nil()) } else { m1(pm[j].0) })); }
    }
    assert forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|k: int| 0 <= k < pm.len() && fin(st2, k) ==> (#[trigger] pm[k]).1 != a) implies #[trigger] exec(r2.reverse(), m)(a) == m(a) by {
        exec_front(ret, x, m); let m1 = put(m, x.1, m(x.0));
        assert(fin(st2, i)); assert(pm[i].1 != a);
        assert forall|k: int| 0 <= k < pm.len() && fin(st, k) implies (#[trigger] pm[k]).1 != a by { assert(fin(st2, k)); }
        assert(exec(ret.reverse(), m1)(a) == m1(a));
    }
    assert forall|j: int, k: int| 0 <= j < pm.len() && 0 <= k < pm.len() && fin(st2, j) && j != hole && (#[trigger] pm[j]).0 == (#[trigger] pm[k]).1 implies fin(st2, k) by {
        if k != i { if j == i { assert(fin(st, k)); } else { assert(fin(st, j)); assert(fin(st, k)); } }
    }
}
/// The last write of a cycle, taken from the placeholder.
proof fn hole_open<T>(pm: Seq<Mv<T>>, st: Seq<State>, ret: Seq<Mv<T>>, i: int, x: Mv<T>)
    requires work(pm), st.len() == pm.len(), 0 <= i < pm.len(), !fin(st, i), eff(pm, st, ret, -1), closed(pm, st, -1), x.0 == Allocation::nil(), x.1 == pm[i].1
    ensures eff(pm, st.update(i, State::Done), ret.push(x), i), closed(pm, st.update(i, State::Done), i)
{
    let st2 = st.update(i, State::Done); let r2 = ret.push(x);
    real_valid(x.1);
    assert forall|m: Mem, j: int| 0 <= j < pm.len() && fin(st2, j) implies (#[trigger] exec(r2.reverse(), m))((#[trigger] pm[j]).1) == (if j == i { m(Allocation::nil()) } else { m(pm[j].0) }) by {
        exec_front(ret, x, m); let m1 = put(m, x.1, m(x.0));
        if j == i {
            assert forall|k: int| 0 <= k < pm.len() && fin(st, k) implies (#[trigger] pm[k]).1 != x.1 by { if pm[k].1 == x.1 { same_dst(pm, k, i); } }
            assert(exec(ret.reverse(), m1)(x.1) == m1(x.1));
        } else { assert(fin(st, j)); assert(exec(ret.reverse(), m1)(pm[j].1) == m1(pm[j].0)); if pm[j].0 == pm[i].1 { assert(fin(st, i)); } }
    }
    assert forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|k: int| 0 <= k < pm.len() && fin(st2, k) ==> (#[trigger] pm[k]).1 != a) implies #[trigger] exec(r2.reverse(), m)(a) == m(a) by {
        exec_front(ret, x, m); let m1 = put(m, x.1, m(x.0));
        assert(fin(st2, i)); assert(pm[i].1 != a);
        assert forall|k: int| 0 <= k < pm.len() && fin(st, k) implies (#[trigger] pm[k]).1 != a by { assert(fin(st2, k)); }
        assert(exec(ret.reverse(), m1)(a) == m1(a));
    }
    assert forall|j: int, k: int| 0 <= j < pm.len() && 0 <= k < pm.len() && fin(st2, j) && j != i && (#[trigger] pm[j]).0 == (#[trigger] pm[k]).1 implies fin(st2, k) by {
        assert(fin(st, j)); assert(fin(st, k));
    }
}
/// Filling the placeholder closes the cycle.
proof fn hole_close<T>(pm: Seq<Mv<T>>, st: Seq<State>, ret: Seq<Mv<T>>, i: int, x: Mv<T>)
    requires work(pm), st.len() == pm.len(), 0 <= i < pm.len(), fin(st, i), eff(pm, st, ret, i), closed(pm, st, i), x.0 == pm[i].0, x.1 == Allocation::nil(),
        forall|k: int| 0 <= k < pm.len() && (#[trigger] pm[k]).1 == pm[i].0 ==> fin(st, k)
    ensures eff(pm, st, ret.push(x), -1), closed(pm, st, -1)
{
    let r2 = ret.push(x);
    assert forall|m: Mem, j: int| 0 <= j < pm.len() && fin(st, j) implies (#[trigger] exec(r2.reverse(), m))((#[trigger] pm[j]).1) == m(pm[j].0) by {
        exec_front(ret, x, m); let m1 = put(m, x.1, m(x.0)); real_valid(pm[j].0);
        assert(exec(ret.reverse(), m1)(pm[j].1) == (if j == i { m1(Allocation::nil()) } else { m1(pm[j].0) }));
    }
    assert forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|k: int| 0 <= k < pm.len() && fin(st, k) ==> (#[trigger] pm[k]).1 != a) implies #[trigger] exec(r2.reverse(), m)(a) == m(a) by {
        exec_front(ret, x, m); let m1 = put(m, x.1, m(x.0));
        assert(exec(ret.reverse(), m1)(a) == m1(a));
    }
    assert forall|j: int, k: int| 0 <= j < pm.len() && 0 <= k < pm.len() && fin(st, j) && j != -1 && (#[trigger] pm[j]).0 == (#[trigger] pm[k]).1 implies fin(st, k) by { }
}
proof fn eff_none<T>(pm: Seq<Mv<T>>, st: Seq<State>)
    requires st.len() == pm.len(), forall|i: int| 0 <= i < pm.len() ==> !fin(st, i)
    ensures eff(pm, st, Seq::<Mv<T>>::empty(), -1), closed(pm, st, -1)
{
    let e = Seq::<Mv<T>>::empty();
    assert(e.reverse() =~= e);
    assert forall|m: Mem| #[trigger] exec(e.reverse(), m) == m by { }
}
proof fn eff_all<T>(pm: Seq<Mv<T>>, st: Seq<State>, ret: Seq<Mv<T>>)
    requires st.len() == pm.len(), forall|i: int| 0 <= i < pm.len() ==> fin(st, i), eff(pm, st, ret, -1)
    ensures performs(pm, ret.reverse())
{
    assert forall|m: Mem, i: int| 0 <= i < pm.len() implies (#[trigger] exec(ret.reverse(), m))((#[trigger] pm[i]).1) == m(pm[i].0) by { assert(fin(st, i)); }
}
/// Moves that do not interfere may be performed in any order.
proof fn independent<T>(pm: Seq<Mv<T>>, k: nat)
    requires work(pm), k <= pm.len(), forall|i: int, j: int| 0 <= i < pm.len() && 0 <= j < pm.len() ==> (#[trigger] pm[i]).0 != (#[trigger] pm[j]).1
    ensures ({ let st = Seq::new(pm.len(), |i: int| if i >= pm.len() - k { State::Done } else { State::ToDo }); eff(pm, st, pm.subrange(pm.len() - k, pm.len() as int).reverse(), -1) && closed(pm, st, -1) })
    decreases k
{
    let n = pm.len() as int;
    let st = Seq::new(pm.len(), |i: int| if i >= pm.len() - k { State::Done } else { State::ToDo });
    if k == 0 { eff_none(pm, st); assert(pm.subrange(n, n).reverse() =~= Seq::empty()); }
    else {
        independent(pm, (k - 1) as nat);
        let s0 = Seq::new(pm.len(), |i: int| if i >= pm.len() - (k - 1) as nat { State::Done } else { State::ToDo });
        let r0 = pm.subrange(n - k + 1, n).reverse();
        step(pm, s0, r0, -1, n - k);
        assert(s0.update(n - k, State::Done) =~= st);
        assert(r0.push(pm[n - k]) =~= pm.subrange(n - k, n).reverse());
    }
}
proof fn reverse_reverse<T>(s: Seq<Mv<T>>) ensures s.reverse().reverse() == s { assert(s.reverse().reverse() =~= s); }
/// The working set stands for the given moves.
proof fn lift<T>(orig: Seq<Mv<T>>, pm: Seq<Mv<T>>, s: Seq<Mv<T>>)
    requires performs(pm, s), one_writer(orig), all_real(orig), within(pm, orig), forall|i: int| 0 <= i < pm.len() ==> (#[trigger] pm[i]).0 != pm[i].1,
        forall|i: int| 0 <= i < orig.len() && orig[i].0 != orig[i].1 ==> pm.contains(#[trigger] orig[i])
    ensures performs(orig, s)
{
    assert forall|m: Mem, i: int| 0 <= i < orig.len() implies (#[trigger] exec(s, m))((#[trigger] orig[i]).1) == m(orig[i].0) by {
        if orig[i].0 != orig[i].1 { let j = pm.index_of(orig[i]); assert(pm[j] == orig[i]); }
        else {
            real_valid(orig[i].1);
            assert forall|j: int| 0 <= j < pm.len() implies (#[trigger] pm[j]).1 != orig[i].1 by { if pm[j].1 == orig[i].1 { assert(orig.contains(pm[j])); let k = orig.index_of(pm[j]); assert(orig[k].1 == orig[i].1); } }
        }
    }
    assert forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|i: int| 0 <= i < orig.len() ==> (#[trigger] orig[i]).1 != a) implies #[trigger] exec(s, m)(a) == m(a) by {
        assert forall|j: int| 0 <= j < pm.len() implies (#[trigger] pm[j]).1 != a by { assert(orig.contains(pm[j])); let k = orig.index_of(pm[j]); assert(orig[k].1 != a); }
    }
}
proof fn single<T>(s: Seq<Mv<T>>)
    requires s.len() <= 1, all_real(s)
    ensures performs(s, s)
{
    assert forall|m: Mem| s.len() == 1 implies #[trigger] exec(s, m) == put(m, s[0].1, m(s[0].0)) by { assert(exec(s.drop_first(), put(m, s[0].1, m(s[0].0))) == put(m, s[0].1, m(s[0].0))); }
    assert forall|m: Mem, a: Allocation| s.len() == 1 && a != s[0].1 implies #[trigger] exec(s, m)(a) == m(a) by { }
}
// ---- bookkeeping of the search
spec fn todo(st: Seq<State>) -> nat decreases st.len() { if st.len() == 0 { 0 } else { todo(st.drop_last()) + (if st.last() == State::ToDo { 1nat } else { 0 }) } }
proof fn todo_set(st: Seq<State>, i: int, v: State)
    requires 0 <= i < st.len(), v != State::ToDo
    ensures todo(st.update(i, v)) + (if st[i] == State::ToDo { 1nat } else { 0 }) == todo(st)
    decreases st.len()
{
    let u = st.update(i, v);
    if i == st.len() - 1 { assert(u.drop_last() =~= st.drop_last()); }
    else { todo_set(st.drop_last(), i, v); assert(u.drop_last() =~= st.drop_last().update(i, v)); }
}
spec fn succ_ok<T>(pm: Seq<Mv<T>>, succ: Seq<usize>) -> bool {
    &&& succ.len() == pm.len()
    &&& forall|j: int| 0 <= j < pm.len() && #[trigger] succ[j] != usize::MAX ==> succ[j] < pm.len() && pm[succ[j] as int].1 == pm[j].0 && succ[j] != j
    &&& forall|j: int, i: int| 0 <= j < pm.len() && 0 <= i < pm.len() && #[trigger] succ[j] == usize::MAX ==> (#[trigger] pm[i]).1 != pm[j].0
}
/// What j reads is written by finished moves only.
proof fn reads_done<T>(pm: Seq<Mv<T>>, succ: Seq<usize>, st: Seq<State>, j: int)
    requires work(pm), succ_ok(pm, succ), 0 <= j < pm.len(), st.len() == pm.len(), succ[j] == usize::MAX || fin(st, succ[j] as int)
    ensures forall|k: int| 0 <= k < pm.len() && (#[trigger] pm[k]).1 == pm[j].0 ==> fin(st, k)
{
    assert forall|k: int| 0 <= k < pm.len() && (#[trigger] pm[k]).1 == pm[j].0 implies fin(st, k) by { if succ[j] != usize::MAX { same_dst(pm, k, succ[j] as int); } }
}
spec fn stack_ok(stack: Seq<usize>, st: Seq<State>, succ: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < stack.len() ==> (#[trigger] stack[k]) < st.len() && st[stack[k] as int] == State::Pending
    &&& forall|k: int, l: int| 0 <= k < l < stack.len() ==> stack[k] != stack[l]
    &&& forall|j: int| 0 <= j < st.len() && #[trigger] st[j] == State::Pending ==> stack.contains(j as usize)
    &&& forall|k: int| 0 <= k < stack.len() - 1 ==> #[trigger] succ[stack[k] as int] == stack[k + 1]
}
proof fn stack_push(stack: Seq<usize>, st: Seq<State>, succ: Seq<usize>, x: usize)
    requires stack_ok(stack, st, succ), st.len() == succ.len(), st.len() <= usize::MAX, x < st.len(), st[x as int] == State::ToDo, stack.len() > 0 ==> succ[stack.last() as int] == x
    ensures stack_ok(stack.push(x), st.update(x as int, State::Pending), succ)
{
    let s2 = stack.push(x); let t2 = st.update(x as int, State::Pending);
    assert forall|j: int| 0 <= j < t2.len() && #[trigger] t2[j] == State::Pending implies s2.contains(j as usize) by {
        if j == x { assert(s2[stack.len() as int] == x); } else { assert(st[j] == State::Pending); let k = stack.index_of(j as usize); assert(s2[k] == j as usize); }
    }
}
proof fn stack_pop(stack: Seq<usize>, st: Seq<State>, succ: Seq<usize>)
    requires stack_ok(stack, st, succ), stack.len() > 0, st.len() <= usize::MAX
    ensures stack_ok(stack.drop_last(), st.update(stack.last() as int, State::Done), succ)
{
    let s2 = stack.drop_last(); let x = stack.last(); let t2 = st.update(x as int, State::Done);
    assert forall|j: int| 0 <= j < t2.len() && #[trigger] t2[j] == State::Pending implies s2.contains(j as usize) by {
        assert(st[j] == State::Pending); let k = stack.index_of(j as usize); assert(stack[k] == j as usize); assert(s2[k] == j as usize);
    }
}
/// While no cycle was found no placeholder occurs.
spec fn plain<T>(s: Seq<Mv<T>>) -> bool { all_real(s) }
/// placeholder_ok for the reversed list; `open`: the outermost read still lacks its write.
spec fn holes<T>(s: Seq<Mv<T>>, open: bool) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.valid() && s[i].1.valid() && !(s[i].0 == Allocation::nil() && s[i].1 == Allocation::nil())
        && (s[i].0 == Allocation::nil() ==> open || exists|j: int| i < j < s.len() && (#[trigger] s[j]).1 == Allocation::nil())
}
proof fn holes_push<T>(s: Seq<Mv<T>>, x: Mv<T>, open: bool)
    requires holes(s, open), x.0.valid(), x.1.valid(), !(x.0 == Allocation::nil() && x.1 == Allocation::nil()), x.0 == Allocation::nil() ==> open
    ensures holes(s.push(x), open), x.1 == Allocation::nil() && x.0 != Allocation::nil() ==> holes(s.push(x), false)
{
    let t = s.push(x);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.valid() && t[i].1.valid() && !(t[i].0 == Allocation::nil() && t[i].1 == Allocation::nil())
        && (t[i].0 == Allocation::nil() ==> (open && x.1 != Allocation::nil()) || (open && x.0 == Allocation::nil()) || exists|j: int| i < j < t.len() && (#[trigger] t[j]).1 == Allocation::nil()) by {
        if i < s.len() { assert(t[i] == s[i]); if t[i].0 == Allocation::nil() { if x.1 == Allocation::nil() { assert(t[s.len() as int].1 == Allocation::nil()); } else if !open { let j = choose|j: int| i < j < s.len() && (#[trigger] s[j]).1 == Allocation::nil(); assert(t[j] == s[j]); } } }
    }
}
proof fn holes_done<T>(s: Seq<Mv<T>>)
    requires holes(s, false)
    ensures placeholder_ok(s.reverse())
{
    let t = s.reverse(); let n = s.len();
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.valid() && t[i].1.valid() && !(t[i].0 == Allocation::nil() && t[i].1 == Allocation::nil())
        && (t[i].0 == Allocation::nil() ==> exists|j: int| 0 <= j < i && (#[trigger] t[j]).1 == Allocation::nil()) by {
        assert(t[i] == s[n - 1 - i]);
        if t[i].0 == Allocation::nil() { let j = choose|j: int| n - 1 - i < j < s.len() && (#[trigger] s[j]).1 == Allocation::nil(); assert(t[n - 1 - j] == s[j]); }
    }
}
proof fn find_cycle<T>(pm: Seq<Mv<T>>, orig: Seq<Mv<T>>, stack: Seq<usize>, st: Seq<State>, succ: Seq<usize>, next: usize)
    requires work(pm), within(pm, orig), succ_ok(pm, succ), st.len() == pm.len(), st.len() <= usize::MAX, stack_ok(stack, st, succ), stack.len() > 0, succ[stack.last() as int] == next, next != usize::MAX, stack.contains(next)
    ensures exists|c: Seq<Mv<T>>| cycle(orig, c)
{
    let a = stack.index_of(next);
    let c = Seq::new((stack.len() - a) as nat, |k: int| pm[stack[a + k] as int]);
    assert(succ[stack.last() as int] != stack.last());
    assert forall|k: int| 0 <= k < c.len() implies orig.contains(#[trigger] c[k]) by { assert(stack[a + k] < pm.len()); }
    assert forall|k: int, l: int| 0 <= k < l < c.len() implies (#[trigger] c[k]).1 != (#[trigger] c[l]).1 by { assert(stack[a + k] != stack[a + l]); assert(stack[a + k] < pm.len() && stack[a + l] < pm.len()); if c[k].1 == c[l].1 { same_dst(pm, stack[a + k] as int, stack[a + l] as int); } }
    assert forall|k: int| 0 <= k < c.len() - 1 implies (#[trigger] c[k]).0 == c[k + 1].1 by { let j = stack[a + k] as int; assert(j < pm.len()); assert(succ[j] == stack[a + k + 1]); assert(stack[a + k + 1] < pm.len()); assert(pm[succ[j] as int].1 == pm[j].0); assert(a + k + 1 == a + (k + 1)); assert(c[k] == pm[j]); assert(c[k + 1] == pm[succ[j] as int]); }
    assert(cycle(orig, c));
}

spec fn key<T>(x: Mv<T>) -> int { x.1.bits as int * 0x1_0000_0000 + x.0.bits as int }
spec fn weak<T>(v: Seq<Mv<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1.bits <= (#[trigger] v[j]).1.bits }
spec fn no_self<T>(v: Seq<Mv<T>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 != v[i].1 }
proof fn sort_facts<T>(orig: Seq<Mv<T>>, keys: Seq<u64>, s1: Seq<Mv<T>>)
    requires keys.len() == orig.len(), s1.len() == orig.len(), forall|k: int| 0 <= k < orig.len() ==> keys[k] == key(#[trigger] orig[k]),
        exists|p: Seq<int>| is_perm(p, orig.len() as int) && (forall|i: int| 0 <= i < p.len() ==> s1[i] == orig[#[trigger] p[i]])
            && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]] <= keys[#[trigger] p[j]] && (keys[p[i]] == keys[p[j]] ==> p[i] < p[j]))
    ensures weak(s1), within(s1, orig), within(orig, s1)
{
    let p = choose|p: Seq<int>| is_perm(p, orig.len() as int) && (forall|i: int| 0 <= i < p.len() ==> s1[i] == orig[#[trigger] p[i]])
            && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys[#[trigger] p[i]] <= keys[#[trigger] p[j]] && (keys[p[i]] == keys[p[j]] ==> p[i] < p[j]));
    assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (#[trigger] s1[i]).1.bits <= (#[trigger] s1[j]).1.bits by {
        assert(s1[i] == orig[p[i]] && s1[j] == orig[p[j]]); assert(key(orig[p[i]]) <= key(orig[p[j]]));
    }
    assert forall|i: int| 0 <= i < s1.len() implies orig.contains(#[trigger] s1[i]) by { assert(s1[i] == orig[p[i]]); }
    assert forall|k: int| 0 <= k < orig.len() implies s1.contains(#[trigger] orig[k]) by { assert(p.contains(k)); let i = p.index_of(k); assert(s1[i] == orig[p[i]]); }
}
proof fn dedup_facts<T>(orig: Seq<Mv<T>>, s1: Seq<Mv<T>>, s2: Seq<Mv<T>>)
    requires one_writer(orig), weak(s1), within(s1, orig), within(orig, s1),
        deduped(s1, s2)
    ensures sorted(s2), within(s2, orig), within(orig, s2)
{
    let f = choose|f: Seq<int>| f.len() == s2.len()
            && (forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < s1.len() && s2[i] == s1[f[i]])
            && (forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] < #[trigger] f[j])
            && (forall|k: int| 0 <= k < s1.len() ==> s2.contains(#[trigger] s1[k]));
    assert forall|i: int| 0 <= i < s2.len() implies orig.contains(#[trigger] s2[i]) by { assert(s2[i] == s1[f[i]]); }
    assert(weak(s2)) by { assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).1.bits <= (#[trigger] s2[j]).1.bits by { assert(f[i] < f[j]); assert(s2[i] == s1[f[i]] && s2[j] == s1[f[j]]); } }
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).1.bits < (#[trigger] s2[j]).1.bits by {
        if s2[i].1.bits == s2[j].1.bits {
            assert(s2[i + 1].1.bits <= s2[j].1.bits);
            assert(s2[i].1.bits <= s2[i + 1].1.bits);
            assert(s2[i].1 == s2[i + 1].1);
            assert(orig.contains(s2[i]) && orig.contains(s2[i + 1]));
            let a = orig.index_of(s2[i]); let b = orig.index_of(s2[i + 1]); assert(orig[a].1 == orig[b].1);
        }
    }
    assert forall|k: int| 0 <= k < orig.len() implies s2.contains(#[trigger] orig[k]) by { assert(s1.contains(orig[k])); let a = s1.index_of(orig[k]); assert(s1[a] == orig[k]); }
}
spec fn from<T>(s: Seq<Mv<T>>, m: Seq<bool>, x: Mv<T>) -> bool { exists|k: int| 0 <= k < s.len() && m[k] && #[trigger] s[k] == x }
proof fn kept_facts<T>(s: Seq<Mv<T>>, m: Seq<bool>)
    requires m.len() >= s.len(), sorted(s)
    ensures sorted(kept(s, m)), forall|i: int| 0 <= i < kept(s, m).len() ==> from(s, m, #[trigger] kept(s, m)[i]),
        forall|k: int| 0 <= k < s.len() && m[k] ==> kept(s, m).contains(#[trigger] s[k])
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); kept_facts(d, m); let q = kept(d, m); let r = kept(s, m); let n = s.len() - 1;
        assert forall|i: int| 0 <= i < r.len() implies from(s, m, #[trigger] r[i]) by {
            if i < q.len() { assert(r[i] == q[i]); assert(from(d, m, q[i])); let k = choose|k: int| 0 <= k < d.len() && m[k] && #[trigger] d[k] == q[i]; assert(s[k] == r[i]); } else { assert(s[n] == r[i]); }
        }
        assert forall|k: int| 0 <= k < s.len() && m[k] implies r.contains(#[trigger] s[k]) by {
            if k < n { assert(d[k] == s[k]); assert(q.contains(d[k])); let i = q.index_of(d[k]); assert(r[i] == s[k]); } else { assert(r[r.len() - 1] == s[n]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).1.bits < (#[trigger] r[j]).1.bits by {
            if j < q.len() { assert(r[i] == q[i] && r[j] == q[j]); } else { assert(r[i] == q[i]); assert(from(d, m, q[i])); let k = choose|k: int| 0 <= k < d.len() && m[k] && #[trigger] d[k] == q[i]; assert(s[k].1.bits < s[n].1.bits); }
        }
    }
}
proof fn retain_facts<T>(orig: Seq<Mv<T>>, s2: Seq<Mv<T>>, mask: Seq<bool>, pm: Seq<Mv<T>>)
    requires all_real(orig), sorted(s2), within(s2, orig), within(orig, s2), mask.len() == s2.len(), forall|k: int| 0 <= k < s2.len() ==> mask[k] == ((#[trigger] s2[k]).0 != s2[k].1), pm == kept(s2, mask)
    ensures work(pm), no_self(pm), within(pm, orig), forall|i: int| 0 <= i < orig.len() && orig[i].0 != orig[i].1 ==> pm.contains(#[trigger] orig[i])
{
    kept_facts(s2, mask);
    assert forall|i: int| 0 <= i < pm.len() implies orig.contains(#[trigger] pm[i]) && pm[i].0 != pm[i].1 && real(pm[i].0) && real(pm[i].1) by {
        assert(from(s2, mask, pm[i])); let k = choose|k: int| 0 <= k < s2.len() && mask[k] && #[trigger] s2[k] == pm[i]; assert(orig.contains(s2[k])); let a = orig.index_of(s2[k]); assert(orig[a] == pm[i]);
    }
    assert forall|i: int| 0 <= i < orig.len() && orig[i].0 != orig[i].1 implies pm.contains(#[trigger] orig[i]) by { assert(s2.contains(orig[i])); let k = s2.index_of(orig[i]); assert(s2[k] == orig[i]); }
}
proof fn eff_same<T>(pm: Seq<Mv<T>>, st: Seq<State>, st2: Seq<State>, ret: Seq<Mv<T>>, hole: int)
    requires eff(pm, st, ret, hole), closed(pm, st, hole), forall|i: int| 0 <= i < pm.len() ==> fin(st, i) == fin(st2, i)
    ensures eff(pm, st2, ret, hole), closed(pm, st2, hole)
{
    assert forall|m: Mem, a: Allocation| a != Allocation::nil() && (forall|i: int| 0 <= i < pm.len() && fin(st2, i) ==> (#[trigger] pm[i]).1 != a) implies #[trigger] exec(ret.reverse(), m)(a) == m(a) by {
        assert forall|i: int| 0 <= i < pm.len() && fin(st, i) implies (#[trigger] pm[i]).1 != a by { assert(fin(st2, i)); }
    }
}
/// std: binary search over a sequence sorted by the derived order of Allocation (its bits).
#[verifier::external_body]
fn vx_binary_search(keys: &Vec<Allocation>, key: &Allocation) -> (res: core::result::Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i < j < keys@.len() ==> (#[trigger] keys@[i]).bits <= (#[trigger] keys@[j]).bits
    ensures match res { Ok(i) => i < keys@.len() && keys@[i as int] == *key, Err(_) => forall|i: int| 0 <= i < keys@.len() ==> #[trigger] keys@[i] != *key }
{ keys.binary_search_by_key(&key.bits, |x| x.bits) }

//@ fn src/moves.rs ParallelMoves::sources_overlap_dests
//@ spec
    requires sorted(self.parallel_moves@)
    ensures res == exists|i: int, j: int| 0 <= i < self.parallel_moves@.len() && 0 <= j < self.parallel_moves@.len() && (#[trigger] self.parallel_moves@[i]).0 == (#[trigger] self.parallel_moves@[j]).1
//@ entry
    let ghost v = self.parallel_moves@;
//@ loop 0
    invariant v == self.parallel_moves@, __s0@ == v, sorted(v), __i0 <= v.len(), forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).1
    decreases v.len() - __i0
//@ loop 1
    invariant v == self.parallel_moves@, __s1@ == v, __i1 <= v.len(), __o1@.len() == __i1, forall|j: int| #![trigger __o1@[j]] #![trigger v[j]] 0 <= j < __i1 ==> __o1@[j] == v[j].1
    decreases v.len() - __i1
//@ end

//@ fn src/moves.rs ParallelMoves::resolve
//@ spec
    requires one_writer(self.parallel_moves@), all_real(self.parallel_moves@)
    ensures match res {
        MoveVecWithScratch::NoScratch(s) => performs(self.parallel_moves@, s@) && all_real(s@),
        MoveVecWithScratch::Scratch(s) => performs(self.parallel_moves@, s@) && placeholder_ok(s@) && exists|c: Seq<Mv<T>>| cycle(self.parallel_moves@, c),
    }
//@ entry
    let ghost orig = self.parallel_moves@; let ghost mut gk: Seq<u64> = Seq::empty(); let ghost mut mask: Seq<bool> = Seq::empty();
    proof { if orig.len() <= 1 { single(orig); } }
//@ loop 0
    invariant __s0@ == orig, __i0 <= orig.len(), __o0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> __o0@[k] == key(#[trigger] orig[k])
    decreases orig.len() - __i0
//@ loop 0 after
    proof { gk = __o0@; }
//@ after vx_sort_by_key
    let ghost s1 = __this.parallel_moves@;
    proof { sort_facts(orig, gk, s1); }
//@ after vx_dedup
    let ghost s2 = __this.parallel_moves@;
    proof { dedup_facts(orig, s1, s2); }
//@ loop 1
    invariant __s1@ == s2, __i1 <= s2.len(), sorted(s2), last_dst is Some <==> __i1 > 0, __i1 > 0 ==> last_dst == Some(s2[__i1 - 1].1)
    decreases s2.len() - __i1
//@ loop 2
    invariant __s2@ == s2, __i2 <= s2.len(), __o2@.len() == __i2, forall|k: int| 0 <= k < __i2 ==> __o2@[k] == ((#[trigger] s2[k]).0 != s2[k].1)
    decreases s2.len() - __i2
//@ loop 2 after
    proof { mask = __o2@; }
//@ after vx_retain
    let ghost pm = __this.parallel_moves@;
    proof { kept_facts(s2, mask); retain_facts(orig, s2, mask, pm);
        if forall|i: int, j: int| 0 <= i < pm.len() && 0 <= j < pm.len() ==> (#[trigger] pm[i]).0 != (#[trigger] pm[j]).1 {
            independent(pm, pm.len());
            let st = Seq::new(pm.len(), |i: int| if i >= pm.len() - pm.len() { State::Done } else { State::ToDo });
            assert(pm.subrange(0, pm.len() as int) =~= pm);
            eff_all(pm, st, pm.reverse()); reverse_reverse(pm); lift(orig, pm, pm);
        }
    }
//@ loop 3
    invariant __s3@ == pm, __this.parallel_moves@ == pm, work(pm), no_self(pm), pm.len() <= usize::MAX, __i3 <= pm.len(), __o3@.len() == __i3,
        forall|j: int| 0 <= j < __i3 && #[trigger] __o3@[j] != usize::MAX ==> __o3@[j] < pm.len() && pm[__o3@[j] as int].1 == pm[j].0 && __o3@[j] != j,
        forall|j: int, i: int| 0 <= j < __i3 && 0 <= i < pm.len() && #[trigger] __o3@[j] == usize::MAX ==> (#[trigger] pm[i]).1 != pm[j].0
    decreases pm.len() - __i3
//@ loop 4
    invariant __s4@ == pm, __i4 <= pm.len(), __o4@.len() == __i4, forall|j: int| #![trigger __o4@[j]] #![trigger pm[j]] 0 <= j < __i4 ==> __o4@[j] == pm[j].1
    decreases pm.len() - __i4
//@ collect 3 usize
//@ before let mut ret
    let ghost succ = must_come_before@;
//@ loop 5 before
    proof { eff_none(pm, state@); }
//@ loop 5
    invariant work(pm), no_self(pm), succ_ok(pm, succ), within(pm, orig), __this.parallel_moves@ == pm, must_come_before@ == succ, state@.len() == pm.len(), pm.len() <= usize::MAX, stack_ok(stack@, state@, succ),
        eff(pm, state@, ret@, -1), closed(pm, state@, -1), holes(ret@, false), !scratch_used ==> all_real(ret@), scratch_used ==> exists|c: Seq<Mv<T>>| cycle(orig, c), stack@.len() == 0
    ensures forall|i: int| 0 <= i < pm.len() ==> fin(state@, i)
    decreases todo(state@)
//@ loop 5 begin
    let ghost t5 = todo(state@);
//@ loop 5 bound
    let ghost (sk, st, rt) = (stack@, state@, ret@);
//@ loop 6
    invariant_except_break __o6 is None, __i6 <= state@.len(), forall|k: int| 0 <= k < __i6 ==> state@[k] != State::ToDo
    ensures match __o6 { Some(i) => i < state@.len() && state@[i as int] == State::ToDo, None => forall|k: int| 0 <= k < state@.len() ==> state@[k] != State::ToDo }
    decreases state@.len() - __i6
//@ after state[next] = State::Pending #2
    proof { stack_push(sk, st, succ, next); todo_set(st, next as int, State::Pending); eff_same(pm, st, state@, ret@, -1); }
//@ loop 7
    invariant work(pm), no_self(pm), succ_ok(pm, succ), within(pm, orig), __this.parallel_moves@ == pm, must_come_before@ == succ, state@.len() == pm.len(), pm.len() <= usize::MAX, stack_ok(stack@, state@, succ),
        eff(pm, state@, ret@, -1), closed(pm, state@, -1), holes(ret@, false), !scratch_used ==> all_real(ret@), scratch_used ==> exists|c: Seq<Mv<T>>| cycle(orig, c), todo(state@) < t5
    ensures stack@.len() == 0
    decreases todo(state@), stack@.len()
//@ loop 7 bound
    let ghost (sk, st, rt) = (stack@, state@, ret@);
    let ghost mut rt9 = ret@;
    proof { assert(top == sk[sk.len() - 1]); assert(st[sk[sk.len() - 1] as int] == State::Pending); }
//@ loop 8 before
    proof {
        reads_done(pm, succ, st, top as int); step(pm, st, rt, -1, top as int); stack_pop(sk, st, succ); todo_set(st, top as int, State::Done);
        real_valid(pm[top as int].0); real_valid(pm[top as int].1); holes_push(rt, pm[top as int], false);
        if sk.len() > 1 { assert(succ[sk[sk.len() - 2] as int] == sk[sk.len() - 1]); }
    }
//@ loop 8
    invariant work(pm), no_self(pm), succ_ok(pm, succ), within(pm, orig), __this.parallel_moves@ == pm, must_come_before@ == succ, state@.len() == pm.len(), pm.len() <= usize::MAX, stack_ok(stack@, state@, succ),
        eff(pm, state@, ret@, -1), closed(pm, state@, -1), holes(ret@, false), !scratch_used ==> all_real(ret@), scratch_used ==> exists|c: Seq<Mv<T>>| cycle(orig, c), todo(state@) < t5, todo(state@) == todo(st), stack@.len() > 0 ==> fin(state@, succ[stack@.last() as int] as int)
    ensures stack@.len() == 0
    decreases stack@.len()
//@ loop 8 begin
    let ghost (sk8, st8, rt8) = (stack@, state@, ret@);
//@ loop 8 end
    proof {
        let x = sk8.last() as int; assert(sk8[sk8.len() - 1] == x); assert(st8[x] == State::Pending);
        reads_done(pm, succ, st8, x); step(pm, st8, rt8, -1, x); stack_pop(sk8, st8, succ); todo_set(st8, x, State::Done);
        real_valid(pm[x].0); real_valid(pm[x].1); holes_push(rt8, pm[x], false);
        if sk8.len() > 1 { assert(succ[sk8[sk8.len() - 2] as int] == sk8[sk8.len() - 1]); }
    }
//@ after scratch_used = true
    proof { find_cycle(pm, orig, sk, st, succ, next); }
//@ after ret.push((Allocation::none(), dst, dst_t))
    proof {
        alloc_nil(); real_valid(pm[top as int].0); real_valid(pm[top as int].1);
        hole_open(pm, st, rt, top as int, ret@.last()); stack_pop(sk, st, succ); todo_set(st, top as int, State::Done);
        holes_push(rt, ret@.last(), true);
        if sk.len() > 1 { assert(succ[sk[sk.len() - 2] as int] == sk[sk.len() - 1]); }
        let a = sk.index_of(next); assert(sk[a] == next); assert(stack@[a] == next);
    }
//@ loop 9
    invariant_except_break stack@.contains(next), stack@.len() > 0 ==> fin(state@, succ[stack@.last() as int] as int)
    invariant work(pm), no_self(pm), succ_ok(pm, succ), within(pm, orig), __this.parallel_moves@ == pm, must_come_before@ == succ, state@.len() == pm.len(), pm.len() <= usize::MAX, stack_ok(stack@, state@, succ),
        eff(pm, state@, ret@, top as int), closed(pm, state@, top as int), holes(ret@, true), scratch_used, !scratch_used ==> all_real(ret@), scratch_used ==> exists|c: Seq<Mv<T>>| cycle(orig, c), todo(state@) < t5, todo(state@) == todo(st), top < pm.len(), fin(state@, top as int), next < pm.len(), stack@.len() < sk.len()
    ensures fin(state@, next as int), stack@.len() < sk.len()
    decreases stack@.len()
//@ loop 9 begin
    let ghost (sk9, st9, rt9a) = (stack@, state@, ret@);
//@ before if move_idx == next
    proof {
        let x = sk9.last() as int; assert(sk9[sk9.len() - 1] == x); assert(st9[x] == State::Pending);
        reads_done(pm, succ, st9, x); step(pm, st9, rt9a, top as int, x); stack_pop(sk9, st9, succ); todo_set(st9, x, State::Done);
        real_valid(pm[x].0); real_valid(pm[x].1); holes_push(rt9a, pm[x], true);
        if sk9.len() > 1 { assert(succ[sk9[sk9.len() - 2] as int] == sk9[sk9.len() - 1]); }
        if x != next { let a = sk9.index_of(next); assert(sk9[a] == next); assert(stack@[a] == next); }
    }
//@ loop 9 after
    proof { rt9 = ret@; }
//@ after ret.push((scratch_src, Allocation::none(), vx_default()))
    proof {
        assert(ret@ == rt9.push(ret@.last()));
        assert forall|k: int| 0 <= k < pm.len() && (#[trigger] pm[k]).1 == pm[top as int].0 implies fin(state@, k) by { same_dst(pm, k, next as int); }
        hole_close(pm, state@, rt9, top as int, ret@.last()); holes_push(rt9, ret@.last(), true);
    }
//@ before vx_reverse
    let ghost rr = ret@;
    proof { eff_all(pm, state@, rr); lift(orig, pm, rr.reverse()); holes_done(rr);
        if !scratch_used { assert forall|i: int| 0 <= i < rr.len() implies real((#[trigger] rr.reverse()[i]).0) && real(rr.reverse()[i].1) by { assert(rr.reverse()[i] == rr[rr.len() - 1 - i]); } } }
//@ end
}
fn main() {}
