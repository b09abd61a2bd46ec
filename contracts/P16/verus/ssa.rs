use vstd::prelude::*;
verus! {
//@ type FxHashSet::default VxVars::default
//@ type domtree::dominates domtree_dominates
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/block.rs
//@ include ../../common/verus/error.rs
//@ include ../../common/verus/cfg.rs
//@ include ../../common/verus/dom.rs
//@ include ../../common/verus/func.rs
//@ item src/cfg.rs struct CFGInfo
//@ item src/lib.rs struct ProgPoint
//@ item src/lib.rs enum OperandKind
//@ item src/lib.rs struct PReg
pub assume_specification<'a, T: Copy> [core::option::Option::<&T>::copied] (o: Option<&'a T>) -> (res: Option<T>)
    ensures res == (match o { Some(x) => Some(*x), None => None::<T> });
impl VReg { spec fn num(self) -> nat { (self.bits >> 2u32) as nat } }
//@ fn src/lib.rs VReg::vreg
//@ spec
    ensures res == self.num()
//@ end
// operands are read as P17 proves: variable, kind, and whether they name a register outside the allocator's care
uninterp spec fn var_of(o: Operand) -> VReg;
uninterp spec fn kind_of(o: Operand) -> OperandKind;
uninterp spec fn outside(o: Operand) -> bool;
//@ fn src/lib.rs Operand::vreg external
//@ spec
    ensures res == var_of(self)
//@ end
//@ fn src/lib.rs Operand::kind external
//@ spec
    ensures res == kind_of(self)
//@ end
//@ fn src/lib.rs Operand::as_fixed_nonallocatable external
//@ spec
    ensures res.is_some() == outside(self)
//@ end
/// Standing for FxHashSet<VReg> (verified against the set it denotes).
struct VxVars { v: Vec<VReg> }
impl VxVars {
    spec fn has(self, x: VReg) -> bool { self.v@.contains(x) }
    fn default() -> (res: VxVars) ensures forall|x: VReg| !#[trigger] res.has(x) { VxVars { v: Vec::new() } }
    fn clear(&mut self) ensures forall|x: VReg| !#[trigger] final(self).has(x) { self.v.clear(); }
    fn contains(&self, x: &VReg) -> (res: bool) ensures res == self.has(*x) {
        let mut i: usize = 0;
        while i < self.v.len() invariant i <= self.v@.len(), forall|k: int| 0 <= k < i ==> self.v@[k] != *x decreases self.v@.len() - i
        { if self.v[i].bits == x.bits { assert(self.v@[i as int] == *x); return true; } i = i + 1; }
        false
    }
    fn insert(&mut self, x: VReg) ensures forall|y: VReg| #[trigger] final(self).has(y) <==> old(self).has(y) || y == x {
        let ghost o = self.v@;
        self.v.push(x);
        proof { push_has(o, x); }
    }
    fn extend(&mut self, s: &[VReg]) ensures forall|y: VReg| #[trigger] final(self).has(y) <==> old(self).has(y) || s@.contains(y) {
        let mut i: usize = 0;
        while i < s.len() invariant i <= s@.len(), forall|y: VReg| #[trigger] self.has(y) <==> old(self).has(y) || s@.take(i as int).contains(y) decreases s@.len() - i
        {
            self.insert(s[i]); 
            proof { assert(s@.take(i + 1) =~= s@.take(i as int).push(s@[i as int])); push_has(s@.take(i as int), s@[i as int]); }
            i = i + 1;
        }
        proof { assert(s@.take(i as int) =~= s@); }
    }
}
proof fn push_has<A>(s: Seq<A>, x: A)
    ensures forall|y: A| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x
{
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    assert forall|y: A| s.contains(y) implies #[trigger] t.contains(y) by { let k = s.index_of(y); assert(t[k] == y); }
}
//@ fn src/domtree.rs dominates external as=domtree_dominates
//@ include ../../common/verus/dominates_contract.rs
//@ end
//@ fn src/cfg.rs CFGInfo::dominates
//@ spec
    requires acyclic(self.domtree@), b.0 == u32::MAX || b.0 < self.domtree@.len()
    ensures res == above(self.domtree@, a, b)
//@ end
// ---- definitions, in program order, each with its block
type Defs = Seq<(VReg, Block)>;
spec fn op_defs(ops: Seq<Operand>, k: nat, b: Block) -> Defs decreases k {
    if k == 0 { Seq::empty() } else { let d = op_defs(ops, (k - 1) as nat, b); if kind_of(ops[k - 1]) is Def { d.push((var_of(ops[k - 1]), b)) } else { d } }
}
spec fn own(ps: Seq<VReg>, k: int, b: Block) -> Defs { Seq::new(k as nat, |i: int| (ps[i], b)) }
/// Of the parameters of b and its instructions below n.
spec fn upto<F: Function>(f: F, b: Block, n: nat) -> Defs decreases n {
    if n <= f.v_range(b).0.0 { own(f.v_params(b), f.v_params(b).len() as int, b) } else { upto(f, b, (n - 1) as nat) + op_defs(f.v_ops(Inst((n - 1) as u32)), f.v_ops(Inst((n - 1) as u32)).len(), b) }
}
/// Of the first n blocks.
spec fn all<F: Function>(f: F, n: nat) -> Defs decreases n { if n == 0 { Seq::empty() } else { let b = Block((n - 1) as u32); all(f, (n - 1) as nat) + upto(f, b, f.v_range(b).1.0 as nat) } }
spec fn fine(d: Defs, n: nat) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).0.num() < n
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).0.num() != (#[trigger] d[j]).0.num()
}
spec fn seen(d: Defs, v: VReg) -> bool { exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == v }
/// The j-th definition serves a use of v by instruction i of b.
spec fn serves<F: Function>(f: F, b: Block, i: Inst, v: VReg, j: int) -> bool {
    let d = all(f, f.v_nb());
    0 <= j < d.len() && d[j].0.num() == v.num() && if d[j].1 == b { seen(upto(f, b, i.0 as nat), v) } else { reach(succ_graph(f), f.v_entry(), b) && dom(succ_graph(f), f.v_entry(), d[j].1, b) }
}
spec fn served<F: Function>(f: F, b: Block, i: Inst, o: Operand) -> bool { outside(o) || kind_of(o) is Def || exists|j: int| #[trigger] serves(f, b, i, var_of(o), j) }
spec fn uses_ok<F: Function>(f: F, b: Block, i: Inst, k: int) -> bool { forall|q: int| 0 <= q < k ==> served(f, b, i, #[trigger] f.v_ops(i)[q]) }
spec fn block_uses_ok<F: Function>(f: F, b: Block, n: nat) -> bool { forall|i: Inst| f.v_range(b).0.0 <= i.0 < n ==> #[trigger] uses_ok(f, b, i, f.v_ops(i).len() as int) }
spec fn last_of<F: Function>(f: F, b: Block) -> Inst { Inst((f.v_range(b).1.0 - 1) as u32) }
spec fn args_ok<F: Function>(f: F, b: Block, k: int) -> bool { forall|q: int| 0 <= q < k ==> #[trigger] f.v_args(b, q).len() == f.v_params(f.v_succs(b)[q]).len() }
spec fn ends<F: Function>(f: F, i: Inst) -> bool { f.v_branch(i) || f.v_ret(i) }
/// The instructions of b below n: only the last one ends the block, and passes what its targets want.
spec fn term_ok<F: Function>(f: F, b: Block, n: nat) -> bool {
    forall|i: Inst| f.v_range(b).0.0 <= i.0 < n ==> (#[trigger] ends(f, i) <==> i == last_of(f, b)) && (i == last_of(f, b) && f.v_branch(i) ==> args_ok(f, b, f.v_succs(b).len() as int))
}
spec fn end_of<F: Function>(f: F, b: Block) -> nat { f.v_range(b).1.0 as nat }
spec fn good<F: Function>(f: F) -> bool {
    &&& fine(all(f, f.v_nb()), f.v_vregs())
    &&& forall|b: Block| b.0 < f.v_nb() ==> #[trigger] block_uses_ok(f, b, end_of(f, b))
    &&& forall|b: Block| b.0 < f.v_nb() ==> #[trigger] term_ok(f, b, end_of(f, b))
    &&& f.v_params(f.v_entry()).len() == 0
}
/// The table of the defining block of each variable.
spec fn rel(t: Seq<Block>, d: Defs) -> bool {
    &&& fine(d, t.len())
    &&& forall|i: int| 0 <= i < d.len() ==> t[(#[trigger] d[i]).0.num() as int] == d[i].1 && d[i].1.0 != u32::MAX
    &&& forall|v: int| 0 <= v < t.len() && (#[trigger] t[v]).0 != u32::MAX ==> exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0.num() == v
}
spec fn taken(t: Seq<Block>, v: VReg) -> bool { v.num() >= t.len() || t[v.num() as int].0 != u32::MAX }
spec fn set(t: Seq<Block>, v: VReg, b: Block) -> Seq<Block> { t.update(v.num() as int, b) }
proof fn rel_step(t: Seq<Block>, d: Defs, v: VReg, b: Block)
    requires rel(t, d), b.0 != u32::MAX
    ensures !taken(t, v) ==> rel(set(t, v, b), d.push((v, b))), taken(t, v) ==> !fine(d.push((v, b)), t.len())
{
    let e = d.push((v, b)); let n = d.len() as int;
    assert(e[n] == (v, b));
    assert forall|i: int| 0 <= i < n implies e[i] == d[i] by { }
    if taken(t, v) {
        if v.num() < t.len() {
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0.num() == v.num(); assert(e[i].0.num() == e[n].0.num());
        } else { assert(e[n].0.num() >= t.len()); }
    } else {
        let t2 = set(t, v, b);
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0.num() != v.num() by { }
        assert forall|x: int| 0 <= x < t2.len() && (#[trigger] t2[x]).0 != u32::MAX implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.num() == x by {
            if x == v.num() { assert(e[n].0.num() == x); } else { assert(t[x].0 != u32::MAX); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0.num() == x; assert(e[i].0.num() == x); }
        }
    }
}
spec fn starts(a: Defs, b: Defs) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i] }
proof fn fine_start(a: Defs, b: Defs, n: nat)
    requires starts(a, b), fine(b, n)
    ensures fine(a, n)
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0.num() < n by { assert(a[i] == b[i]); }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0.num() != (#[trigger] a[j]).0.num() by { assert(a[i] == b[i] && a[j] == b[j]); }
}
proof fn op_starts(ops: Seq<Operand>, k: nat, m: nat, b: Block)
    requires k <= m
    ensures starts(op_defs(ops, k, b), op_defs(ops, m, b))
    decreases m
{ if k < m { op_starts(ops, k, (m - 1) as nat, b); } }
proof fn upto_starts<F: Function>(f: F, b: Block, m: nat, n: nat)
    requires m <= n
    ensures starts(upto(f, b, m), upto(f, b, n))
    decreases n
{ if m < n { upto_starts(f, b, m, (n - 1) as nat); if n <= f.v_range(b).0.0 { assert(upto(f, b, m) =~= upto(f, b, n)); } } }
proof fn all_starts<F: Function>(f: F, m: nat, n: nat)
    requires m <= n
    ensures starts(all(f, m), all(f, n))
    decreases n
{ if m < n { all_starts(f, m, (n - 1) as nat); } }
/// A definition that does not fit spoils the whole.
proof fn spoiled<F: Function>(f: F, b: Block, d: Defs)
    requires b.0 < f.v_nb(), starts(d, upto(f, b, end_of(f, b))), !fine(all(f, b.0 as nat) + d, f.v_vregs()), f.v_nb() <= u32::MAX
    ensures !good(f)
{
    let whole = all(f, f.v_nb());
    all_starts(f, (b.0 + 1) as nat, f.v_nb());
    let c = all(f, b.0 as nat); let e = c + d; let x = all(f, (b.0 + 1) as nat);
    assert(Block(((b.0 + 1) as nat - 1) as u32) == b);
    assert(x == c + upto(f, b, end_of(f, b)));
    assert(starts(e, x)) by { assert forall|i: int| 0 <= i < e.len() implies e[i] == #[trigger] x[i] by { if i >= c.len() { assert(e[i] == d[i - c.len()]); assert(x[i] == upto(f, b, end_of(f, b))[i - c.len()]); } } }
    assert(starts(e, whole)) by { assert forall|i: int| 0 <= i < e.len() implies e[i] == #[trigger] whole[i] by { assert(x[i] == e[i]); } }
    if fine(whole, f.v_vregs()) { fine_start(e, whole, f.v_vregs()); }
}
spec fn lookup(t: Seq<Block>, v: VReg) -> Block { if v.num() < t.len() { t[v.num() as int] } else { Block(u32::MAX) } }
/// The test that the code makes for a use.
proof fn use_test<F: Function>(f: F, t: Seq<Block>, dt: Seq<Block>, b: Block, i: Inst, o: Operand)
    requires rel(t, all(f, f.v_nb())), dt.len() == f.v_nb(), answers(succ_graph(f), f.v_entry(), dt), b.0 < f.v_nb(), f.v_nb() <= u32::MAX, !outside(o), kind_of(o) is Use
    ensures ({ let q = lookup(t, var_of(o)); served(f, b, i, o) <==> q.0 != u32::MAX && if q == b { seen(upto(f, b, i.0 as nat), var_of(o)) } else { above(dt, q, b) } })
{
    let v = var_of(o); let d = all(f, f.v_nb()); let q = lookup(t, v); let g = succ_graph(f); let e = f.v_entry();
    if q.0 != u32::MAX {
        let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0.num() == v.num();
        assert(d[j].1 == q);
        if !reach(g, e, b) { assert(dt[b.0 as int].0 == u32::MAX); above_step(dt, q, b); above_none(dt, q, up(dt, b)); }
        if q == b { if seen(upto(f, b, i.0 as nat), v) { assert(serves(f, b, i, v, j)); } }
        else if above(dt, q, b) { assert(serves(f, b, i, v, j)); }
    }
    if served(f, b, i, o) { let j = choose|j: int| #[trigger] serves(f, b, i, v, j); assert(d[j].0.num() == v.num()); assert(t[d[j].0.num() as int] == d[j].1); }
}
//@ fn src/ssa.rs validate_ssa
//@ spec
    requires well_formed(*f), cfginfo.domtree@.len() == f.v_nb(), answers(succ_graph(*f), f.v_entry(), cfginfo.domtree@)
    ensures res is Ok <==> good(*f)
//@ lift def &mut defined_in, block
fn vx_def(defined_in: &mut Vec<Block>, block: Block, $1: VReg, $2: Inst) -> (res: Result<(), RegAllocError>)
    requires block.0 != u32::MAX
    ensures res is Err <==> taken(old(defined_in)@, $1), res is Ok ==> final(defined_in)@ == set(old(defined_in)@, $1, block), res is Err ==> final(defined_in)@ == old(defined_in)@
//@ slice 1
//@ slice 3
//@ slice 6
//@ slice 7
//@ iter 2
//@ iter 5
//@ iter 9
//@ call iter vx_insts
//@ entry
    let ghost nv = f.v_vregs(); let ghost nb = f.v_nb(); let ghost g = succ_graph(*f); let ghost e = f.v_entry(); let ghost dt = cfginfo.domtree@;
//@ loop 0
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), __n0 == nb, __i0 <= nb, defined_in@.len() == nv, rel(defined_in@, all(*f, __i0 as nat))
    decreases nb - __i0
//@ loop 0 begin
    let ghost bl = Block(__i0 as u32); let ghost pre = all(*f, __i0 as nat); let ghost r = f.v_range(bl); let ghost ps = f.v_params(bl);
    proof { assert(r.0.0 < r.1.0); }
//@ loop 0 end
    proof { assert(Block(((bl.0 + 1) as nat - 1) as u32) == bl); assert(all(*f, (bl.0 + 1) as nat) == pre + upto(*f, bl, end_of(*f, bl))); }
//@ loop 1 before
    proof { assert(pre + own(ps, 0, bl) =~= pre); }
//@ loop 1
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), block == bl, bl.0 < nb, pre == all(*f, bl.0 as nat), ps == f.v_params(bl), r == f.v_range(bl), __s1@ == ps, __i1 <= ps.len(), defined_in@.len() == nv, rel(defined_in@, pre + own(ps, __i1 as int, bl))
    decreases ps.len() - __i1
//@ loop 1 begin
    proof {
        let k = __i1 as int; let v = ps[k];
        rel_step(defined_in@, pre + own(ps, k, bl), v, bl);
        assert((pre + own(ps, k, bl)).push((v, bl)) =~= pre + own(ps, k + 1, bl));
        upto_starts(*f, bl, r.0.0 as nat, end_of(*f, bl));
        assert(starts(own(ps, k + 1, bl), upto(*f, bl, end_of(*f, bl)))) by { let w = upto(*f, bl, r.0.0 as nat); let z = upto(*f, bl, end_of(*f, bl)); assert forall|i: int| 0 <= i < k + 1 implies own(ps, k + 1, bl)[i] == #[trigger] z[i] by { assert(w[i] == z[i]); } }
        if taken(defined_in@, v) { spoiled(*f, bl, own(ps, k + 1, bl)); }
    }
//@ loop 2 before
    let ghost mut at = r.0.0;
//@ loop 2
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), block == bl, bl.0 < nb, pre == all(*f, bl.0 as nat), r == f.v_range(bl), r.0.0 <= at <= r.1.0, __it2.wf(), __it2.n == r.1.0,
        match __nx2 { Some(i) => i.0 == at && __it2.i == at + 1 && at < __it2.n, None => at == __it2.n },
        defined_in@.len() == nv, rel(defined_in@, pre + upto(*f, bl, at as nat))
    decreases __it2.n - at
//@ loop 2 begin
    let ghost i0 = Inst(at); let ghost ops = f.v_ops(i0); let ghost du = upto(*f, bl, at as nat);
//@ loop 2 end
    proof {
        assert(upto(*f, bl, (at + 1) as nat) == du + op_defs(ops, ops.len(), bl));
        assert(pre + du + op_defs(ops, ops.len(), bl) =~= pre + (du + op_defs(ops, ops.len(), bl)));
        at = (at + 1) as u32;
    }
//@ loop 3 before
    proof { assert(pre + du + op_defs(ops, 0, bl) =~= pre + du); }
//@ loop 3
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), block == bl, bl.0 < nb, pre == all(*f, bl.0 as nat), r == f.v_range(bl), r.0.0 <= at < r.1.0, i0.0 == at, inst == i0, ops == f.v_ops(i0), du == upto(*f, bl, at as nat),
        __s3@ == ops, __i3 <= ops.len(), defined_in@.len() == nv, rel(defined_in@, pre + du + op_defs(ops, __i3 as nat, bl))
    decreases ops.len() - __i3
//@ loop 3 begin
    proof {
        let k = __i3 as nat; let o = ops[k as int]; let v = var_of(o); let d0 = op_defs(ops, k, bl);
        if kind_of(o) is Def {
            rel_step(defined_in@, pre + du + d0, v, bl);
            assert(op_defs(ops, k + 1, bl) == d0.push((v, bl)));
            assert((pre + du + d0).push((v, bl)) =~= pre + du + d0.push((v, bl)));
            let d1 = du + d0.push((v, bl)); let z = upto(*f, bl, end_of(*f, bl)); let y = upto(*f, bl, (at + 1) as nat);
            assert(pre + du + d0.push((v, bl)) =~= pre + d1);
            op_starts(ops, k + 1, ops.len(), bl);
            assert(y == du + op_defs(ops, ops.len(), bl));
            upto_starts(*f, bl, (at + 1) as nat, end_of(*f, bl));
            assert(starts(d1, z)) by { assert forall|i: int| 0 <= i < d1.len() implies d1[i] == #[trigger] z[i] by { assert(y[i] == z[i]); if i >= du.len() { assert(y[i] == op_defs(ops, ops.len(), bl)[i - du.len()]); assert(d1[i] == d0.push((v, bl))[i - du.len()]); } } }
            if taken(defined_in@, v) { spoiled(*f, bl, d1); }
        } else { assert(op_defs(ops, k + 1, bl) == d0); }
    }
//@ before let mut local
    let ghost t = defined_in@;
//@ loop 4
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), g == succ_graph(*f), e == f.v_entry(), dt == cfginfo.domtree@, dt.len() == nb, answers(g, e, dt), __n4 == nb, __i4 <= nb, defined_in@ == t, rel(t, all(*f, nb)),
        forall|b: Block| b.0 < __i4 ==> #[trigger] block_uses_ok(*f, b, end_of(*f, b))
    decreases nb - __i4
//@ loop 4 begin
    let ghost bl = Block(__i4 as u32); let ghost r = f.v_range(bl);
    proof { assert(r.0.0 < r.1.0); }
//@ loop 4 end
    proof { assert forall|b: Block| b.0 < bl.0 + 1 implies #[trigger] block_uses_ok(*f, b, end_of(*f, b)) by { if b.0 == bl.0 { assert(b == bl); } } }
//@ loop 5 before
    let ghost mut at = r.0.0;
    proof { own_seen(f.v_params(bl), bl); }
//@ loop 5
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), g == succ_graph(*f), e == f.v_entry(), dt == cfginfo.domtree@, dt.len() == nb, answers(g, e, dt), defined_in@ == t, rel(t, all(*f, nb)),
        block == bl, bl.0 < nb, r == f.v_range(bl), r.0.0 <= at <= r.1.0, __it5.wf(), __it5.n == r.1.0,
        match __nx5 { Some(i) => i.0 == at && __it5.i == at + 1 && at < __it5.n, None => at == __it5.n },
        block_uses_ok(*f, bl, at as nat), forall|v: VReg| #[trigger] local.has(v) <==> seen(upto(*f, bl, at as nat), v)
    decreases __it5.n - at
//@ loop 5 begin
    let ghost i0 = Inst(at); let ghost ops = f.v_ops(i0); let ghost du = upto(*f, bl, at as nat);
//@ loop 5 end
    proof {
        assert(upto(*f, bl, (at + 1) as nat) == du + op_defs(ops, ops.len(), bl));
        assert forall|i: Inst| f.v_range(bl).0.0 <= i.0 < at + 1 implies #[trigger] uses_ok(*f, bl, i, f.v_ops(i).len() as int) by { if i.0 == at { assert(i == i0); } }
        at = (at + 1) as u32;
    }
//@ loop 6
    invariant well_formed(*f), nb == f.v_nb(), nv == f.v_vregs(), g == succ_graph(*f), e == f.v_entry(), dt == cfginfo.domtree@, dt.len() == nb, answers(g, e, dt), defined_in@ == t, rel(t, all(*f, nb)),
        block == bl, bl.0 < nb, r == f.v_range(bl), r.0.0 <= at < r.1.0, i0.0 == at, iix == i0, ops == f.v_ops(i0), du == upto(*f, bl, at as nat), __s6@ == ops, __i6 <= ops.len(),
        uses_ok(*f, bl, i0, __i6 as int), forall|v: VReg| #[trigger] local.has(v) <==> seen(du, v)
    decreases ops.len() - __i6
//@ loop 6 begin
    proof {
        let o = ops[__i6 as int];
        if !outside(o) && kind_of(o) is Use { use_test(*f, t, dt, bl, i0, o); }
        if served(*f, bl, i0, o) { assert(uses_ok(*f, bl, i0, __i6 + 1)); }
        else if good(*f) { assert(block_uses_ok(*f, bl, end_of(*f, bl))); assert(uses_ok(*f, bl, i0, ops.len() as int)); assert(served(*f, bl, i0, f.v_ops(i0)[__i6 as int])); }
    }
//@ loop 7 before
    proof { assert(du + op_defs(ops, 0, bl) =~= du); }
//@ loop 7
    invariant ops == f.v_ops(i0), __s7@ == ops, __i7 <= ops.len(), forall|v: VReg| #[trigger] local.has(v) <==> seen(du + op_defs(ops, __i7 as nat, bl), v)
    decreases ops.len() - __i7
//@ loop 7 begin
    let ghost loc0 = local;
    proof {
        let k = __i7 as nat; let o = ops[k as int]; let d0 = op_defs(ops, k, bl);
        if kind_of(o) is Def { assert(du + op_defs(ops, k + 1, bl) =~= (du + d0).push((var_of(o), bl))); seen_push(du + d0, var_of(o), bl); } else { assert(op_defs(ops, k + 1, bl) == d0); }
    }
//@ loop 8
    invariant well_formed(*f), nb == f.v_nb(), __n8 == nb, __i8 <= nb, forall|b: Block| b.0 < __i8 ==> #[trigger] term_ok(*f, b, end_of(*f, b))
    decreases nb - __i8
//@ loop 8 begin
    let ghost bl = Block(__i8 as u32); let ghost r = f.v_range(bl);
    proof { assert(r.0.0 < r.1.0); }
//@ loop 8 end
    proof { assert forall|b: Block| b.0 < bl.0 + 1 implies #[trigger] term_ok(*f, b, end_of(*f, b)) by { if b.0 == bl.0 { assert(b == bl); } } }
//@ loop 9 before
    let ghost mut at = r.0.0;
//@ loop 9
    invariant well_formed(*f), nb == f.v_nb(), block == bl, bl.0 < nb, r == f.v_range(bl), insns == r, r.0.0 <= at <= r.1.0, __it9.wf(), __it9.n == r.1.0,
        match __nx9 { Some(i) => i.0 == at && __it9.i == at + 1 && at < __it9.n, None => at == __it9.n },
        term_ok(*f, bl, at as nat)
    decreases __it9.n - at
//@ loop 9 begin
    let ghost i0 = Inst(at);
    proof { if good(*f) { assert(term_ok(*f, bl, end_of(*f, bl))); assert(ends(*f, i0) <==> i0 == last_of(*f, bl)); } }
//@ loop 9 end
    proof {
        assert forall|i: Inst| f.v_range(bl).0.0 <= i.0 < at + 1 implies (#[trigger] ends(*f, i) <==> i == last_of(*f, bl)) && (i == last_of(*f, bl) && f.v_branch(i) ==> args_ok(*f, bl, f.v_succs(bl).len() as int)) by { if i.0 == at { assert(i == i0); } }
        at = (at + 1) as u32;
    }
//@ loop 10
    invariant well_formed(*f), nb == f.v_nb(), block == bl, bl.0 < nb, r == f.v_range(bl), insn == last_of(*f, bl), f.v_branch(insn), __s10@ == f.v_succs(bl), __i10 <= f.v_succs(bl).len(), args_ok(*f, bl, __i10 as int)
    decreases __s10@.len() - __i10
//@ loop 10 begin
    proof {
        assert(f.v_succs(bl).contains(__s10@[__i10 as int]));
        if good(*f) { assert(term_ok(*f, bl, end_of(*f, bl))); assert(ends(*f, last_of(*f, bl))); assert(args_ok(*f, bl, f.v_succs(bl).len() as int)); assert(f.v_args(bl, __i10 as int).len() == f.v_params(f.v_succs(bl)[__i10 as int]).len()); }
    }
//@ end
proof fn own_seen(ps: Seq<VReg>, b: Block)
    ensures forall|v: VReg| #[trigger] seen(own(ps, ps.len() as int, b), v) <==> ps.contains(v)
{
    let d = own(ps, ps.len() as int, b);
    assert forall|v: VReg| #[trigger] seen(d, v) <==> ps.contains(v) by {
        if seen(d, v) { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == v; assert(ps[j] == v); }
        if ps.contains(v) { let j = ps.index_of(v); assert(d[j].0 == v); }
    }
}
proof fn seen_push(d: Defs, x: VReg, b: Block)
    ensures forall|v: VReg| #[trigger] seen(d.push((x, b)), v) <==> seen(d, v) || v == x
{
    let e = d.push((x, b));
    assert forall|v: VReg| #[trigger] seen(e, v) <==> seen(d, v) || v == x by {
        if seen(e, v) { let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j]).0 == v; if j < d.len() { assert(d[j].0 == v); } }
        if seen(d, v) { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == v; assert(e[j].0 == v); }
        if v == x { assert(e[d.len() as int].0 == v); }
    }
}
}
fn main() {}
