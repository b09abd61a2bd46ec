use vstd::prelude::*;
verus! {
//@ type FxHashMap VxMap
//@ include ../../common/verus/prelude.rs
//@ include ../../common/verus/alloc.rs
//@ item src/lib.rs enum RegClass
//@ item src/lib.rs struct VReg
/// Standing for hashbrown's map, under its documented contract.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> VxMap<K, V> {
    uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn get(&self, k: &K) -> (res: Option<&V>)
        ensures match res { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (res: Option<&mut V>)
        ensures match res {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V)
        ensures final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K)
        ensures final(self)@ == old(self)@.remove(*k)
    { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty()
    { unimplemented!() }
    /// entry(k).or_insert_with(|| v)
    #[verifier::external_body]
    fn vx_or_insert(&mut self, k: K, v: V) -> (res: &mut V)
        ensures *res == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(res))
    { unimplemented!() }
}
fn vx_drain<T>(v: &mut Vec<T>) -> (res: Vec<T>)
    ensures res@ == old(v)@, final(v)@.len() == 0
{ let mut r = Vec::new(); r.append(v); proof { assert(r@ =~= old(v)@); } r }
pub assume_specification<'a, T: Copy> [core::option::Option::<&T>::copied] (o: Option<&'a T>) -> (res: Option<T>)
    ensures res == (match o { Some(x) => Some(*x), None => None::<T> });
//@ item src/ion/redundant_moves.rs enum RedundantMoveState
//@ item src/ion/redundant_moves.rs struct RedundantMoveEliminator derive()
//@ item src/ion/redundant_moves.rs struct RedundantMoveAction
pub assume_specification<T> [core::option::Option::<T>::or] (a: Option<T>, b: Option<T>) -> (res: Option<T>)
    ensures res == (if a is Some { a } else { b });
//@ fn src/lib.rs Allocation::is_reg
//@ spec
    requires self.k() <= 2
    ensures res == (self.k() == 1)
//@ end
// ---- what the tracker claims, over any contents of the locations
type Mem = spec_fn(Allocation) -> int;
spec fn put(m: Mem, d: Allocation, v: int) -> Mem { |a: Allocation| if a == d { v } else { m(a) } }
impl RedundantMoveEliminator {
    /// `to` is recorded as a copy of `from`.
    spec fn copy(&self, from: Allocation, to: Allocation) -> bool { self.allocs@.contains_key(to) && self.allocs@[to] is Copy && self.allocs@[to]->Copy_0 == from }
    /// Every recorded copy is true of the contents m.
    spec fn sound(&self, m: Mem) -> bool { forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) ==> m(f) == m(t) }
    /// Every recorded copy is found from its source.
    spec fn linked(&self) -> bool { forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) ==> self.reverse_allocs@.contains_key(f) && self.reverse_allocs@[f]@.contains(t) }
}
/// m2 is m, but for what a holds.
spec fn but(m: Mem, m2: Mem, a: Allocation) -> bool { forall|x: Allocation| x != a ==> #[trigger] m2(x) == m(x) }
//@ fn src/ion/redundant_moves.rs RedundantMoveEliminator::clear
//@ spec
    ensures final(self).linked(), forall|m: Mem| #[trigger] final(self).sound(m), forall|f: Allocation, t: Allocation| !#[trigger] final(self).copy(f, t)
//@ end
//@ fn src/ion/redundant_moves.rs RedundantMoveEliminator::clear_alloc
//@ spec
    requires old(self).linked()
    ensures final(self).linked(), forall|f: Allocation, t: Allocation| #[trigger] final(self).copy(f, t) ==> old(self).copy(f, t) && f != alloc && t != alloc,
        forall|m: Mem, m2: Mem| old(self).sound(m) && #[trigger] but(m, m2, alloc) ==> final(self).sound(m2)
//@ entry
    let ghost a0 = self.allocs@; let ghost r0 = self.reverse_allocs@; let ghost this = *self;
//@ loop 0
    invariant forall|k: Allocation| #[trigger] self.allocs@.contains_key(k) ==> a0.contains_key(k) && self.allocs@[k] == a0[k],
        forall|j: int| 0 <= j < __i0 ==> !self.allocs@.contains_key(#[trigger] __s0@[j]), __i0 <= __s0@.len()
    decreases __s0@.len() - __i0
//@ exit
    proof {
        assert forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) implies this.copy(f, t) && f != alloc && t != alloc by {
            assert(self.allocs@.contains_key(t)); assert(this.copy(f, t));
            if f == alloc { assert(r0[f]@.contains(t)); }
        }
        assert forall|m: Mem, m2: Mem| this.sound(m) && #[trigger] but(m, m2, alloc) implies self.sound(m2) by {
            assert forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) implies m2(f) == m2(t) by { assert(this.copy(f, t)); }
        }
    }
//@ end
//@ fn src/ion/redundant_moves.rs RedundantMoveEliminator::process_move
//@ spec
    requires old(self).linked(), from.k() <= 2, to.k() <= 2
    ensures final(self).linked(),
        forall|m: Mem| #[trigger] old(self).sound(m) ==> (res.elide ==> m(from) == m(to)) && final(self).sound(put(m, to, m(from)))
//@ entry
    let ghost this = *self;
//@ before return RedundantMoveAction { elide: true };
    proof {
        assert(self.linked()) by {
            assert forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) implies self.reverse_allocs@.contains_key(f) && self.reverse_allocs@[f]@.contains(t) by { assert(mid.copy(f, t)); }
        }
        assert forall|m: Mem| #[trigger] this.sound(m) implies self.sound(put(m, to, m(from))) by {
            let m2 = put(m, to, m(from));
            assert forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) implies m2(f) == m2(t) by { assert(mid.copy(f, t)); assert(this.copy(f, t)); }
        }
    }
//@ before self.allocs.insert(to, RedundantMoveState::Orig(to_vreg.unwrap()));
    let ghost mid = *self;
//@ before if from.is_reg() || to.is_reg()
    let ghost mid = *self;
    proof {
        assert(mid.linked());
        assert forall|f: Allocation, t: Allocation| #[trigger] mid.copy(f, t) implies this.copy(f, t) && (elide || f != to && t != to) by {}
        assert(elide ==> this.copy(from, to) || this.copy(to, from));
    }
//@ exit
    proof {
        assert forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) implies (f == from && t == to || mid.copy(f, t)) && self.reverse_allocs@.contains_key(f) && self.reverse_allocs@[f]@.contains(t) by {
            if f == from && t == to && !mid.copy(f, t) {
                let l = self.reverse_allocs@[from]@;
                assert(l.last() == to); assert(l[l.len() - 1] == to);
            } else {
                assert(mid.copy(f, t));
                let o = mid.reverse_allocs@[f]@; let j = choose|j: int| 0 <= j < o.len() && o[j] == t;
                let l = self.reverse_allocs@[f]@;
                assert(l[j] == t);
            }
        }
        assert forall|m: Mem| #[trigger] this.sound(m) implies (__res.elide ==> m(from) == m(to)) && self.sound(put(m, to, m(from))) by {
            let m2 = put(m, to, m(from));
            if elide { assert(this.copy(from, to) || this.copy(to, from)); assert(m(from) == m(to)); }
            assert forall|f: Allocation, t: Allocation| #[trigger] self.copy(f, t) implies m2(f) == m2(t) by {
                if !(f == from && t == to) { assert(mid.copy(f, t)); assert(this.copy(f, t)); }
            }
        }
    }
//@ end
}
fn main() {}
