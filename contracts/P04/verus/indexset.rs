use vstd::prelude::*;
verus! {
//@ type FxHashMap VxMap
//@ type hashbrown::hash_map::Iter VxMapIter
//@ include ../../common/verus/prelude.rs
global size_of usize == 8;
/// Standing for hashbrown's map, under its documented contract.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxMap<K, V> { k: core::marker::PhantomData<(K, V)> }
/// Its iterator: what is still to be yielded.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VxMapIter<'a, K, V> { k: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> VxMapIter<'a, K, V> {
    uninterp spec fn rem(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    fn next(&mut self) -> (res: Option<(&'a K, &'a V)>)
        ensures
            res is None <==> old(self).rem().len() == 0, res is None ==> final(self).rem() == old(self).rem(),
            res matches Some(p) ==> (*p.0, *p.1) == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first()
    { unimplemented!() }
}
impl<K, V> VxMap<K, V> {
    uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn get(&self, k: &K) -> (res: Option<&V>)
        ensures match res { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (res: Option<&mut V>)
        ensures match res {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    fn vx_or_insert(&mut self, k: K, v: V) -> (res: &mut V)
        ensures *res == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(res))
    { unimplemented!() }
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (res: VxMapIter<'a, K, V>)
        ensures
            forall|i: int, j: int| 0 <= i < j < res.rem().len() ==> (#[trigger] res.rem()[i]).0 != (#[trigger] res.rem()[j]).0,
            forall|i: int| 0 <= i < res.rem().len() ==> self@.contains_key((#[trigger] res.rem()[i]).0) && self@[res.rem()[i].0] == res.rem()[i].1,
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < res.rem().len() && (#[trigger] res.rem()[i]).0 == k
    { unimplemented!() }
}
/// Collecting pairs into a map, the keys being distinct.
#[verifier::external_body]
fn vx_zip_collect(k: &[u32], v: &[u64]) -> (res: VxMap<u32, u64>)
    requires k@.len() == v@.len(), forall|i: int, j: int| 0 <= i < j < k@.len() ==> k@[i] != k@[j]
    ensures forall|x: u32| #[trigger] res@.contains_key(x) <==> k@.contains(x),
        forall|i: int| 0 <= i < k@.len() ==> res@.contains_key(#[trigger] k@[i]) && res@[k@[i]] == v@[i]
{ unimplemented!() }
trait VxSub<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (res: &'a [T]) requires a <= b <= self.vx_seq().len() ensures res@ == self.vx_seq().subrange(a as int, b as int);
    fn vx_from<'a>(&'a self, a: usize) -> (res: &'a [T]) requires a <= self.vx_seq().len() ensures res@ == self.vx_seq().subrange(a as int, self.vx_seq().len() as int);
}
impl<T> VxSub<T> for [T] {
    spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (res: &'a [T]) { &self[a..b] }
    #[verifier::external_body]
    fn vx_from<'a>(&'a self, a: usize) -> (res: &'a [T]) { &self[a..] }
}
//@ item src/indexset.rs const SMALL_ELEMS
//@ item src/indexset.rs const INVALID
//@ item src/indexset.rs const BITS_PER_WORD
//@ item src/indexset.rs enum AdaptiveMap derive()
//@ item src/indexset.rs enum AdaptiveMapIter
//@ item src/indexset.rs struct IndexSet derive()
spec fn inw(keys: Seq<u32>, len: u32, k: u32) -> bool { exists|i: int| 0 <= i < len && #[trigger] keys[i] == k }
/// The value at the key among the first len entries; zero where there is none.
#[verifier::opaque]
spec fn look(keys: Seq<u32>, values: Seq<u64>, len: u32, k: u32) -> u64 { if inw(keys, len, k) { values[choose|i: int| 0 <= i < len && #[trigger] keys[i] == k] } else { 0 } }
spec fn apart(keys: Seq<u32>, len: u32) -> bool { forall|i: int, j: int| 0 <= i < j < len ==> keys[i] != keys[j] }
proof fn look_at(keys: Seq<u32>, values: Seq<u64>, len: u32, i: int)
    requires apart(keys, len), 0 <= i < len
    ensures look(keys, values, len, keys[i]) == values[i]
{ reveal(look); let k = keys[i]; assert(inw(keys, len, k)); let j = choose|i: int| 0 <= i < len && #[trigger] keys[i] == k; assert(i == j || i < j || j < i); }
proof fn look_none(keys: Seq<u32>, values: Seq<u64>, len: u32, k: u32)
    requires forall|j: int| 0 <= j < len ==> keys[j] != k
    ensures look(keys, values, len, k) == 0
{ reveal(look); }
proof fn look_all(keys: Seq<u32>, values: Seq<u64>, len: u32)
    requires apart(keys, len)
    ensures forall|i: int| 0 <= i < len ==> look(keys, values, len, #[trigger] keys[i]) == values[i],
        forall|k: u32| #[trigger] look(keys, values, len, k) == 0 || exists|i: int| 0 <= i < len && #[trigger] keys[i] == k
{
    assert forall|i: int| 0 <= i < len implies look(keys, values, len, #[trigger] keys[i]) == values[i] by { look_at(keys, values, len, i); }
    assert forall|k: u32| #[trigger] look(keys, values, len, k) == 0 || exists|i: int| 0 <= i < len && #[trigger] keys[i] == k by { if !inw(keys, len, k) { look_none(keys, values, len, k); } }
}
/// Changing the entry of one key changes that key's value alone.
proof fn look_update(keys: Seq<u32>, values: Seq<u64>, len: u32, i: int, w: u64, k: u32)
    requires apart(keys, len), 0 <= i < len, len <= values.len()
    ensures look(keys, values.update(i, w), len, k) == (if k == keys[i] { w } else { look(keys, values, len, k) })
{
    if inw(keys, len, k) { let j = choose|j: int| 0 <= j < len && #[trigger] keys[j] == k; look_at(keys, values, len, j); look_at(keys, values.update(i, w), len, j); }
    else { look_none(keys, values, len, k); look_none(keys, values.update(i, w), len, k); }
}
proof fn look_updates(keys: Seq<u32>, values: Seq<u64>, len: u32, i: int)
    requires apart(keys, len), 0 <= i < len, len <= values.len()
    ensures forall|w: u64, k: u32| #[trigger] look(keys, values.update(i, w), len, k) == (if k == keys[i] { w } else { look(keys, values, len, k) })
{ assert forall|w: u64, k: u32| #[trigger] look(keys, values.update(i, w), len, k) == (if k == keys[i] { w } else { look(keys, values, len, k) }) by { look_update(keys, values, len, i, w, k); } }
/// Entry i is given another key, not yet present (a new last entry, or one whose value was zero).
proof fn look_rekey(keys: Seq<u32>, values: Seq<u64>, len: u32, keys2: Seq<u32>, values2: Seq<u64>, len2: u32, i: int, key: u32, k: u32)
    requires apart(keys, len), len2 <= keys.len(), keys.len() == values.len(), 0 <= i < len2,
        (len2 == len && values[i] == 0) || (len2 == len + 1 && i == len), forall|j: int| 0 <= j < len ==> keys[j] != key,
        keys2 == keys.update(i, key), values2 == values.update(i, 0)
    ensures apart(keys2, len2), look(keys2, values2, len2, k) == look(keys, values, len, k)
{
    assert(apart(keys2, len2));
    if k == key { look_none(keys, values, len, k); look_at(keys2, values2, len2, i); }
    else if inw(keys, len, k) {
        let j = choose|j: int| 0 <= j < len && #[trigger] keys[j] == k; look_at(keys, values, len, j);
        if j == i { look_none(keys2, values2, len2, k); } else { assert(keys2[j] == k); look_at(keys2, values2, len2, j); }
    } else { look_none(keys, values, len, k); assert forall|j: int| 0 <= j < len2 implies keys2[j] != k by { if j != i { assert(keys2[j] == keys[j]); } } look_none(keys2, values2, len2, k); }
}
impl AdaptiveMap {
    spec fn wf(self) -> bool {
        match self {
            AdaptiveMap::Small { len, keys, values } => len <= 12 && apart(keys@, len),
            AdaptiveMap::Large(m) => true,
        }
    }
    spec fn has(self, k: u32) -> bool {
        match self {
            AdaptiveMap::Small { len, keys, values } => inw(keys@, len, k),
            AdaptiveMap::Large(m) => m@.contains_key(k),
        }
    }
    /// The word of a key; zero where there is none.
    spec fn at(self, k: u32) -> u64 {
        match self {
            AdaptiveMap::Small { len, keys, values } => look(keys@, values@, len, k),
            AdaptiveMap::Large(m) => if m@.contains_key(k) { m@[k] } else { 0 },
        }
    }
}
//@ fn src/indexset.rs AdaptiveMap::new
//@ spec
    ensures res.wf(), forall|k: u32| #[trigger] res.at(k) == 0
//@ exit
    proof { if let AdaptiveMap::Small { len, keys, values } = __res { assert forall|k: u32| #[trigger] __res.at(k) == 0 by { look_none(keys@, values@, len, k); } } }
//@ end
//@ fn src/indexset.rs AdaptiveMap::get_or_insert
//@ attr verifier::loop_isolation(false)
//@ attr verifier::allow_complex_invariants
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), *res == old(self).at(key), final(self).at(key) == *final(res),
        forall|k: u32| k != key ==> #[trigger] final(self).at(k) == old(self).at(k)
//@ loop 0
    invariant_except_break __i0 <= __s0@.len(), __o0 is None, forall|j: int| 0 <= j < __i0 ==> __s0@[j] != key
    ensures __o0 matches Some(i) ==> i < __s0@.len() && __s0@[i as int] == key,
        __o0 is None ==> forall|j: int| 0 <= j < __s0@.len() ==> __s0@[j] != key
    decreases __s0@.len() - __i0
//@ loop 1
    invariant_except_break __i1 <= values@.len(), __o1 is None
    invariant __o1 matches Some(i) ==> i < values@.len() && values@[i as int] == 0
    ensures __o1 matches Some(i) ==> i < values@.len() && values@[i as int] == 0
    decreases values@.len() - __i1
//@ entry
    let ghost before = *self;
    proof { if let AdaptiveMap::Small { len, keys, values } = before { look_all(keys@, values@, len); } }
//@ before keys[i] = key
    let ghost kk = keys@;
    proof {
        assert(values@.update(i as int, 0) =~= values@);
        assert(apart(kk.update(i as int, key), len) && forall|k: u32| #[trigger] look(kk.update(i as int, key), values@, len, k) == look(kk, values@, len, k)) by {
            assert forall|k: u32| #[trigger] look(kk.update(i as int, key), values@, len, k) == look(kk, values@, len, k) by { look_rekey(kk, values@, len, kk.update(i as int, key), values@, len, i as int, key, k); }
            look_rekey(kk, values@, len, kk.update(i as int, key), values@, len, i as int, key, 0);
        }
    }
//@ before match self
    assert((*self).wf() && forall|k: u32| #[trigger] (*self).at(k) == before.at(k));
    assert(small_mode_idx matches Some(i) ==> *self matches AdaptiveMap::Small { len, keys, values } && i < len && keys@[i as int] == key);
//@ before return &mut values
    proof { look_all(keys@, values@, *len); look_updates(keys@, values@, *len, i as int); }
//@ before keys[idx] = key
    let ghost kk = keys@; let ghost vv = values@;
//@ after values[idx] = 0
    proof {
        assert forall|k: u32| #[trigger] look(keys@, values@, *len, k) == look(kk, vv, idx as u32, k) by { look_rekey(kk, vv, idx as u32, keys@, values@, *len, idx as int, key, k); }
        look_rekey(kk, vv, idx as u32, keys@, values@, *len, idx as int, key, 0);
        look_updates(keys@, values@, *len, idx as int);
    }
//@ loop 0 after
    proof { if __o0 is None { assert forall|j: int| 0 <= j < len implies keys@[j] != key by { assert(keys@[j] == __s0@[j]); } } }
//@ end
//@ fn src/indexset.rs AdaptiveMap::get_mut
//@ attr verifier::loop_isolation(false)
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), res is None ==> old(self).at(key) == 0 && final(self).at(key) == 0,
        res matches Some(w) ==> *w == old(self).at(key) && final(self).at(key) == *final(w),
        forall|k: u32| k != key ==> #[trigger] final(self).at(k) == old(self).at(k)
//@ loop 0 before
    let ghost vv = values@;
    let ghost fin = *final(values);
//@ loop 0
    invariant values@ == vv, *final(values) == fin, __n0 == len, len <= 12, 0 <= __i0 <= len, forall|j: int| 0 <= j < __i0 ==> keys@[j] != key
    decreases len - __i0
//@ before return Some(&mut values
    proof { look_all(keys@, values@, len); look_updates(keys@, values@, len, i as int); }
//@ loop 0 after
    proof { look_all(keys@, values@, len); }
//@ end
//@ fn src/indexset.rs AdaptiveMap::get
//@ attr verifier::loop_isolation(false)
//@ spec
    requires self.wf()
    ensures res is None ==> self.at(key) == 0, res matches Some(w) ==> w == self.at(key)
//@ loop 0 before
    proof { look_all(keys@, values@, len); }
//@ loop 0
    invariant __n0 == len, len <= 12, 0 <= __i0 <= len, forall|j: int| 0 <= j < __i0 ==> keys@[j] != key
    decreases len - __i0
//@ end
//@ fn src/indexset.rs AdaptiveMap::iter
//@ spec
    requires self.wf()
    ensures res.wf(), distinct(res.rem()),
        forall|i: int| 0 <= i < res.rem().len() ==> (#[trigger] res.rem()[i]).1 == self.at(res.rem()[i].0),
        forall|k: u32| #[trigger] self.at(k) != 0 ==> exists|i: int| 0 <= i < res.rem().len() && (#[trigger] res.rem()[i]).0 == k
//@ entry
    proof { if let AdaptiveMap::Small { len, keys, values } = self { look_all(keys@, values@, *len); } }
//@ exit
    proof {
        assert forall|k: u32| #[trigger] self.at(k) != 0 implies exists|i: int| 0 <= i < __res.rem().len() && (#[trigger] __res.rem()[i]).0 == k by {
            if let AdaptiveMap::Small { len, keys, values } = *self { let i = choose|i: int| 0 <= i < len && #[trigger] keys@[i] == k; assert(__res.rem()[i].0 == k); }
            else if let AdaptiveMap::Large(m) = *self { assert(m@.contains_key(k)); if let AdaptiveMapIter::Large(it) = __res { let i = choose|i: int| 0 <= i < it.rem().len() && (#[trigger] it.rem()[i]).0 == k; assert(__res.rem()[i].0 == k); } }
        }
    }
//@ end
spec fn distinct(s: Seq<(u32, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
impl<'a> AdaptiveMapIter<'a> {
    spec fn wf(self) -> bool { match self { AdaptiveMapIter::Small(k, v) => k@.len() == v@.len(), AdaptiveMapIter::Large(_) => true } }
    spec fn rem(self) -> Seq<(u32, u64)> {
        match self { AdaptiveMapIter::Small(k, v) => Seq::new(k@.len(), |i: int| (k@[i], v@[i])), AdaptiveMapIter::Large(it) => it.rem() }
    }
}
//@ fn src/indexset.rs AdaptiveMapIter::next
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), res is None <==> old(self).rem().len() == 0, res is None ==> final(self).rem() == old(self).rem(),
        res matches Some(p) ==> p == old(self).rem()[0] && final(self).rem() =~= old(self).rem().drop_first() && old(self).rem() =~= seq![p] + final(self).rem(),
        res is None ==> old(self).rem() =~= Seq::<(u32, u64)>::empty()
//@ end
/// A `for` over an iterator is a loop over its `next`.
fn vx_into_iter<'a>(x: AdaptiveMapIter<'a>) -> (res: AdaptiveMapIter<'a>) ensures res == x { x }
spec fn bit(w: u64, i: int) -> bool { (w >> (i as u64)) & 1u64 == 1u64 }
/// A word with one bit set or cleared.
spec fn put(w: u64, i: int, val: bool) -> u64 { if val { w | (1u64 << (i as u64)) } else { w & !(1u64 << (i as u64)) } }
proof fn put_bits(w: u64, i: u64, val: bool)
    requires i < 64
    ensures forall|j: int| 0 <= j < 64 ==> #[trigger] bit(put(w, i as int, val), j) == (if j == i { val } else { bit(w, j) })
{
    assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(put(w, i as int, val), j) == (if j == i { val } else { bit(w, j) }) by {
        bits_of(w, 0, i); if j != i { other_bits(w, i, j as u64); }
    }
}
impl IndexSet {
    spec fn wf(self) -> bool { self.elems.wf() }
    /// The set's members.
    spec fn mem(self, i: int) -> bool { bit(self.elems.at((i / 64) as u32), i % 64) }
}
spec fn fits(i: int) -> bool { 0 <= i < 0x40_0000_0000 }
//@ fn src/indexset.rs IndexSet::new
//@ spec
    ensures res.wf(), forall|i: int| fits(i) ==> !#[trigger] res.mem(i)
//@ exit
    proof { assert forall|i: int| fits(i) implies !#[trigger] __res.mem(i) by { zero_bits((i % 64) as u64); } }
//@ end
//@ fn src/indexset.rs IndexSet::elem
//@ spec
    requires old(self).wf(), fits(bit_index as int)
    ensures final(self).wf(), *res == old(self).elems.at((bit_index / 64) as u32), final(self).elems.at((bit_index / 64) as u32) == *final(res),
        forall|k: u32| k != (bit_index / 64) as u32 ==> #[trigger] final(self).elems.at(k) == old(self).elems.at(k)
//@ end
//@ fn src/indexset.rs IndexSet::maybe_elem_mut
//@ spec
    requires old(self).wf(), fits(bit_index as int)
    ensures final(self).wf(), ({ let key = (bit_index / 64) as u32;
        &&& res is None ==> old(self).elems.at(key) == 0 && final(self).elems.at(key) == 0
        &&& res matches Some(w) ==> *w == old(self).elems.at(key) && final(self).elems.at(key) == *final(w)
        &&& forall|k: u32| k != key ==> #[trigger] final(self).elems.at(k) == old(self).elems.at(k) })
//@ end
//@ fn src/indexset.rs IndexSet::maybe_elem
//@ spec
    requires self.wf(), fits(bit_index as int)
    ensures res is None ==> self.elems.at((bit_index / 64) as u32) == 0, res matches Some(w) ==> w == self.elems.at((bit_index / 64) as u32)
//@ end
/// Setting or clearing affects exactly the named member.
//@ fn src/indexset.rs IndexSet::set
//@ spec
    requires old(self).wf(), fits(idx as int)
    ensures final(self).wf(), final(self).mem(idx as int) == val, forall|i: int| fits(i) && i != idx ==> #[trigger] final(self).mem(i) == old(self).mem(i)
//@ exit
    proof {
        let k = (idx / 64) as u32; let w = old(self).elems.at(k);
        put_bits(w, (idx % 64) as u64, val); zero_bits((idx % 64) as u64);
        if !val { assert(0u64 & !(1u64 << ((idx % 64) as u64)) == 0) by(bit_vector); }
        assert(self.elems.at(k) == put(w, (idx % 64) as int, val));
        assert forall|i: int| fits(i) implies #[trigger] self.mem(i) == (if i == idx { val } else { old(self).mem(i) }) by {
            if i / 64 == idx / 64 { assert(i == idx <==> i % 64 == idx % 64); } else { assert((i / 64) as u32 != k); }
        }
    }
//@ end
//@ fn src/indexset.rs IndexSet::get
//@ spec
    requires self.wf(), fits(idx as int)
    ensures res == self.mem(idx as int)
//@ entry
    proof { bits_of(self.elems.at((idx / 64) as u32), 0, (idx % 64) as u64); zero_bits((idx % 64) as u64); }
//@ end
proof fn bits_of(a: u64, b: u64, i: u64)
    requires i < 64
    ensures bit(a | b, i as int) == (bit(a, i as int) || bit(b, i as int)), bit(a & !b, i as int) == (bit(a, i as int) && !bit(b, i as int)),
        bit(a | (1u64 << i), i as int), !bit(a & !(1u64 << i), i as int), (a & (1u64 << i) != 0) == bit(a, i as int)
{
    assert(((a | b) >> i) & 1u64 == 1u64 <==> ((a >> i) & 1u64 == 1u64 || (b >> i) & 1u64 == 1u64)) by(bit_vector) requires i < 64;
    assert(((a & !b) >> i) & 1u64 == 1u64 <==> ((a >> i) & 1u64 == 1u64 && (b >> i) & 1u64 != 1u64)) by(bit_vector) requires i < 64;
    assert((b >> i) & 1u64 == 1u64 || (b >> i) & 1u64 == 0) by(bit_vector) requires i < 64;
    assert(((a | (1u64 << i)) >> i) & 1u64 == 1u64) by(bit_vector) requires i < 64;
    assert(((a & !(1u64 << i)) >> i) & 1u64 == 0) by(bit_vector) requires i < 64;
    assert((a & (1u64 << i) != 0) <==> (a >> i) & 1u64 == 1u64) by(bit_vector) requires i < 64;
}
proof fn other_bits(a: u64, i: u64, j: u64)
    requires i < 64, j < 64, i != j
    ensures bit(a | (1u64 << i), j as int) == bit(a, j as int), bit(a & !(1u64 << i), j as int) == bit(a, j as int)
{
    assert(((a | (1u64 << i)) >> j) & 1u64 == (a >> j) & 1u64) by(bit_vector) requires i < 64, j < 64, i != j;
    assert(((a & !(1u64 << i)) >> j) & 1u64 == (a >> j) & 1u64) by(bit_vector) requires i < 64, j < 64, i != j;
}
proof fn no_bits(x: u64, n: u64)
    requires n <= 64, forall|i: int| 0 <= i < n ==> !#[trigger] bit(x, i)
    ensures n < 64 ==> x & (((1u64 << n) - 1) as u64) == 0, n == 64 ==> x == 0
    decreases n
{
    if n > 0 {
        let m = (n - 1) as u64;
        no_bits(x, m);
        assert(!bit(x, m as int));
        assert(x & (((1u64 << m) - 1) as u64) == 0 && (x >> m) & 1u64 != 1u64 && m < 63 ==> x & (((1u64 << ((m + 1) as u64)) - 1) as u64) == 0) by(bit_vector);
        assert(x & (((1u64 << m) - 1) as u64) == 0 && (x >> m) & 1u64 != 1u64 && m == 63 ==> x == 0) by(bit_vector);
    } else { assert(x & (((1u64 << 0u64) - 1) as u64) == 0) by(bit_vector); }
}
spec fn zero_has_no(i: int) -> bool { !bit(0, i) }
proof fn zero_bits(i: u64) requires i < 64 ensures !bit(0, i as int) { assert((0u64 >> i) & 1u64 == 0) by(bit_vector) requires i < 64; }
spec fn seen(all: Seq<(u32, u64)>, j: int, k: u32) -> bool { exists|i: int| 0 <= i < j && (#[trigger] all[i]).0 == k }
/// The union, and whether it grew.
//@ fn src/indexset.rs IndexSet::union_with
//@ iter 0
//@ spec
    requires old(self).wf(), other.wf()
    ensures final(self).wf(), forall|i: int| fits(i) ==> #[trigger] final(self).mem(i) == (old(self).mem(i) || other.mem(i)),
        res <==> exists|i: int| fits(i) && #[trigger] other.mem(i) && !old(self).mem(i)
//@ loop 0 before
    let ghost all: Seq<(u32, u64)> = if __nx0 is Some { seq![__nx0->0] + __it0.rem() } else { Seq::empty() };
    let ghost mut j: int = 0;
    proof {
        assert(0u64 & !0u64 == 0) by(bit_vector);
        assert(distinct(all) && forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).1 == other.elems.at(all[i].0));
        assert forall|k: u32| #[trigger] other.elems.at(k) != 0 implies seen(all, all.len() as int, k) by {
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k;
        }
    }
//@ loop 0
    invariant self.wf(), other.wf(), __it0.wf(), 0 <= j <= all.len(), distinct(all),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).1 == other.elems.at(all[i].0),
        __nx0 is Some ==> j < all.len() && __nx0->0 == all[j] && __it0.rem() =~= all.skip(j + 1),
        __nx0 is None ==> j == all.len(),
        forall|k: u32| #[trigger] self.elems.at(k) == (if seen(all, j, k) { old(self).elems.at(k) | other.elems.at(k) } else { old(self).elems.at(k) }),
        changed == 0 <==> forall|i: int| 0 <= i < j ==> (#[trigger] all[i]).1 & !old(self).elems.at(all[i].0) == 0
    decreases all.len() - j
//@ loop 0 begin
    let ghost mid = *self; let ghost ch = changed;
    proof {
        j = j + 1;
        let k = all[j - 1].0;
        assert(__nx0->0 == (k, other.elems.at(k)));
        assert forall|i: int| 0 <= i < j - 1 implies (#[trigger] all[i]).0 != k by {}
        assert(!seen(all, j - 1, k)) by { if seen(all, j - 1, k) { let i = choose|i: int| 0 <= i < j - 1 && (#[trigger] all[i]).0 == k; } }
        assert(seen(all, j, k)) by { assert(all[j - 1].0 == k); }
        assert forall|x: u32| x != k implies seen(all, j, x) == #[trigger] seen(all, j - 1, x) by {
            if seen(all, j, x) { let i = choose|i: int| 0 <= i < j && (#[trigger] all[i]).0 == x; assert(i < j - 1); }
            if seen(all, j - 1, x) { let i = choose|i: int| 0 <= i < j - 1 && (#[trigger] all[i]).0 == x; assert(0 <= i < j); }
        }
        let o = old(self).elems.at(k);
        assert(mid.elems.at(k) == o);
        assert(o | 0u64 == o && 0u64 & !o == 0u64) by(bit_vector);
        assert(forall|x: u64, y: u64| #[trigger] (x | y) == 0 <==> x == 0 && y == 0) by(bit_vector);
    }
//@ loop 0 after
    proof {
        assert forall|k: u32| #[trigger] self.elems.at(k) == old(self).elems.at(k) | other.elems.at(k) by {
            let o = old(self).elems.at(k); assert(o | 0u64 == o) by(bit_vector);
        }
        assert forall|i: int| fits(i) implies #[trigger] self.mem(i) == (old(self).mem(i) || other.mem(i)) by {
            let k = (i / 64) as u32; bits_of(old(self).elems.at(k), other.elems.at(k), (i % 64) as u64);
        }
        if changed != 0 {
            let t = choose|t: int| 0 <= t < all.len() && (#[trigger] all[t]).1 & !old(self).elems.at(all[t].0) != 0;
            let k = all[t].0; let a = all[t].1; let o = old(self).elems.at(k); let x = a & !o;
            if forall|b: int| 0 <= b < 64 ==> !#[trigger] bit(x, b) { no_bits(x, 64); }
            let b = choose|b: int| 0 <= b < 64 && #[trigger] bit(x, b);
            bits_of(a, o, b as u64);
            let m = k as int * 64 + b;
            assert(fits(m) && m / 64 == k && m % 64 == b);
            assert(other.mem(m) && !old(self).mem(m));
        }
        if exists|i: int| fits(i) && #[trigger] other.mem(i) && !old(self).mem(i) {
            let i = choose|i: int| fits(i) && #[trigger] other.mem(i) && !old(self).mem(i);
            let k = (i / 64) as u32; let o = old(self).elems.at(k); let a = other.elems.at(k);
            zero_bits((i % 64) as u64); bits_of(a, o, (i % 64) as u64);
            assert(seen(all, all.len() as int, k));
            let t = choose|t: int| 0 <= t < all.len() && (#[trigger] all[t]).0 == k;
            assert(all[t].1 & !o != 0);
        }
    }
//@ end
} // verus!
fn main() {}
