// P04: IndexSet behaves as a set of indices.
// Representation invariant in small mode: keys[..len] pairwise distinct, unused values zero.
fn any_small<N: Nd>(n: &mut N) -> (IndexSet, usize, [u32; SMALL_ELEMS], [u64; SMALL_ELEMS]) {
    let mut keys = [INVALID; SMALL_ELEMS];
    let mut values = [0u64; SMALL_ELEMS];
    let len = n.below(SMALL_ELEMS + 1);
    for i in 0..SMALL_ELEMS {
        if i < len {
            let k = n.u32();
            n.assume(k != INVALID);
            for j in 0..i { let d = keys[j] != k; n.assume(d); }
            keys[i] = k;
            values[i] = n.u64();
        }
    }
    (IndexSet { elems: AdaptiveMap::Small { len: len as u32, keys, values } }, len, keys, values)
}
fn any_index<N: Nd>(n: &mut N) -> usize {
    let w = n.u32();
    n.assume(w != INVALID);
    (w as usize) * 64 + n.below(64)
}
/// An index in a word the small map may already hold.
fn index_near<N: Nd>(n: &mut N, keys: &[u32; SMALL_ELEMS], len: usize) -> usize {
    if !N::SYMBOLIC && len > 0 && n.bool() { return keys[n.below(len)] as usize * 64 + n.below(64); }
    any_index(n)
}
/// Abstract view of a small representation.
fn has(len: usize, keys: &[u32; SMALL_ELEMS], values: &[u64; SMALL_ELEMS], idx: usize) -> bool {
    let mut r = false;
    for i in 0..SMALL_ELEMS { if i < len && keys[i] as usize == idx / 64 && (values[i] >> (idx % 64)) & 1 == 1 { r = true; } }
    r
}
fn invariant(s: &IndexSet) -> bool {
    match &s.elems {
        AdaptiveMap::Small { len, keys, values } => {
            let len = *len as usize;
            let mut ok = len <= SMALL_ELEMS;
            for i in 0..SMALL_ELEMS {
                if i >= len { ok &= values[i] == 0; }
                for j in 0..i { if i < len { ok &= keys[i] != keys[j]; } }
            }
            ok
        }
        AdaptiveMap::Large(_) => true,
    }
}
pub fn c_get_small<N: Nd>(n: &mut N) {
    let (s, len, keys, values) = any_small(n);
    let s = core::mem::ManuallyDrop::new(s);
    let j = index_near(n, &keys, len);
    assert!(s.get(j) == has(len, &keys, &values, j), "membership test");
}
fn set_post<N: Nd>(n: &mut N, s: IndexSet, len: usize, keys: &[u32; SMALL_ELEMS], values: &[u64; SMALL_ELEMS], i: usize, v: bool) {
    let mut s = core::mem::ManuallyDrop::new(s);
    let j = if n.bool() { i } else { index_near(n, keys, len) };
    let old = has(len, keys, values, j);
    s.set(i, v);
    assert!(s.get(j) == if i == j { v } else { old }, "set affects exactly the named member");
    assert!(invariant(&s), "representation invariant");
    n.cov(1, !s.is_small());
}
pub fn c_clear_small<N: Nd>(n: &mut N) {
    let (s, len, keys, values) = any_small(n);
    let i = index_near(n, &keys, len);
    set_post(n, s, len, &keys, &values, i, false);
}
pub fn c_set_small<N: Nd>(n: &mut N) {
    let (s, len, keys, values) = any_small(n);
    let i = index_near(n, &keys, len);
    let mut fits = len < SMALL_ELEMS;
    for q in 0..SMALL_ELEMS { fits |= q < len && (keys[q] as usize == i / 64 || values[q] == 0); }
    n.assume(fits);
    set_post(n, s, len, &keys, &values, i, true);
}
/// All words in use: the representation has to grow.
pub fn c_grow<N: Nd>(n: &mut N) {
    let mut keys = [INVALID; SMALL_ELEMS];
    let mut values = [0u64; SMALL_ELEMS];
    for i in 0..SMALL_ELEMS {
        keys[i] = n.u32();
        n.assume(keys[i] != INVALID);
        for j in 0..i { let d = keys[j] != keys[i]; n.assume(d); }
        values[i] = n.u64();
        n.assume(values[i] != 0);
    }
    let s = IndexSet { elems: AdaptiveMap::Small { len: SMALL_ELEMS as u32, keys, values } };
    let i = any_index(n);
    for q in 0..SMALL_ELEMS { let d = keys[q] as usize != i / 64; n.assume(d); }
    set_post(n, s, SMALL_ELEMS, &keys, &values, i, true);
}
fn any_large<N: Nd>(n: &mut N, i: usize, j: usize) -> (IndexSet, u64, u64) {
    let mut m: FxHashMap<u32, u64> = FxHashMap::default();
    let (wi, wj) = ((i / 64) as u32, (j / 64) as u32);
    let (mut vi, mut vj) = (0, 0);
    if n.bool() { vi = n.u64(); m.insert(wi, vi); }
    if wj == wi { vj = vi; } else if n.bool() { vj = n.u64(); m.insert(wj, vj); }
    if !N::SYMBOLIC { for _ in 0..n.size(0, 20) { let k = n.u32(); if k != wi && k != wj && k != INVALID { let v = n.u64(); m.insert(k, v); } } }
    (IndexSet { elems: AdaptiveMap::Large(m) }, vi, vj)
}
pub fn c_set_large<N: Nd>(n: &mut N) {
    let i = any_index(n);
    let j = match n.below(3) { 0 => i, 1 => (i & !63) + n.below(64), _ => any_index(n) };
    let (s, _vi, vj) = any_large(n, i, j);
    let mut s = core::mem::ManuallyDrop::new(s);
    let old = (vj >> (j % 64)) & 1 == 1;
    assert!(s.get(j) == old, "membership test");
    let v = n.bool();
    s.set(i, v);
    assert!(s.get(j) == if i == j { v } else { old }, "set affects exactly the named member");
}
pub fn c_new<N: Nd>(n: &mut N) {
    let s = core::mem::ManuallyDrop::new(IndexSet::new());
    let j = any_index(n);
    assert!(!s.get(j) && s.is_empty() && invariant(&s));
}
pub fn c_empty<N: Nd>(n: &mut N) {
    let (s, len, _keys, values) = any_small(n);
    let s = core::mem::ManuallyDrop::new(s);
    let mut none = true;
    for i in 0..SMALL_ELEMS { if i < len && values[i] != 0 { none = false; } }
    assert!(s.is_empty() == none, "emptiness");
}
pub fn c_empty_large<N: Nd>(n: &mut N) {
    let (a, b) = (n.u32(), n.u32());
    n.assume(a != b);
    let (x, y) = (n.u64(), n.u64());
    let mut m: FxHashMap<u32, u64> = FxHashMap::default();
    let k = n.below(3);
    if k > 0 { m.insert(a, x); }
    if k > 1 { m.insert(b, y); }
    let s = core::mem::ManuallyDrop::new(IndexSet { elems: AdaptiveMap::Large(m) });
    assert!(s.is_empty() == !((k > 0 && x != 0) || (k > 1 && y != 0)));
}
pub fn c_assign<N: Nd>(n: &mut N) {
    let mut a = core::mem::ManuallyDrop::new(IndexSet::new());
    a.set(7, true);
    let (b, len, keys, values) = any_small(n);
    let b = core::mem::ManuallyDrop::new(b);
    let j = index_near(n, &keys, len);
    a.assign(&b);
    assert!(a.get(j) == has(len, &keys, &values, j) && invariant(&a), "the copy has the same members");
}
/// One step, for every word: yields the lowest member and removes exactly it.
pub fn c_bits_step<N: Nd>(n: &mut N) {
    let w = n.u64();
    let mut it = SetBitsIter(w);
    let r = it.next();
    assert!(r.is_none() == (w == 0));
    if let Some(i) = r {
        assert!(i < 64 && (w >> i) & 1 == 1 && w & ((1u64 << i) - 1) == 0, "lowest member");
        assert!(it.0 == w & !(1u64 << i), "exactly it is removed");
    } else { assert!(it.0 == 0); }
}
pub fn c_bits<N: Nd>(n: &mut N) {
    let w = n.u64();
    let mut it = SetBitsIter(w);
    let mut next = 0usize;
    let mut seen = 0u64;
    for _ in 0..65 {
        match it.next() {
            None => break,
            Some(i) => {
                assert!(i < 64 && i >= next, "strictly increasing");
                assert!((w >> i) & 1 == 1, "yields members only");
                seen |= 1 << i;
                next = i + 1;
            }
        }
    }
    assert!(seen == w, "yields every member");
    assert!(it.next().is_none());
}
pub fn c_words<N: Nd>(n: &mut N) {
    let (s, len, keys, values) = any_small(n);
    let s = core::mem::ManuallyDrop::new(s);
    // Pick any stored word: it is yielded exactly once, and only stored words are yielded.
    let q = n.below(SMALL_ELEMS);
    let mut it = s.elems.iter();
    let mut cnt = 0;
    let mut total = 0;
    for _ in 0..SMALL_ELEMS + 1 {
        match it.next() {
            None => break,
            Some((k, v)) => { if q < len && k == keys[q] { cnt += 1; assert!(v == values[q]); } total += 1; }
        }
    }
    assert!(it.next().is_none());
    if q < len { assert!(cnt == 1 || (cnt == 0 && values[q] == 0), "each word once"); }
    assert!(total <= len, "yields stored words only");
}
/// One word on the right: the loop body of the union, for any left-hand side with room.
pub fn c_union_step<N: Nd>(n: &mut N) {
    let (a, len, keys, values) = any_small(n);
    let w = (index_near(n, &keys, len) / 64) as u32;
    let mut fits = len < SMALL_ELEMS;
    for q in 0..SMALL_ELEMS { fits |= q < len && (keys[q] == w || values[q] == 0); }
    n.assume(fits);
    union_one(n, a, len, &keys, &values, w);
}
fn union_one<N: Nd>(n: &mut N, a: IndexSet, len: usize, keys: &[u32; SMALL_ELEMS], values: &[u64; SMALL_ELEMS], w: u32) {
    let mut a = core::mem::ManuallyDrop::new(a);
    let mut k2 = [INVALID; SMALL_ELEMS];
    let mut v2 = [0u64; SMALL_ELEMS];
    k2[0] = w;
    v2[0] = n.u64();
    let b = core::mem::ManuallyDrop::new(IndexSet { elems: AdaptiveMap::Small { len: 1, keys: k2, values: v2 } });
    let mut old = 0u64;
    for q in 0..SMALL_ELEMS { if q < len && keys[q] == w { old = values[q]; } }
    let j = if n.bool() { w as usize * 64 + n.below(64) } else { index_near(n, keys, len) };
    let exp = has(len, keys, values, j) || (j / 64 == w as usize && (v2[0] >> (j % 64)) & 1 == 1);
    let r = a.union_with(&b);
    assert!(a.get(j) == exp, "union is exactly the union");
    assert!(r == (v2[0] & !old != 0), "reports growth exactly");
    assert!(invariant(&a));
}
pub fn c_union_grow<N: Nd>(n: &mut N) {
    let mut keys = [INVALID; SMALL_ELEMS];
    let mut values = [0u64; SMALL_ELEMS];
    let w = n.u32();
    n.assume(w != INVALID);
    for i in 0..SMALL_ELEMS {
        keys[i] = n.u32();
        n.assume(keys[i] != INVALID && keys[i] != w);
        for j in 0..i { let d = keys[j] != keys[i]; n.assume(d); }
        values[i] = n.u64();
        n.assume(values[i] != 0);
    }
    let s = IndexSet { elems: AdaptiveMap::Small { len: SMALL_ELEMS as u32, keys, values } };
    union_one(n, s, SMALL_ELEMS, &keys, &values, w);
}
/// Both sides in large mode; the entries the step and the observation can touch.
pub fn c_union_large<N: Nd>(n: &mut N) {
    let i = any_index(n);
    let j = match n.below(3) { 0 => i, 1 => (i & !63) + n.below(64), _ => any_index(n) };
    let (a, vi, vj) = any_large(n, i, j);
    let mut a = core::mem::ManuallyDrop::new(a);
    let bits = n.u64();
    let mut m: FxHashMap<u32, u64> = FxHashMap::default();
    m.insert((i / 64) as u32, bits);
    let b = core::mem::ManuallyDrop::new(IndexSet { elems: AdaptiveMap::Large(m) });
    let exp = (vj >> (j % 64)) & 1 == 1 || (i / 64 == j / 64 && (bits >> (j % 64)) & 1 == 1);
    let r = a.union_with(&b);
    assert!(a.get(j) == exp, "union is exactly the union");
    assert!(r == (bits & !vi != 0), "reports growth exactly");
}
fn union_post<N: Nd>(n: &mut N, a: &mut IndexSet, b: &IndexSet, av: (usize, [u32; SMALL_ELEMS], [u64; SMALL_ELEMS]), bv: (usize, [u32; SMALL_ELEMS], [u64; SMALL_ELEMS]), _m: usize) {
    let j = if n.bool() { index_near(n, &av.1, av.0) } else { index_near(n, &bv.1, bv.0) };
    let mut grew = false;
    for i in 0..SMALL_ELEMS {
        if i < bv.0 {
            let mut w = 0u64;
            for q in 0..SMALL_ELEMS { if q < av.0 && av.1[q] == bv.1[i] { w = av.2[q]; } }
            if bv.2[i] & !w != 0 { grew = true; }
        }
    }
    let exp = has(av.0, &av.1, &av.2, j) || has(bv.0, &bv.1, &bv.2, j);
    let bj = b.get(j);
    let r = a.union_with(b);
    assert!(a.get(j) == exp, "union is exactly the union");
    assert!(r == grew, "reports growth exactly");
    assert!(b.get(j) == bj, "the right-hand side is unchanged");
    assert!(invariant(a));
}
pub fn c_union_two<N: Nd>(n: &mut N) {
    let (a, len, keys, values) = any_small(n);
    let mut a = core::mem::ManuallyDrop::new(a);
    let (mut b, mut l2, k2, v2) = any_small(n);
    if N::SYMBOLIC { n.assume(l2 <= 3); }
    if let AdaptiveMap::Small { len, .. } = &mut b.elems { *len = l2 as u32; }
    if l2 > SMALL_ELEMS { l2 = SMALL_ELEMS; }
    let b = core::mem::ManuallyDrop::new(b);
    union_post(n, &mut a, &b, (len, keys, values), (l2, k2, v2), l2);
}
pub fn c_iter<N: Nd>(n: &mut N) {
    let (s, len, keys, values) = any_small(n);
    let mut exp: Vec<usize> = Vec::new();
    for i in 0..len { for b in 0..64 { if (values[i] >> b) & 1 == 1 { exp.push(keys[i] as usize * 64 + b); } } }
    let mut got: Vec<usize> = s.iter().collect();
    exp.sort(); got.sort();
    assert!(exp == got, "iteration yields each member exactly once");
}
/// Any history through the public operations, against a mathematical set.
pub fn c_history<N: Nd>(n: &mut N) {
    use std::collections::BTreeSet;
    let mut sets = [IndexSet::new(), IndexSet::new()];
    let mut refs: [BTreeSet<usize>; 2] = [BTreeSet::new(), BTreeSet::new()];
    let words = 1 + n.below(30);
    let stride = if n.bool() { 1 } else { 1 + n.below(5000) };
    let steps = n.size(3, 200) * 10;
    for _ in 0..steps {
        let w = n.below(2);
        let x = n.below(words) * 64 * stride + n.below(2) * n.below(64);
        match n.below(12) {
            0..=4 => { sets[w].set(x, true); refs[w].insert(x); }
            5..=7 => { sets[w].set(x, false); refs[w].remove(&x); }
            8 => {
                let (o, r) = (sets[1 - w].clone(), refs[1 - w].clone());
                let before = refs[w].len();
                let ch = sets[w].union_with(&o);
                refs[w].extend(r);
                assert!(ch == (refs[w].len() != before), "union reports growth exactly");
            }
            9 => { let o = sets[1 - w].clone(); sets[w].assign(&o); refs[w] = refs[1 - w].clone(); }
            _ => { assert!(sets[w].get(x) == refs[w].contains(&x), "membership"); }
        }
        assert!(sets[w].is_empty() == refs[w].is_empty(), "emptiness");
        assert!(sets[w].get(x) == refs[w].contains(&x), "membership after the operation");
    }
    for w in 0..2 {
        let mut got: Vec<usize> = sets[w].iter().collect();
        got.sort();
        let exp: Vec<usize> = refs[w].iter().copied().collect();
        assert!(got == exp, "iteration yields each member exactly once");
    }
}
