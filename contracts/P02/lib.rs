// P02: PRegSet is a mathematical set of registers.
fn any_set<N: Nd>(n: &mut N) -> PRegSet {
    PRegSet { bits: [n.u64(), n.u64(), n.u64(), n.u64()] }
}
/// Registers of the whole index space a set can hold (4 words), including the unused class 3.
fn any_member<N: Nd>(n: &mut N) -> PReg {
    PReg::from_index(n.below(256))
}
pub fn c_add_remove<N: Nd>(n: &mut N) {
    let s = any_set(n);
    let (r, q) = (any_member(n), any_member(n));
    assert!(!PRegSet::empty().contains(q));
    assert!(!PRegSet::default().contains(q));
    let mut t = s;
    t.add(r);
    assert!(t.contains(q) == (q == r || s.contains(q)));
    for k in 0..4 { assert!(s.with(r).bits[k] == t.bits[k]); }
    let mut u = s;
    u.remove(r);
    assert!(u.contains(q) == (q != r && s.contains(q)));
}
pub fn c_algebra<N: Nd>(n: &mut N) {
    let (s, t) = (any_set(n), any_set(n));
    let q = any_member(n);
    let (a, b) = (s.contains(q), t.contains(q));
    let mut u = s;
    u.union_from(t);
    assert!(u.contains(q) == (a || b));
    let mut i = s;
    i.intersect_from(t);
    assert!(i.contains(q) == (a && b));
    assert!((s | t).contains(q) == (a || b));
    assert!((s & t).contains(q) == (a && b));
    assert!(s.invert().contains(q) == !a);
}
pub fn c_extensional<N: Nd>(n: &mut N) {
    // Two sets are equal exactly when no register tells them apart.
    let (s, t) = (any_set(n), any_set(n));
    if s == t {
        let q = any_member(n);
        assert!(s.contains(q) == t.contains(q));
    } else {
        let mut w = None;
        for k in 0..4 {
            let d = s.bits[k] ^ t.bits[k];
            if d != 0 { w = Some(k * 64 + d.trailing_zeros() as usize); }
        }
        let w = PReg::from_index(w.unwrap());
        assert!(s.contains(w) != t.contains(w));
    }
}
pub fn c_len<N: Nd>(n: &mut N) {
    // Cardinality by its recursive definition.
    assert!(PRegSet::empty().len() == 0);
    let s = any_set(n);
    let r = any_member(n);
    let mut t = s;
    t.add(r);
    assert!(t.len() == s.len() + if s.contains(r) { 0 } else { 1 });
}
pub fn c_is_empty<N: Nd>(n: &mut N) {
    let s = any_set(n);
    let c = n.class();
    if s.is_empty(c) {
        assert!(!s.contains(PReg::new(n.below(64), c)));
    } else {
        let w = s.bits[c as usize].trailing_zeros() as usize;
        assert!(w < 64 && s.contains(PReg::new(w, c)));
    }
}
pub fn c_add_up_to<N: Nd>(n: &mut N) {
    let s = any_set(n);
    let (r, q) = (any_member(n), any_member(n));
    let mut t = s;
    t.add_up_to(r);
    assert!(t.contains(q) == (s.contains(q) || q.index() < r.index()));
}
/// One step of iteration: yields the least remaining member and removes exactly it.
pub fn c_iter_step<N: Nd>(n: &mut N) {
    let mut it = PRegSetIter { bits: [n.u64(), n.u64(), n.u64(), n.u64()], cur: n.below(5) };
    // What is still to be yielded: members of the words from `cur` on.
    let rem = |it: &PRegSetIter, q: PReg| it.cur < 4 && q.index() / 64 >= it.cur && it.bits[q.index() / 64] & (1u64 << (q.index() % 64)) != 0;
    let q = any_member(n);
    let before = rem(&it, q);
    let got = it.next();
    let after = rem(&it, q);
    assert!(it.cur <= 4);
    match got {
        None => assert!(!before && !after),
        Some(p) => {
            if q == p { assert!(before && !after); } else { assert!(after == before); }
            if before { assert!(p.index() <= q.index()); }
        }
    }
}
/// A fresh iterator has exactly the members of the set to yield.
pub fn c_iter_start<N: Nd>(n: &mut N) {
    let s = any_set(n);
    let q = any_member(n);
    let it = s.into_iter();
    let it2 = (&s).into_iter();
    assert!(it.cur == 0 && it2.cur == 0);
    assert!((it.bits[q.index() / 64] & (1u64 << (q.index() % 64)) != 0) == s.contains(q));
    for k in 0..4 { assert!(it2.bits[k] == it.bits[k]); }
}
/// Whole iteration and the derived operations, through the public interface only.
pub fn c_iter_whole<N: Nd>(n: &mut N) {
    let k = n.size(2, 256);
    let mut s = PRegSet::empty();
    let mut list: Vec<PReg> = Vec::new();
    for _ in 0..k {
        let r = any_member(n);
        s.add(r);
        list.push(r);
    }
    let t: PRegSet = list.iter().copied().collect();
    let q = any_member(n);
    assert!(s.contains(q) == t.contains(q));
    let mut last: Option<PReg> = None;
    let mut count = 0;
    for p in s.into_iter() {
        assert!(s.contains(p));
        if let Some(l) = last { assert!(l.index() < p.index()); }
        last = Some(p);
        count += 1;
    }
    assert!(count == s.len());
    assert!(s.max_preg() == last);
    if k > 0 {
        let m = last.unwrap();
        for r in &list { assert!(r.index() <= m.index()); }
    } else {
        assert!(last.is_none());
    }
}
pub fn c_max_preg<N: Nd>(n: &mut N) {
    let s = if N::SYMBOLIC {
        let mut s = PRegSet::empty();
        for _ in 0..2 { if n.bool() { s.add(any_member(n)); } }
        s
    } else {
        any_set(n)
    };
    let q = any_member(n);
    match s.max_preg() {
        None => assert!(!s.contains(q)),
        Some(m) => {
            assert!(s.contains(m));
            if s.contains(q) { assert!(q.index() <= m.index()); }
        }
    }
}
pub fn c_from_env<N: Nd>(n: &mut N) {
    let mut env = MachineEnv {
        preferred_regs_by_class: [PRegSet::empty(); 3],
        non_preferred_regs_by_class: [PRegSet::empty(); 3],
        scratch_by_class: [None; 3],
        fixed_stack_slots: Vec::new(),
    };
    for c in 0..3 {
        env.preferred_regs_by_class[c] = any_set(n);
        env.non_preferred_regs_by_class[c] = any_set(n);
    }
    let q = any_member(n);
    let all = PRegSet::from(&env);
    let mut want = false;
    for c in 0..3 {
        want |= env.preferred_regs_by_class[c].contains(q) | env.non_preferred_regs_by_class[c].contains(q);
    }
    assert!(all.contains(q) == want);
}
