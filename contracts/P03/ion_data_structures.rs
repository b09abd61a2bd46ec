// P03: live ranges are half-open intervals of program points.
fn any_point<N: Nd>(n: &mut N) -> ProgPoint {
    let i = n.u32();
    n.assume(i < (1 << 31));
    ProgPoint::from_index(i)
}
fn any_range<N: Nd>(n: &mut N) -> CodeRange {
    let r = CodeRange { from: any_point(n), to: any_point(n) };
    r
}
fn any_nonempty<N: Nd>(n: &mut N) -> CodeRange {
    let r = any_range(n);
    n.assume(r.from < r.to);
    r
}
fn mem(r: &CodeRange, p: ProgPoint) -> bool {
    r.from.to_index() <= p.to_index() && p.to_index() < r.to.to_index()
}
pub fn c_range_membership<N: Nd>(n: &mut N) {
    let r = any_range(n);
    let p = any_point(n);
    assert!(r.contains_point(p) == mem(&r, p));
    if r.is_empty() { assert!(!mem(&r, p)); } else { assert!(mem(&r, r.from)); }
    let s = CodeRange::singleton(p);
    let q = any_point(n);
    assert!(mem(&s, q) == (q == p));
    assert!(!s.is_empty());
}
pub fn c_range_contains<N: Nd>(n: &mut N) {
    let (r, s) = (any_nonempty(n), any_nonempty(n));
    let p = any_point(n);
    if r.contains(&s) {
        if mem(&s, p) { assert!(mem(&r, p)); }
    } else {
        // a point of s that r lacks: one of its ends
        assert!(!mem(&r, s.from) || !mem(&r, s.to.prev()));
    }
}
pub fn c_range_overlaps<N: Nd>(n: &mut N) {
    let (r, s) = (any_nonempty(n), any_nonempty(n));
    let p = any_point(n);
    if mem(&r, p) && mem(&s, p) { assert!(r.overlaps(&s)); }
    if r.overlaps(&s) {
        let w = if r.from > s.from { r.from } else { s.from };
        assert!(mem(&r, w) && mem(&s, w));
    }
    assert!(r.overlaps(&s) == s.overlaps(&r));
}
pub fn c_range_join<N: Nd>(n: &mut N) {
    let (r, s) = (any_nonempty(n), any_nonempty(n));
    let j = r.join(s);
    let p = any_point(n);
    if mem(&r, p) || mem(&s, p) { assert!(mem(&j, p)); }
    // least such range
    assert!((j.from == r.from || j.from == s.from) && (j.to == r.to || j.to == s.to));
    assert!(j.contains(&r) && j.contains(&s));
}
pub fn c_range_order<N: Nd>(n: &mut N) {
    let (r, s) = (any_nonempty(n), any_nonempty(n));
    let share = r.from < s.to && s.from < r.to;
    use core::cmp::Ordering::*;
    match r.cmp(&s) {
        Equal => assert!(share),
        Less => assert!(!share && r.from < s.from && r.to <= s.from),
        Greater => assert!(!share && r.from > s.from && s.to <= r.from),
    }
    assert!(r.partial_cmp(&s) == Some(r.cmp(&s)));
}
pub fn c_key_order<N: Nd>(n: &mut N) {
    let (r, s) = (any_nonempty(n), any_nonempty(n));
    let (k, l) = (LiveRangeKey::from_range(&r), LiveRangeKey::from_range(&s));
    assert!(k.to_range() == r);
    let p = any_point(n);
    use core::cmp::Ordering::*;
    let w = if r.from > s.from { r.from } else { s.from };
    let share = mem(&r, w) && mem(&s, w);
    if mem(&r, p) && mem(&s, p) { assert!(share); }
    match k.cmp(&l) {
        Equal => assert!(share),
        Less => assert!(!share && r.to <= s.from),
        Greater => assert!(!share && s.to <= r.from),
    }
    assert!(k.partial_cmp(&l) == Some(k.cmp(&l)));
    assert!((k == l) == share);
    assert!(k.cmp(&l) == l.cmp(&k).reverse());
}
/// On pairwise disjoint ranges the comparison is a strict total order (what the search trees need).
pub fn c_key_transitive<N: Nd>(n: &mut N) {
    let (a, b, c) = (any_nonempty(n), any_nonempty(n), any_nonempty(n));
    let (a, b, c) = (LiveRangeKey::from_range(&a), LiveRangeKey::from_range(&b), LiveRangeKey::from_range(&c));
    use core::cmp::Ordering::*;
    if a.cmp(&b) == Less && b.cmp(&c) == Less { assert!(a.cmp(&c) == Less); }
}
