// P03: program points.
fn any_inst<N: Nd>(n: &mut N) -> Inst {
    // Instruction indices must leave one bit for the position and not be the reserved index.
    let i = n.u32();
    n.assume(i < (1 << 30));
    Inst::new(i as usize)
}
fn any_ipos<N: Nd>(n: &mut N) -> InstPosition {
    if n.bool() { InstPosition::Before } else { InstPosition::After }
}
pub fn c_point_roundtrip<N: Nd>(n: &mut N) {
    let (i, p) = (any_inst(n), any_ipos(n));
    let x = ProgPoint::new(i, p);
    assert!(x.inst() == i && x.pos() == p);
    assert!(ProgPoint::from_index(x.to_index()) == x);
    assert!(ProgPoint::before(i) == ProgPoint::new(i, InstPosition::Before));
    assert!(ProgPoint::after(i) == ProgPoint::new(i, InstPosition::After));
    assert!(x != ProgPoint::invalid());
}
pub fn c_point_order<N: Nd>(n: &mut N) {
    let (i, p, j, q) = (any_inst(n), any_ipos(n), any_inst(n), any_ipos(n));
    let (x, y) = (ProgPoint::new(i, p), ProgPoint::new(j, q));
    let key = |i: Inst, p: InstPosition| (i.index(), if p == InstPosition::Before { 0 } else { 1 });
    assert!((x < y) == (key(i, p) < key(j, q)));
    assert!((x == y) == (key(i, p) == key(j, q)));
    assert!(x.cmp(&y) == key(i, p).cmp(&key(j, q)));
    assert!((x.to_index() < y.to_index()) == (x < y));
}
pub fn c_point_step<N: Nd>(n: &mut N) {
    let (i, p) = (any_inst(n), any_ipos(n));
    let x = ProgPoint::new(i, p);
    let y = x.next();
    match p {
        InstPosition::Before => assert!(y == ProgPoint::after(i)),
        InstPosition::After => assert!(y == ProgPoint::before(i.next())),
    }
    assert!(y.prev() == x && y > x);
    if x != ProgPoint::before(Inst::new(0)) {
        let z = x.prev();
        assert!(z < x && z.next() == x);
        match p {
            InstPosition::After => assert!(z == ProgPoint::before(i)),
            InstPosition::Before => assert!(z == ProgPoint::after(i.prev())),
        }
    }
}
pub fn c_index_types<N: Nd>(n: &mut N) {
    let i = n.u32();
    n.assume(i < u32::MAX - 1);
    let b = Block::new(i as usize);
    assert!(b.index() == i as usize && b.raw_u32() == i && b.is_valid() && !b.is_invalid() && b != Block::invalid());
    assert!(b.next().index() == i as usize + 1 && b.next().prev() == b);
    assert!(Block::invalid().is_invalid() && !Block::invalid().is_valid());
    let x = Inst::new(i as usize);
    assert!(x.index() == i as usize && x.raw_u32() == i && x.is_valid() && !x.is_invalid());
    assert!(x.next().index() == i as usize + 1 && x.next().prev() == x);
}
pub fn c_inst_range<N: Nd>(n: &mut N) {
    let (a, b) = (n.u32(), n.u32());
    n.assume(a <= b && b < u32::MAX);
    let r = InstRange::new(Inst::new(a as usize), Inst::new(b as usize));
    assert!(r.len() == (b - a) as usize);
    if a < b {
        assert!(r.first() == Inst::new(a as usize));
        assert!(r.last() == Inst::new(b as usize - 1));
        let s = r.rest();
        assert!(s.len() == r.len() - 1);
        if s.len() > 0 { assert!(s.first() == r.first().next() && s.last() == r.last()); }
    }
    // Iteration: first member first, then exactly the rest.
    let mut it = r.iter();
    let q = n.u32();
    match it.next() {
        None => assert!(a == b),
        Some(i) => assert!(a < b && i == Inst::new(a as usize)),
    }
    let _ = q;
}
pub fn c_inst_range_iter<N: Nd>(n: &mut N) {
    let a = n.u32();
    n.assume(a < u32::MAX - 300);
    let k = n.size(3, 200);
    let r = InstRange::new(Inst::new(a as usize), Inst::new(a as usize + k));
    let mut c = 0;
    for i in r.iter() {
        assert!(i == Inst::new(a as usize + c));
        c += 1;
    }
    assert!(c == k);
}
