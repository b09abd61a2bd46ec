// P18: the output view interleaves instructions and edits exactly.
fn ed<N: Nd>(n: &mut N) -> Edit {
    let from = Allocation::stack(SpillSlot::new(n.below(1 << 20)));
    let to = Allocation::stack(SpillSlot::new(n.below(1 << 20)));
    Edit::Move { from, to }
}
fn point<N: Nd>(n: &mut N, lim: usize) -> ProgPoint {
    let i = Inst::new(n.below(lim));
    if n.bool() { ProgPoint::before(i) } else { ProgPoint::after(i) }
}
pub fn c_step<N: Nd>(n: &mut N) {
    let (x, y) = (n.below(1 << 30), n.below(1 << 30));
    n.assume(x <= y);
    let p = [point(n, 1 << 30), point(n, 1 << 30), point(n, 1 << 30)];
    let e = [(p[0], ed(n)), (p[1], ed(n)), (p[2], ed(n))];
    let k = n.below(4);
    let edits = &e[..k];
    let mut it = OutputIter { inst_range: InstRange::new(Inst::new(x), Inst::new(y)), edits };
    let r = it.next();
    let rx = if it.inst_range.len() > 0 { it.inst_range.first().index() } else { y };
    if it.inst_range.len() > 0 { assert!(it.inst_range.last().index() + 1 == y, "the end of the block stays"); }
    if x == y {
        assert!(r.is_none(), "nothing after the last instruction");
    } else if k > 0 && p[0] <= ProgPoint::before(Inst::new(x)) {
        match r {
            Some(InstOrEdit::Edit(g)) => assert!(core::ptr::eq(g, &e[0].1), "the next edit"),
            _ => panic!("an edit at or before the instruction comes first"),
        }
        assert!(it.edits.len() == k - 1 && it.inst_range.len() == y - x && rx == x, "consumes exactly that edit");
        if k > 1 { assert!(core::ptr::eq(&it.edits[0], &e[1])); }
    } else {
        match r {
            Some(InstOrEdit::Inst(i)) => assert!(i.index() == x, "the next instruction"),
            _ => panic!("no edit due: the instruction is next"),
        }
        assert!(it.edits.len() == k && it.inst_range.len() == y - x - 1, "consumes exactly that instruction");
        if y - x > 1 { assert!(rx == x + 1); }
        if k > 0 { assert!(core::ptr::eq(&it.edits[0], &e[0])); }
    }
}
fn one_block(x: usize, y: usize) -> TF { let mut f = TF::empty(); f.ranges.push((x, y)); f.insts = y; f }
fn sorted_edits<N: Nd>(n: &mut N, k: usize, lim: usize) -> Vec<(ProgPoint, Edit)> {
    let mut v: Vec<(ProgPoint, Edit)> = Vec::new();
    for i in 0..k {
        let p = point(n, lim);
        if N::SYMBOLIC { if i > 0 { let o = v[i - 1].0 <= p; n.assume(o); } }
        v.push((p, Edit::Move { from: Allocation::stack(SpillSlot::new(i)), to: Allocation::stack(SpillSlot::new(i + 1000)) }));
    }
    if !N::SYMBOLIC { v.sort_by_key(|e| e.0); }
    v
}
pub fn c_start<N: Nd>(n: &mut N) {
    let x = n.below(8); let y = x + 1 + n.below(8);
    let f = core::mem::ManuallyDrop::new(one_block(x, y));
    let mut out = core::mem::ManuallyDrop::new(Output::default());
    let k = n.size(4, 20);
    out.edits = sorted_edits(n, k, 20);
    let it = out.block_insts_and_edits(&*f, Block::new(0));
    let mut skip = 0;
    while skip < k && out.edits[skip].0 < ProgPoint::before(Inst::new(x)) { skip += 1; }
    assert!(it.edits.len() == k - skip, "starts at the block's first edit");
    if skip < k { assert!(core::ptr::eq(&it.edits[0], &out.edits[skip])); }
    assert!(it.inst_range.first().index() == x && it.inst_range.len() == y - x, "covers the block's instructions");
}
pub fn c_allocs<N: Nd>(n: &mut N) {
    let mut out = core::mem::ManuallyDrop::new(Output::default());
    let k = 1 + n.size(3, 10);
    let mut total = 0u32;
    let mut start: Vec<u32> = Vec::new();
    for _ in 0..k { start.push(total); total += n.below(3) as u32; }
    for i in 0..total { out.allocs.push(Allocation::stack(SpillSlot::new(i as usize))); }
    out.inst_alloc_offsets = start.clone();
    let i = n.below(k);
    let end = if i + 1 == k { total } else { start[i + 1] };
    let a = out.inst_allocs(Inst::new(i));
    assert!(a.len() as u32 == end - start[i], "exactly the instruction's portion");
    for j in 0..a.len() { assert!(a[j] == out.allocs[start[i] as usize + j]); }
    core::mem::forget(start);
}
pub fn c_view<N: Nd>(n: &mut N) {
    // Several blocks over consecutive instructions.
    let nb = 1 + n.size(2, 4);
    let mut f = TF::empty();
    let mut at = 0;
    for _ in 0..nb { let l = 1 + n.below(4); f.ranges.push((at, at + l)); at += l; }
    f.insts = at;
    let mut out = Output::default();
    let k = n.size(3, 20);
    let ends: Vec<usize> = f.ranges.iter().map(|r| r.1 - 1).collect();
    out.edits = sorted_edits(n, k, at).into_iter().filter(|e| !(e.0.pos() == InstPosition::After && ends.contains(&e.0.inst().index()))).collect();
    let mut seen = 0;
    for b in 0..nb {
        let (x, y) = f.ranges[b];
        let mut exp: Vec<(bool, usize)> = Vec::new();
        for i in x..y {
            for (j, e) in out.edits.iter().enumerate() { if e.0 == ProgPoint::before(Inst::new(i)) { exp.push((true, j)); } }
            exp.push((false, i));
            for (j, e) in out.edits.iter().enumerate() { if e.0 == ProgPoint::after(Inst::new(i)) { exp.push((true, j)); } }
        }
        let mut got: Vec<(bool, usize)> = Vec::new();
        for x in out.block_insts_and_edits(&f, Block::new(b)).take(200) {
            match x {
                InstOrEdit::Inst(i) => got.push((false, i.index())),
                InstOrEdit::Edit(e) => got.push((true, out.edits.iter().position(|q| core::ptr::eq(&q.1, e)).unwrap())),
            }
        }
        assert!(got == exp, "instructions and edits interleaved by program point");
        seen += got.iter().filter(|g| g.0).count();
    }
    assert!(seen == out.edits.len(), "every edit appears in exactly one block");
}
