// P08: spill slots are aligned, disjoint and inside the reported frame (backtracking allocator).
fn any_size<N: Nd>(n: &mut N) -> u32 { 1u32 << n.below(8) }
/// One request: everything handed out before lies below `frame`; the new slot starts at or above it.
pub fn c_one_slot<N: Nd>(n: &mut N) {
    let mut f = crate::verif::TF::empty();
    f.named_by_last = n.bool();
    let e = crate::verif::no_env();
    let mut ctx = core::mem::ManuallyDrop::new(Ctx::default());
    let frame = n.u32();
    n.assume(frame < (1 << 23));
    ctx.output.num_spillslots = frame as usize;
    let size = any_size(n);
    let last = f.named_by_last;
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    let a = env.allocate_spillslot(size);
    let slot = a.as_stack().expect("a stack slot").index() as u32;
    let after = ctx.output.num_spillslots as u32;
    let start = if last { slot + 1 - size } else { slot };
    assert!(start % size == 0, "misaligned");
    assert!(start >= frame, "overlaps an earlier slot");
    assert!(start + size <= after, "outside the frame");
    assert!(after >= frame, "frame shrank");
}
/// Whole spill-slot assignment: values sharing a slot are never live together.
pub fn c_assign<N: Nd>(n: &mut N) {
    let mut f = crate::verif::TF::empty();
    f.named_by_last = n.bool();
    for c in 0..3 { f.slot_size[c] = 1 << n.below(4); }
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    ctx.output.num_spillslots = n.below(40);
    let frame0 = ctx.output.num_spillslots;
    let k = n.size(2, 40);
    let span = 4 + n.below(60) as u32;
    for _ in 0..k {
        let a = n.below(span as usize) as u32;
        let b = a + 1 + n.below(span as usize) as u32;
        let class = n.class();
        let required = n.below(5) != 0;
        ctx.spillsets.push(SpillSet { slot: SpillSlotIndex::invalid(), hint: PReg::invalid(), class, spill_bundle: LiveBundleIndex::invalid(), required, splits: 0,
            range: CodeRange { from: ProgPoint::from_index(a), to: ProgPoint::from_index(b) } });
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    env.allocate_spillslots();
    let extra = n.size(1, 5);
    let mut spans: Vec<(usize, usize)> = Vec::new();
    let start_of = |a: Allocation, size: usize| { let s = a.as_stack().unwrap().index(); if f.named_by_last { s + 1 - size } else { s } };
    for i in 0..env.ctx.spillslots.len() {
        let size = env.ctx.spillslots[i].slots as usize;
        let s = start_of(env.ctx.spillslots[i].alloc, size);
        spans.push((s, s + size));
    }
    for _ in 0..extra {
        let size = 1 << n.below(4);
        let a = env.allocate_spillslot(size);
        let s = start_of(a, size as usize);
        spans.push((s, s + size as usize));
    }
    let frame = env.ctx.output.num_spillslots;
    for i in 0..spans.len() {
        let (s, t) = spans[i];
        assert!(s % (t - s) == 0, "misaligned");
        assert!(s >= frame0 && t <= frame, "outside the frame");
        for j in 0..i { assert!(t <= spans[j].0 || spans[j].1 <= s, "slots overlap"); }
    }
    for i in 0..k {
        let x = &env.ctx.spillsets[SpillSetIndex::new(i)];
        if !x.required { continue; }
        assert!(x.slot.is_valid(), "a value that must be spilled has no slot");
        let sl = &env.ctx.spillslots[x.slot.index()];
        assert!(sl.slots as usize == f.slot_size[x.class as usize], "slot of the wrong size");
        for j in 0..i {
            let y = &env.ctx.spillsets[SpillSetIndex::new(j)];
            if y.required && y.slot == x.slot {
                assert!(y.class == x.class);
                let (p, q) = (x.range, y.range);
                assert!(p.to <= q.from || q.to <= p.from, "two values live together share a slot");
            }
        }
    }
}
