// P22: live ranges given the same register never overlap.
fn meet(a: CodeRange, b: CodeRange) -> bool { a.from < b.to && b.from < a.to }
/// The bookkeeping of register assignments, looked at range by range.
fn booked<F: crate::Function>(env: &Env<F>) {
    let mut held: Vec<Vec<(CodeRange, LiveBundleIndex)>> = (0..env.ctx.pregs.len()).map(|_| Vec::new()).collect();
    for b in 0..env.ctx.bundles.len() {
        let b = LiveBundleIndex::new(b);
        for e in &env.ctx.bundles[b].ranges { if let Some(r) = env.ctx.bundles[b].allocation.as_reg() { held[r.index()].push((e.range, b)); } }
    }
    for (r, h) in held.iter().enumerate() {
        for i in 0..h.len() { for j in 0..i { assert!(!meet(h[i].0, h[j].0), "two live ranges in one register overlap"); } }
        let kept: Vec<(CodeRange, LiveRangeIndex)> = env.ctx.pregs[r].allocations.btree.iter().map(|(k, v)| (k.to_range(), *v)).collect();
        for i in 0..kept.len() { for j in 0..i { assert!(!meet(kept[i].0, kept[j].0), "two stored ranges of a register overlap"); } }
        for (range, _) in h { assert!(kept.iter().any(|k| k.0 == *range && k.1.is_valid()), "a live range in the register is not stored there"); }
        for (range, lr) in kept {
            if lr.is_valid() { let b = env.ctx.ranges[lr].bundle; assert!(h.iter().any(|x| x.0 == range && x.1 == b), "a stored range is of no bundle in the register"); }
        }
    }
}
/// Any sequence of assignments and evictions.
pub fn c_assign<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    let span = 8 + n.below(52);
    let regs = 1 + n.below(3);
    for _ in 0..256 { ctx.pregs.push(PRegData { allocations: LiveRangeSet::new(), is_stack: false }); }
    // what is reserved, by register
    let mut fixed: Vec<Vec<CodeRange>> = (0..regs).map(|_| Vec::new()).collect();
    for r in 0..regs {
        let mut at = n.below(span);
        while at < span && n.below(4) != 0 {
            let to = at + 1 + n.below(2);
            let c = CodeRange { from: ProgPoint::from_index(at as u32), to: ProgPoint::from_index(to as u32) };
            ctx.pregs[r].allocations.btree.insert(LiveRangeKey::from_range(&c), LiveRangeIndex::invalid());
            fixed[r].push(c);
            at = to + n.below(span);
        }
    }
    let count = 2 + n.size(1, 9);
    // Bundles of many short ranges and bundles of a few long ones far apart: the walk skips far ahead.
    let mixed = n.bool();
    for _ in 0..count {
        let dense = mixed && n.bool();
        let bump = ctx.bump();
        let b = ctx.bundles.add(bump);
        let mut at = n.below(if dense { 2 } else { span });
        let k = 1 + n.below(if dense { 40 } else { 5 });
        for _ in 0..k {
            let to = at + 1 + n.below(if dense { 2 } else if mixed { 40 } else { 5 });
            let range = CodeRange { from: ProgPoint::from_index(at as u32), to: ProgPoint::from_index(to as u32) };
            let bump = ctx.bump();
            let lr = ctx.ranges.add(range, bump);
            ctx.ranges[lr].bundle = b;
            ctx.bundles[b].ranges.push(LiveRangeListEntry { range, index: lr });
            at = to + n.below(if dense { 3 } else if mixed { 60 } else { 6 });
        }
        let w = n.below(20) as u32;
        ctx.bundles[b].set_cached_spill_weight_and_props(w, false, false, false, false);
        ctx.bundles[b].prio = n.below(9) as u32;
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    let mut at: Vec<Option<usize>> = (0..count).map(|_| None).collect();
    let mut list = Vec::new();
    let steps = n.size(4, 30);
    for _ in 0..steps {
        let i = n.below(count);
        let b = LiveBundleIndex::new(i);
        if at[i].is_some() {
            env.evict_bundle(b);
            at[i] = None;
            assert!(env.ctx.bundles[b].allocation.is_none(), "an evicted bundle is still assigned");
            assert!(env.ctx.allocation_queue.pop().map(|x| x.0) == Some(b), "an evicted bundle does not wait to be assigned again");
            booked(&env);
            continue;
        }
        let r = n.below(regs);
        let limit = if n.below(3) == 0 { Some(n.below(20) as u32) } else { None };
        let over = |o: usize, env: &Env<_>| env.ctx.bundles[b].ranges.iter().any(|x| env.ctx.bundles[LiveBundleIndex::new(o)].ranges.iter().any(|y| meet(x.range, y.range)));
        let want: Vec<usize> = (0..count).filter(|&o| at[o] == Some(r) && over(o, &env)).collect();
        let taken = env.ctx.bundles[b].ranges.iter().any(|x| fixed[r].iter().any(|y| meet(x.range, *y)));
        let res = match env.try_to_allocate_bundle_to_reg(b, PRegIndex::new(r), limit, &mut list) {
            AllocRegResult::Allocated(a) => {
                assert!(want.is_empty() && !taken, "assigned a register that is taken");
                assert!(a == Allocation::reg(PReg::from_index(r)));
                true
            }
            AllocRegResult::Conflict(c, _) => {
                let mut c: Vec<usize> = c.iter().map(|x| x.index()).collect();
                c.sort_unstable();
                assert!(!c.is_empty() && c == want, "the bundles reported are not those in the way");
                assert!(!taken, "a reservation in the way is not reported");
                false
            }
            AllocRegResult::ConflictWithFixed(..) => { assert!(taken, "no reservation is in the way"); false }
            AllocRegResult::ConflictHighCost => {
                assert!(limit.is_some() && want.iter().any(|&o| env.ctx.bundles[LiveBundleIndex::new(o)].cached_spill_weight() > limit.unwrap()), "nothing in the way costs more than allowed");
                false
            }
        };
        if res { at[i] = Some(r); assert!(env.ctx.bundles[b].allocation == Allocation::reg(PReg::from_index(r))); }
        else { assert!(env.ctx.bundles[b].allocation.is_none(), "assigned in spite of a conflict"); }
        n.cov(0, res);
        booked(&env);
    }
}
/// At the end of whole runs.
#[cfg(feature = "fuzzing")]
pub fn c_whole<N: Nd>(n: &mut N) {
    let c = crate::verif::runfn::any_case(n);
    n.assume(c.is_some());
    let c = c.unwrap();
    let mut ctx = Ctx::default();
    if ctx.cfginfo.init(&c.f, &mut ctx.cfginfo_ctx).is_err() { return; }
    let mut env = Env::new(&c.f, &c.env, &mut ctx);
    if env.init().is_err() { return; }
    if env.run().is_err() { return; }
    booked(&env);
}
#[cfg(not(feature = "fuzzing"))]
pub fn c_whole<N: Nd>(_n: &mut N) {}
/// The groups left over: each ends in a register that is free of everything in its way, or has its spill slot asked for; and only then.
pub fn c_spilled<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let mut e = crate::verif::no_env();
    let regs = n.below(4);
    for r in 0..regs { if n.bool() { e.preferred_regs_by_class[0].add(PReg::new(r, RegClass::Int)); } else { e.non_preferred_regs_by_class[0].add(PReg::new(r, RegClass::Int)); } }
    let mut ctx = Ctx::default();
    for _ in 0..256 { ctx.pregs.push(PRegData { allocations: LiveRangeSet::new(), is_stack: false }); }
    let mut fixed: Vec<Vec<CodeRange>> = (0..regs).map(|_| Vec::new()).collect();
    for r in 0..regs {
        let mut at = n.below(40);
        while at < 40 && n.bool() {
            let c = CodeRange { from: ProgPoint::from_index(at as u32), to: ProgPoint::from_index(at as u32 + 1) };
            ctx.pregs[r].allocations.btree.insert(LiveRangeKey::from_range(&c), LiveRangeIndex::invalid());
            fixed[r].push(c);
            at += 1 + n.below(30);
        }
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    let count = 1 + n.below(8);
    for _ in 0..count {
        let hint = if regs > 0 && n.bool() { PReg::new(n.below(regs), RegClass::Int) } else { PReg::invalid() };
        let asked = n.below(6) == 0;
        let set = env.ctx.spillsets.push(crate::ion::data_structures::SpillSet { slot: crate::ion::data_structures::SpillSlotIndex::invalid(), hint, class: RegClass::Int, spill_bundle: LiveBundleIndex::invalid(), required: asked, splits: 0, range: CodeRange { from: ProgPoint::from_index(0), to: ProgPoint::from_index(1000) } });
        let bump = env.ctx.bump();
        let of = env.ctx.bundles.add(bump);
        env.ctx.bundles[of].spillset = set;
        let (bundles, sets) = (env.ctx.bundles.len(), env.ctx.spilled_bundles.len());
        assert!(env.get_or_create_spill_bundle(of, false).is_none() && env.ctx.bundles.len() == bundles && env.ctx.spilled_bundles.len() == sets, "a group has a spill group that was not made");
        let b = env.get_or_create_spill_bundle(of, true).unwrap();
        assert!(env.get_or_create_spill_bundle(of, n.bool()) == Some(b) && env.get_or_create_spill_bundle(b, true) == Some(b), "a group has two spill groups");
        assert!(env.ctx.spilled_bundles[sets..] == [b] && env.ctx.bundles[b].spillset == set && env.ctx.bundles[b].ranges.is_empty() && env.ctx.bundles.len() == bundles + 1, "a spill group is not on the list once");
        // Another group of the same spill slot may be left over, too.
        let mut mine = vec![b];
        if n.below(3) == 0 { env.ctx.bundles[of].spillset = set; env.ctx.spilled_bundles.push(of); mine.push(of); }
        for b in mine {
            let k = n.below(5);
            let mut at = n.below(40);
            for _ in 0..k {
                let to = at + 1 + n.below(10);
                let range = CodeRange { from: ProgPoint::from_index(at as u32), to: ProgPoint::from_index(to as u32) };
                let bump = env.ctx.bump();
                let lr = env.ctx.ranges.add(range, bump);
                env.ctx.ranges[lr].bundle = b;
                let i = n.below(env.ctx.bundles[b].ranges.len() + 1);
                env.ctx.bundles[b].ranges.insert(i, LiveRangeListEntry { range, index: lr });
                at = to + n.below(20);
            }
            if n.below(4) == 0 { env.ctx.bundles[b].limit = Some(n.below(4) as u8); }
        }
    }
    let was: Vec<bool> = (0..env.ctx.spillsets.len()).map(|s| env.ctx.spillsets[SpillSetIndex::new(s)].required).collect();
    let lists: Vec<Vec<(u32, u32, usize)>> = (0..env.ctx.bundles.len()).map(|b| all_of(&env, b)).collect();
    env.try_allocating_regs_for_spilled_bundles();
    booked(&env);
    let over = |a: &LiveRangeList, b: &LiveRangeList| a.iter().any(|x| b.iter().any(|y| meet(x.range, y.range)));
    let mut need = vec![false; was.len()];
    for i in 0..env.ctx.spilled_bundles.len() {
        let b = env.ctx.spilled_bundles[i];
        let d = &env.ctx.bundles[b];
        if d.ranges.is_empty() { assert!(d.allocation.is_none(), "an empty group has a register"); continue; }
        let may = |r: usize| d.limit.map_or(true, |l| r < l as usize);
        match d.allocation.as_reg() {
            Some(r) => {
                assert!(r.hw_enc() < regs && may(r.hw_enc()), "a register that the group must not have");
                assert!(!d.ranges.iter().any(|x| fixed[r.index()].iter().any(|y| meet(x.range, *y))), "a reserved register");
            }
            None => {
                need[d.spillset.index()] = true;
                assert!(env.ctx.spillsets[d.spillset].required, "a group is in no register and no spill slot is asked for");
                for r in 0..regs {
                    let taken = d.ranges.iter().any(|x| fixed[r].iter().any(|y| meet(x.range, *y))) || (0..env.ctx.bundles.len()).any(|o| { let o = &env.ctx.bundles[LiveBundleIndex::new(o)]; o.allocation == Allocation::reg(PReg::from_index(r)) && over(&o.ranges, &d.ranges) });
                    assert!(!may(r) || taken, "a spill slot is asked for though a register is free");
                }
            }
        }
    }
    for s in 0..was.len() { assert!(env.ctx.spillsets[SpillSetIndex::new(s)].required == (was[s] || need[s]), "a spill slot is asked for that no group needs"); }
    for b in 0..lists.len() { assert!(all_of(&env, b) == lists[b], "a group has lost a live range"); }
}
fn all_of<F: crate::Function>(env: &Env<F>, b: usize) -> Vec<(u32, u32, usize)> {
    let mut v: Vec<(u32, u32, usize)> = env.ctx.bundles[LiveBundleIndex::new(b)].ranges.iter().map(|e| (e.range.from.to_index(), e.range.to.to_index(), e.index.index())).collect();
    v.sort_unstable();
    v
}
