// P24: what cannot be split outweighs what can, and every group is queued once by its length.
use crate::ion::data_structures::{LiveBundle, LiveRangeFlag, PrioQueueEntry, Use, VRegIndex};
struct Gr { ranges: Vec<(u32, u32)>, uses: Vec<Vec<(u32, OperandConstraint, OperandKind)>>, reserved: bool }
/// The least stretch of the program that a use needs: (from, to).
fn need(u: &(u32, OperandConstraint, OperandKind)) -> (u32, u32) {
    let i = u.0 / 2 * 2;
    match (u.0 % 2, u.2) { (0, OperandKind::Use) => (i, i + 1), (0, OperandKind::Def) => (i, i + 2), (_, OperandKind::Use) => (i, i + 2), (_, OperandKind::Def) => (i + 1, i + 2) }
}
pub fn c_weigh<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    let count = n.size(2, 10);
    let mut all: Vec<Gr> = Vec::new();
    for i in 0..count {
        let bump = ctx.bump();
        let b = ctx.bundles.add(bump.clone());
        let mut m = Gr { ranges: Vec::new(), uses: Vec::new(), reserved: n.below(10) == 0 };
        let mut at = n.below(60) as u32;
        let k = match n.below(8) { 0 => 0, 1..=5 => 1, _ => 2 + n.below(3) };
        for _ in 0..k {
            let wide = if n.bool() { 2 } else { 7 };
            let to = at + 1 + n.below(wide) as u32;
            let range = CodeRange { from: ProgPoint::from_index(at), to: ProgPoint::from_index(to) };
            let lr = ctx.ranges.add(range, bump.clone());
            ctx.ranges[lr].bundle = b;
            if !m.reserved { ctx.ranges[lr].vreg = VRegIndex::new(i); }
            let mut us = Vec::new();
            let often = n.below(4) as u32;
            let mut pos = (at / 2 * 2).max(at.saturating_sub(1));
            while !m.reserved && pos <= to && us.len() < 5 {
                if n.below(1 + often as usize) == 0 {
                    let c = match n.below(8) {
                        0 => OperandConstraint::Any, 1 | 2 => OperandConstraint::Reg, 3 => OperandConstraint::Stack,
                        4 | 5 => OperandConstraint::Limit(1 << n.below(7)),
                        _ => OperandConstraint::FixedReg(PReg::new(n.below(4), RegClass::Int)),
                    };
                    let kind = if n.bool() { OperandKind::Def } else { OperandKind::Use };
                    let op = Operand::new(VReg::new(i, RegClass::Int), c, kind, if kind == OperandKind::Def { OperandPos::Late } else { OperandPos::Early });
                    ctx.ranges[lr].uses.push(Use::new(op, ProgPoint::from_index(pos), 0));
                    us.push((pos, c, kind));
                }
                pos += 1;
            }
            ctx.bundles[b].ranges.push(LiveRangeListEntry { range, index: lr });
            m.ranges.push((at, to)); m.uses.push(us);
            // The weight of its uses is anything.
            ctx.ranges[lr].uses_spill_weight_and_flags = match n.below(4) { 0 => 0, 1 => 0x1fff_ffff, 2 => 0x1fdf_ffff, _ => (1000.0f32 * (1 + n.below(1000)) as f32).to_bits() >> 2 };
            at = to + n.below(30) as u32;
        }
        // What an earlier look left.
        ctx.bundles[b].spill_weight_and_props = match n.below(3) { 0 => u32::MAX, 1 => 0x4000_0000, _ => 0 };
        ctx.bundles[b].limit = if n.bool() { Some(1) } else { None };
        all.push(m);
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    env.annotations_enabled = false;
    for m in 0..count { for k in 0..all[m].ranges.len() {
        let lr = env.ctx.bundles[LiveBundleIndex::new(m)].ranges[k].index;
        let before = (env.ctx.ranges[lr].has_flag(LiveRangeFlag::StartsAtDef), env.ctx.ranges[lr].uses.len());
        if n.bool() { continue; }
        env.recompute_range_properties(lr);
        let def = all[m].uses[k].first().map_or(false, |u| u.2 == OperandKind::Def);
        assert!(env.ctx.ranges[lr].has_flag(LiveRangeFlag::StartsAtDef) == (before.0 || def) && env.ctx.ranges[lr].uses.len() == before.1, "whether a range starts with a definition is wrong");
    } }
    env.queue_bundles();
    let mut queued = vec![0; count];
    for q in env.ctx.allocation_queue.heap.iter() {
        let PrioQueueEntry { prio, bundle, .. } = q;
        queued[bundle.index()] += 1;
        let len: u32 = all[bundle.index()].ranges.iter().map(|r| r.1 / 2 - r.0 / 2).sum();
        assert!(*prio == len && env.ctx.bundles[*bundle].prio == len, "a group is not queued by its length");
    }
    for (i, m) in all.iter().enumerate() {
        assert!(queued[i] == if m.ranges.is_empty() { 0 } else { 1 }, "a group is not queued once");
        if m.ranges.is_empty() { continue; }
        let b = &env.ctx.bundles[LiveBundleIndex::new(i)];
        assert!(b.ranges.iter().map(|e| (e.range.from.to_index(), e.range.to.to_index())).collect::<Vec<_>>() == m.ranges, "looking at a group has changed its ranges");
        let single = m.ranges.len() == 1;
        let minimal = m.reserved || single && match m.uses[0].len() { 0 => true, 1 => { let w = need(&m.uses[0][0]); w.0 <= m.ranges[0].0 && m.ranges[0].1 <= w.1 } _ => false };
        n.cov(0, minimal); n.cov(1, !minimal);
        assert!(b.cached_minimal() == minimal && env.minimal_bundle(LiveBundleIndex::new(i)) == minimal, "what can be split is taken for what cannot, or the reverse");
        let fix = |u: &(u32, OperandConstraint, OperandKind)| matches!(u.1, OperandConstraint::FixedReg(_));
        let stk = |u: &(u32, OperandConstraint, OperandKind)| u.1 == OperandConstraint::Stack;
        let mut least: Option<usize> = None; let mut any = false;
        for us in &m.uses {
            if us.iter().any(|u| fix(u) || stk(u)) { any = true; continue; }
            for u in us { if let OperandConstraint::Limit(k) = u.1 { least = Some(least.map_or(k, |l| l.min(k))); } }
        }
        if let Some(k) = least { assert!(b.limit.map_or(false, |l| l as usize <= k), "a group's limit is not the least"); }
        if !any { assert!(b.limit.map(|l| l as usize) == least, "a group is limited without need"); }
        if m.reserved { assert!(b.cached_fixed()); }
        else if single {
            let u = &m.uses[0];
            assert!(b.cached_fixed() == u.iter().any(fix), "a group's mark of a fixed use is wrong");
            if !(u.iter().any(fix) && u.iter().any(stk)) {
                assert!(b.cached_stack() == u.iter().any(stk), "a group's mark of a stack use is wrong");
                assert!(b.cached_fixed_def() == u.iter().any(|u| fix(u) && u.2 == OperandKind::Def), "a group's mark of a fixed definition is wrong");
            }
        }
    }
    // What cannot be split outweighs what can; of those, a fixed place a choice, a tight choice a wide one.
    let rank = |b: &LiveBundle| if !b.cached_minimal() { None } else if b.cached_fixed() { Some(1000) } else if let Some(l) = b.limit { Some(999 - l as i32) } else { Some(0) };
    for x in 0..count { for y in 0..count {
        if all[x].ranges.is_empty() || all[y].ranges.is_empty() { continue; }
        let (x, y) = (&env.ctx.bundles[LiveBundleIndex::new(x)], &env.ctx.bundles[LiveBundleIndex::new(y)]);
        if rank(x) > rank(y) { assert!(x.cached_spill_weight() > y.cached_spill_weight(), "what can be moved outweighs what cannot"); }
    } }
}
