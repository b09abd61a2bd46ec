// P25: splitting a group loses no use and no part of its live ranges.
use crate::ion::data_structures::{SpillSet, SpillSlotIndex, Use, VRegData, VRegIndex, MAX_SPLITS_PER_SPILLSET};
/// The least stretch of the program that a use needs: (from, to).
fn need(u: &Use) -> (u32, u32) {
    let i = u.pos.to_index() / 2 * 2;
    match (u.pos.to_index() % 2, u.operand.kind()) { (0, OperandKind::Use) => (i, i + 1), (0, OperandKind::Def) => (i, i + 2), (_, OperandKind::Use) => (i, i + 2), (_, OperandKind::Def) => (i + 1, i + 2) }
}
fn ends(r: CodeRange) -> (u32, u32) { (r.from.to_index(), r.to.to_index()) }
/// Any chain of splits of one bundle.
pub fn c_split<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    let bump = ctx.bump();
    let set = ctx.spillsets.push(SpillSet { slot: SpillSlotIndex::invalid(), hint: PReg::invalid(), class: RegClass::Int, spill_bundle: LiveBundleIndex::invalid(), required: false, splits: n.below(1 + MAX_SPLITS_PER_SPILLSET as usize) as u8, range: CodeRange { from: ProgPoint::from_index(0), to: ProgPoint::from_index(1000) } });
    let first = ctx.bundles.add(bump.clone());
    ctx.bundles[first].spillset = set;
    // The live ranges as they are: of which variable, from, to.
    let mut all: Vec<(usize, u32, u32)> = Vec::new();
    // The uses: of which variable, and what kind.
    let mut uses: Vec<(usize, Use)> = Vec::new();
    let mut at = n.below(8) as u32;
    let vars = 1 + n.below(3);
    for v in 0..vars {
        ctx.vregs.push(VRegData { ranges: LiveRangeList::new_in(bump.clone()), blockparam: crate::Block::invalid(), class: Some(RegClass::Int) });
        for k in 0..1 + n.below(2) {
            let to = at + 1 + n.below(20) as u32;
            let lr = ctx.ranges.add(CodeRange { from: ProgPoint::from_index(at), to: ProgPoint::from_index(to) }, bump.clone());
            ctx.ranges[lr].vreg = VRegIndex::new(v);
            ctx.ranges[lr].bundle = first;
            let often = n.below(5);
            let mut mine = 0;
            let mut defined = u32::MAX;
            for p in at / 2 * 2..to {
                if mine >= 6 || n.below(2 + often) != 0 || p / 2 == defined { continue; }
                // Only the first range of a variable begins with its definition.
                let def = k == 0 && mine == 0 && p / 2 == at / 2 && n.bool();
                let c = match n.below(6) { 0 | 1 => OperandConstraint::Any, 2 => OperandConstraint::Reg, 3 => OperandConstraint::FixedReg(PReg::new(n.below(3), RegClass::Int)), 4 => OperandConstraint::Stack, _ => OperandConstraint::Limit(1 << n.below(4)) };
                let op = Operand::new(VReg::new(v, RegClass::Int), c, if def { OperandKind::Def } else { OperandKind::Use }, if p % 2 == 1 { OperandPos::Late } else { OperandPos::Early });
                let mut u = Use::new(op, ProgPoint::from_index(p), uses.len() as u16);
                u.weight = crate::ion::liveranges::spill_weight_from_constraint(c, n.below(4), def).to_bits();
                let w = need(&u);
                if w.0 < at || w.1 > to || def && w.0 != at { continue; }
                ctx.ranges[lr].uses.push(u);
                uses.push((v, u));
                mine += 1;
                if def { defined = p / 2; }
            }
            let range = ctx.ranges[lr].range;
            ctx.bundles[first].ranges.push(LiveRangeListEntry { range, index: lr });
            ctx.vregs[VRegIndex::new(v)].ranges.push(LiveRangeListEntry { range, index: lr });
            all.push((v, at, to));
            at = to + n.below(4) as u32;
        }
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    env.annotations_enabled = false;
    // Where a variable's live range starts with a definition, be it by a use or not.
    let mut starts: Vec<(usize, u32)> = Vec::new();
    for r in 0..env.ctx.ranges.len() {
        let lr = LiveRangeIndex::new(r);
        if n.below(4) == 0 { env.ctx.ranges[lr].set_flag(crate::ion::data_structures::LiveRangeFlag::StartsAtDef); }
        env.recompute_range_properties(lr);
        if env.ctx.ranges[lr].has_flag(crate::ion::data_structures::LiveRangeFlag::StartsAtDef) { starts.push((all[r].0, all[r].1)); }
    }
    env.recompute_bundle_properties(first);
    let mut todo = vec![first];
    let mut done = Vec::new();
    let mut whole = true;
    let steps = n.size(2, 25);
    for _ in 0..steps {
        if todo.is_empty() { break; }
        let b = todo.remove(n.below(todo.len()));
        if env.minimal_bundle(b) { done.push(b); continue; }
        let before: Vec<(u32, u32)> = env.ctx.bundles[b].ranges.iter().map(|e| ends(e.range)).collect();
        let many = |env: &Env<_>, b: LiveBundleIndex| env.ctx.bundles[b].ranges.iter().map(|e| env.ctx.ranges[e.index].uses.len()).sum::<usize>();
        let held = many(&env, b);
        let (from, to) = (before[0].0, before[before.len() - 1].1);
        let to_min = env.ctx.spillsets[set].splits >= MAX_SPLITS_PER_SPILLSET || (to - 1) / 2 == from / 2;
        let hint = if n.bool() { PReg::new(n.below(3), RegClass::Int) } else { PReg::invalid() };
        let at = match n.below(3) { 0 => from, _ => from + n.below((to - from) as usize) as u32 };
        // A group of several ranges may be marked, too.
        if n.bool() && env.ctx.bundles[b].ranges.iter().any(|e| env.ctx.ranges[e.index].uses.iter().any(|u| matches!(u.operand.constraint(), OperandConstraint::FixedReg(_)))) { env.ctx.bundles[b].set_cached_fixed(); }
        env.split_and_requeue_bundle(b, ProgPoint::from_index(at), hint, n.bool());
        whole &= !to_min;
        n.cov(0, to_min); n.cov(1, !to_min);
        let mut got = Vec::new();
        while let Some((q, h)) = env.ctx.allocation_queue.pop() {
            assert!(!env.ctx.bundles[q].ranges.is_empty() && h == hint, "an empty group is queued, or one with another hint");
            assert!(!got.contains(&q) && !todo.contains(&q), "a group is queued twice");
            let after: Vec<(u32, u32)> = env.ctx.bundles[q].ranges.iter().map(|e| ends(e.range)).collect();
            assert!(env.minimal_bundle(q) || after != before || many(&env, q) < held, "splitting has made no progress");
            assert!(!to_min || env.minimal_bundle(q) , "what is split to the least can be split still");
            // What is recorded of a piece is of the piece, not of the whole.
            let told = |env: &Env<_>| { let b = &env.ctx.bundles[q]; (b.prio, b.spill_weight_and_props, b.limit) };
            let was = told(&env);
            for i in 0..env.ctx.bundles[q].ranges.len() {
                let lr = env.ctx.bundles[q].ranges[i].index;
                let w = env.ctx.ranges[lr].uses_spill_weight().to_f32();
                let sum: f32 = env.ctx.ranges[lr].uses.iter().map(|u| crate::ion::liveranges::SpillWeight::from_bits(u.weight).to_f32()).sum();
                assert!(env.minimal_bundle(q) || (w - sum).abs() <= 0.001 + sum * 0.01, "a piece weighs what another part weighs");
            }
            env.recompute_bundle_properties(q);
            assert!(told(&env) == was, "what is recorded of a piece is not of it");
            got.push(q);
        }
        todo.extend(got.iter().copied());
        for b in 0..env.ctx.bundles.len() {
            let b = LiveBundleIndex::new(b);
            assert!(env.ctx.bundles[b].ranges.is_empty() || b == env.ctx.spillsets[set].spill_bundle || todo.contains(&b) || done.contains(&b), "a group that splitting leaves is not queued");
        }
        look(&env, set, &all, &uses, whole, &starts);
    }
}
fn look<F: crate::Function>(env: &Env<F>, set: SpillSetIndex, all: &[(usize, u32, u32)], uses: &[(usize, Use)], whole: bool, starts: &[(usize, u32)]) {
    let spill = env.ctx.spillsets[set].spill_bundle;
    // Every live range that a variable has is in the group it names, and every group's is its variable's.
    let mut seen = vec![0usize; uses.len()];
    let mut of = vec![None; env.ctx.ranges.len()];
    let mut pieces: Vec<(usize, u32, u32)> = Vec::new();
    for v in 0..env.ctx.vregs.len() {
        for e in &env.ctx.vregs[VRegIndex::new(v)].ranges {
            assert!(of[e.index.index()].is_none(), "a variable has a live range twice, or two have one");
            of[e.index.index()] = Some(v);
        }
    }
    for b in 0..env.ctx.bundles.len() {
        let b = LiveBundleIndex::new(b);
        let l = &env.ctx.bundles[b].ranges;
        assert!(env.ctx.bundles[b].spillset == set, "a piece has another spill slot than the whole");
        apart(l);
        if b != spill { for w in l.windows(2) { assert!(w[0].range.to <= w[1].range.from, "a group's ranges are out of order"); } }
        for e in l {
            let r = &env.ctx.ranges[e.index];
            assert!(r.bundle == b, "a live range is told of another group than has it");
            assert!(r.range == e.range && e.range.from < e.range.to, "a live range is told of another extent than it has");
            let v = of[e.index.index()].take().expect("a live range is in two groups, or of no variable");
            assert!(!r.vreg.is_valid() || r.vreg.index() == v, "a live range has changed its variable");
            let (from, to) = ends(e.range);
            pieces.push((v, from, to));
            for w in r.uses.windows(2) { assert!(w[0].pos <= w[1].pos, "uses are out of order"); }
            for u in &r.uses {
                let (x, o) = &uses[u.slot as usize];
                seen[u.slot as usize] += 1;
                assert!(*x == v && o.operand == u.operand && o.pos == u.pos && o.weight == u.weight, "a use has been changed or given to another variable");
                let w = need(u);
                assert!(from <= w.0 && w.1 <= to || b == spill && o.operand.constraint() == OperandConstraint::Any && (from <= u.pos.to_index() && u.pos.to_index() < to), "a use is outside of its live range: {:?} {:?} in {:?} group {:?} spill {:?} all {:?} uses {:?}", u.operand, u.pos, e.range, b, spill, all, uses);
            }
            if r.uses.first().map_or(false, |u| u.operand.kind() == OperandKind::Def) { assert!(r.has_flag(crate::ion::data_structures::LiveRangeFlag::StartsAtDef), "a live range that starts with a definition is not marked"); }
        }
    }
    assert!(of.iter().all(|o| o.is_none()), "a variable's live range is in no group");
    for s in &seen { assert!(*s == 1, "a use is lost, or kept twice"); }
    for v in 0..env.ctx.vregs.len() {
        for p in 0..=all.last().unwrap().2 {
            let was = all.iter().filter(|r| r.0 == v && r.1 <= p && p < r.2).count();
            let is = pieces.iter().filter(|r| r.0 == v && r.1 <= p && p < r.2).count();
            assert!((was > 0) <= (is > 0), "a part of a live range is lost");
            assert!((is > 0) <= (was > 0), "a variable is live where it was not");
            assert!(!whole || is == was, "parts of a live range overlap");
        }
    }
    // Nothing else of a variable is there before its definition is done; what starts with it is known to.
    for v in 0..env.ctx.vregs.len() {
        let l = &env.ctx.vregs[VRegIndex::new(v)].ranges;
        for e in l {
            let r = &env.ctx.ranges[e.index];
            for u in r.uses.iter().filter(|u| u.operand.kind() == OperandKind::Def) {
                for o in l { assert!(o.index == e.index || o.range.from.to_index() >= need(u).1, "a piece begins before the definition is done"); }
            }
            let start = starts.contains(&(v, e.range.from.to_index()));
            assert!(!whole || !start || r.has_flag(crate::ion::data_structures::LiveRangeFlag::StartsAtDef), "it is forgotten that a live range starts with a definition");
        }
    }
}
/// A group's ranges, in whatever order, do not overlap.
fn apart(l: &LiveRangeList) {
    for i in 0..l.len() { for j in 0..i { assert!(l[i].range.to <= l[j].range.from || l[j].range.to <= l[i].range.from, "two ranges of a group overlap"); } }
}
