// P23: groups of live ranges are merged only when they fit together, and become exactly both.
use crate::ion::data_structures::{SpillSet, SpillSetIndex, SpillSlotIndex, Use, VRegData, VRegIndex};
#[derive(Clone, Copy, PartialEq, Debug)]
enum Req { Any, Reg, Fixed(PReg), Stack, Limit(usize) }
/// Location i: a register below 6, the stack at 6.
fn fits(r: Req, i: usize) -> bool {
    match r { Req::Any => true, Req::Reg => i < 6, Req::Fixed(p) => i < 6 && p.hw_enc() == i, Req::Stack => i == 6, Req::Limit(k) => i < 6 && i < k }
}
#[derive(Clone)]
struct Bd { ranges: Vec<(CodeRange, usize)>, reqs: Vec<Req>, class: RegClass, set: SpillSetIndex, fixed_def: bool, taken: bool }
fn rounded(b: &Bd, r: CodeRange) -> CodeRange { if b.fixed_def { CodeRange { from: ProgPoint::before(r.from.inst()), to: r.to } } else { r } }
fn meets(a: CodeRange, b: CodeRange) -> bool { a.from < b.to && b.from < a.to }
/// Everything known of the bundles is what the environment says of them.
fn same<F: crate::Function>(env: &Env<F>, all: &[Bd], slots: &[CodeRange]) {
    for (i, m) in all.iter().enumerate() {
        let b = &env.ctx.bundles[LiveBundleIndex::new(i)];
        let got: Vec<(CodeRange, usize)> = b.ranges.iter().map(|e| (e.range, e.index.index())).collect();
        assert!(got == m.ranges, "a bundle's ranges are not its own, in order, each once");
        for e in b.ranges.iter() {
            assert!(env.ctx.ranges[e.index].bundle.index() == i, "a live range is told of another bundle than has it");
            assert!(env.ctx.ranges[e.index].range == e.range);
        }
        assert!(b.spillset == m.set && b.allocation.is_some() == m.taken);
        let s = &env.ctx.spillsets[m.set];
        assert!(s.class == m.class, "the class of a bundle has changed");
        for (r, _) in &m.ranges { assert!(s.range.from <= r.from && r.to <= s.range.to, "a spill set does not cover its ranges"); }
        assert!(b.cached_fixed() || !m.reqs.iter().any(|r| matches!(r, Req::Fixed(_))), "a bundle with a fixed use is not marked");
        assert!(b.cached_stack() || !m.reqs.contains(&Req::Stack), "a bundle with a stack use is not marked");
        assert!(b.cached_fixed_def() || !m.fixed_def, "a bundle with a fixed definition is not marked");
        for r in &m.reqs { if let Req::Limit(k) = r { assert!(b.limit.map(|l| l as usize <= *k) == Some(true), "a bundle's limit is not the least"); } }
    }
    for (i, r) in slots.iter().enumerate() { let s = &env.ctx.spillsets[SpillSetIndex::new(i)].range; assert!(s.from <= r.from && r.to <= s.to, "a spill set has lost a part"); }
}
/// Any sequence of merges.
pub fn c_merge<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    for _ in 0..256 { ctx.pregs.push(PRegData { allocations: LiveRangeSet::new(), is_stack: false }); }
    let count = 2 + n.size(1, 8);
    let span = 20 + n.below(200);
    let mut all: Vec<Bd> = Vec::new();
    let mut slots = Vec::new();
    let tight = n.bool();
    let plain = n.bool();
    for i in 0..count {
        let class = if n.below(6) == 0 { RegClass::Float } else { RegClass::Int };
        let bump = ctx.bump();
        ctx.vregs.push(VRegData { ranges: LiveRangeList::new_in(bump.clone()), blockparam: crate::Block::invalid(), class: Some(class) });
        let vreg = VRegIndex::new(i);
        let b = ctx.bundles.add(bump.clone());
        let mut m = Bd { ranges: Vec::new(), reqs: Vec::new(), class, set: SpillSetIndex::new(i), fixed_def: false, taken: false };
        let k = match n.below(12) { 0 => 0, 1..=6 => 1, 7 => n.below(60), _ => 2 + n.below(3) };
        let mut at = n.below(span);
        let mut fixed = false; let mut stack = false; let mut limit: Option<u8> = None;
        for _ in 0..k {
            let to = at + 1 + n.below(if tight { 3 } else { 6 });
            let range = CodeRange { from: ProgPoint::from_index(at as u32), to: ProgPoint::from_index(to as u32) };
            let lr = ctx.ranges.add(range, bump.clone());
            ctx.ranges[lr].vreg = vreg;
            ctx.ranges[lr].bundle = b;
            let mut pos = at;
            while pos < to && n.below(3) == 0 {
                let p = PReg::new(n.below(4), class);
                let lim = 1usize << n.below(3);
                let (c, r) = match if plain { n.below(2) } else { n.below(8) } {
                    0 | 5 => (OperandConstraint::Any, Req::Any),
                    1 | 6 => (OperandConstraint::Reg, Req::Reg),
                    2 => (OperandConstraint::Stack, Req::Stack),
                    3 => (OperandConstraint::Limit(lim), Req::Limit(lim)),
                    _ => (OperandConstraint::FixedReg(p), Req::Fixed(p)),
                };
                let kind = if n.below(3) == 0 { OperandKind::Def } else { OperandKind::Use };
                let op = Operand::new(VReg::new(i, class), c, kind, if kind == OperandKind::Def { OperandPos::Late } else { OperandPos::Early });
                ctx.ranges[lr].uses.push(Use::new(op, ProgPoint::from_index(pos as u32), 0));
                match r { Req::Fixed(_) => { fixed = true; if kind == OperandKind::Def { m.fixed_def = true; } } Req::Stack => stack = true, Req::Limit(l) => limit = Some(limit.map_or(l as u8, |x| x.min(l as u8))), _ => {} }
                m.reqs.push(r);
                pos += 1 + n.below(2);
            }
            ctx.bundles[b].ranges.push(LiveRangeListEntry { range, index: lr });
            m.ranges.push((range, lr.index()));
            at = to + n.below(if tight { 2 } else { 40 });
        }
        let all_of = CodeRange { from: m.ranges.first().map_or(ProgPoint::from_index(0), |r| r.0.from), to: m.ranges.last().map_or(ProgPoint::from_index(0), |r| r.0.to) };
        if fixed { ctx.bundles[b].set_cached_fixed(); }
        if m.fixed_def { ctx.bundles[b].set_cached_fixed_def(); }
        if stack { ctx.bundles[b].set_cached_stack(); }
        ctx.bundles[b].limit = limit;
        ctx.bundles[b].spillset = ctx.spillsets.push(SpillSet { slot: SpillSlotIndex::invalid(), hint: PReg::invalid(), class, spill_bundle: LiveBundleIndex::invalid(), required: false, splits: 0, range: all_of });
        if n.below(12) == 0 { m.taken = true; ctx.bundles[b].allocation = Allocation::reg(PReg::new(n.below(4), class)); }
        slots.push(all_of);
        all.push(m);
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    env.annotations_enabled = false;
    let steps = n.size(3, 30);
    for _ in 0..steps {
        let (x, y) = (n.below(count), n.below(count));
        let (a, b) = (all[x].clone(), all[y].clone());
        // A bundle whose uses nothing satisfies is split before it is looked at again.
        let res = env.merge_bundles(LiveBundleIndex::new(x), LiveBundleIndex::new(y));
        n.cov(0, res && x != y);
        if x == y { assert!(res); }
        else if res {
            assert!(a.class == b.class, "merged bundles of two classes");
            assert!(!a.taken && !b.taken, "merged a bundle that is in a register already");
            for r in &a.ranges { for s in &b.ranges {
                assert!(!meets(r.0, s.0), "merged bundles that overlap");
                assert!(!meets(rounded(&a, r.0), rounded(&b, s.0)), "merged into the instruction of a fixed definition");
            } }
            let special = |r: &Req| !matches!(r, Req::Any | Req::Reg);
            if a.reqs.iter().chain(&b.reqs).any(special) { assert!((0..7).any(|l| a.reqs.iter().chain(&b.reqs).all(|r| fits(*r, l))), "merged bundles no location suits both of"); }
            if !a.ranges.is_empty() {
                let t = &mut all[y];
                t.ranges.extend(a.ranges.iter().copied());
                t.ranges.sort_by_key(|r| r.0.from);
                t.reqs.extend(a.reqs.iter().copied());
                t.fixed_def |= a.fixed_def;
                if !b.ranges.is_empty() { let s = &mut slots[y]; s.from = s.from.min(slots_of(&a).from); s.to = s.to.max(slots_of(&a).to); }
                else { env.ctx.spillsets[b.set].range = slots_of(&a); slots[y] = slots_of(&a); }
                let f = &mut all[x]; f.ranges.clear(); f.reqs.clear(); f.fixed_def = false;
            }
        }
        same(&env, &all, &slots);
    }
}
fn slots_of(a: &Bd) -> CodeRange { CodeRange { from: a.ranges.first().unwrap().0.from, to: a.ranges.last().unwrap().0.to } }
/// A bundle for every variable, before anything is merged.
pub fn c_start<N: Nd>(n: &mut N) {
    let f = crate::verif::TF::empty();
    let e = crate::verif::no_env();
    let mut ctx = Ctx::default();
    let count = n.size(2, 6);
    let mut all: Vec<Bd> = Vec::new();
    for i in 0..count {
        let class = match n.below(3) { 0 => RegClass::Int, 1 => RegClass::Float, _ => RegClass::Vector };
        let bump = ctx.bump();
        let mut list = LiveRangeList::new_in(bump.clone());
        let mut m = Bd { ranges: Vec::new(), reqs: Vec::new(), class, set: SpillSetIndex::invalid(), fixed_def: false, taken: false };
        let mut at = n.below(40);
        for _ in 0..n.below(4) {
            let to = at + 1 + n.below(8);
            let range = CodeRange { from: ProgPoint::from_index(at as u32), to: ProgPoint::from_index(to as u32) };
            let lr = ctx.ranges.add(range, bump.clone());
            ctx.ranges[lr].vreg = VRegIndex::new(i);
            for pos in at..to {
                if n.below(3) != 0 { continue; }
                let (p, lim) = (PReg::new(n.below(4), class), 1usize << n.below(7));
                let (c, r) = match n.below(7) {
                    0 => (OperandConstraint::Any, Req::Any), 1 => (OperandConstraint::Reg, Req::Reg), 2 => (OperandConstraint::Stack, Req::Stack),
                    3 => (OperandConstraint::Limit(lim), Req::Limit(lim)), 4 => (OperandConstraint::Reuse(0), Req::Reg),
                    _ => (OperandConstraint::FixedReg(p), Req::Fixed(p)),
                };
                let def = n.below(3) == 0 || matches!(c, OperandConstraint::Reuse(_));
                let op = Operand::new(VReg::new(i, class), c, if def { OperandKind::Def } else { OperandKind::Use }, if def { OperandPos::Late } else { OperandPos::Early });
                ctx.ranges[lr].uses.push(Use::new(op, ProgPoint::from_index(pos as u32), 0));
                if def && matches!(r, Req::Fixed(_)) { m.fixed_def = true; }
                m.reqs.push(r);
            }
            list.push(LiveRangeListEntry { range, index: lr });
            m.ranges.push((range, lr.index()));
            at = to + n.below(20);
        }
        let some = !m.ranges.is_empty();
        ctx.vregs.push(VRegData { ranges: list, blockparam: crate::Block::invalid(), class: if some || n.bool() { Some(class) } else { None } });
        if some { all.push(m); }
    }
    let mut env = Env { func: &f, env: &e, ctx: &mut ctx };
    env.annotations_enabled = false;
    env.merge_vreg_bundles();
    assert!(env.ctx.bundles.len() == all.len(), "not one bundle for every variable");
    for m in &all {
        let b = env.ctx.ranges[LiveRangeIndex::new(m.ranges[0].1)].bundle;
        let d = &env.ctx.bundles[b];
        assert!(d.ranges.iter().map(|e| (e.range, e.index.index())).collect::<Vec<_>>() == m.ranges, "a bundle's ranges are not its variable's");
        assert!(d.ranges.iter().all(|e| env.ctx.ranges[e.index].bundle == b) && d.allocation.is_none());
        let s = &env.ctx.spillsets[d.spillset];
        assert!(s.class == m.class, "a spill set of another class");
        for (r, _) in &m.ranges { assert!(s.range.from <= r.from && r.to <= s.range.to, "a spill set does not cover its ranges"); }
        let special = m.reqs.iter().any(|r| matches!(r, Req::Fixed(_) | Req::Stack | Req::Limit(_)));
        assert!(!special || d.cached_fixed() || d.cached_stack() || d.limit.is_some(), "a bundle's markings tell of no special use");
        assert!(!m.fixed_def || d.cached_fixed_def(), "a bundle with a fixed definition is not marked");
        n.cov(0, special);
    }
}
/// Merging within whole runs: what is left of the bundles before they are assigned.
#[cfg(feature = "fuzzing")]
pub fn c_whole<N: Nd>(n: &mut N) {
    let c = crate::verif::runfn::any_case(n);
    n.assume(c.is_some());
    let c = c.unwrap();
    let mut ctx = Ctx::default();
    if ctx.cfginfo.init(&c.f, &mut ctx.cfginfo_ctx).is_err() { return; }
    let mut env = Env::new(&c.f, &c.env, &mut ctx);
    if env.init().is_err() { return; }
    let mut of = vec![0usize; env.ctx.ranges.len()];
    for b in 0..env.ctx.bundles.len() {
        let b = LiveBundleIndex::new(b);
        let rs = &env.ctx.bundles[b].ranges;
        for w in rs.windows(2) { assert!(w[0].range.to <= w[1].range.from, "a bundle's ranges are out of order or overlap"); }
        let s = env.ctx.bundles[b].spillset;
        for e in rs.iter() {
            assert!(env.ctx.ranges[e.index].bundle == b && env.ctx.ranges[e.index].range == e.range, "a live range is told of another bundle than has it");
            assert!(env.ctx.vregs[env.ctx.ranges[e.index].vreg].class == Some(env.ctx.spillsets[s].class), "a bundle of two classes");
            assert!(env.ctx.spillsets[s].range.from <= e.range.from && e.range.to <= env.ctx.spillsets[s].range.to, "a spill set does not cover its ranges");
            of[e.index.index()] += 1;
        }
    }
    // What the proof takes for granted of the live ranges.
    for v in 0..env.ctx.vregs.len() {
        let d = &env.ctx.vregs[VRegIndex::new(v)];
        assert!(d.ranges.is_empty() || d.class.is_some());
        for w in d.ranges.windows(2) { assert!(w[0].range.to <= w[1].range.from, "a variable's ranges are out of order or overlap"); }
        for e in d.ranges.iter() {
            assert!(of[e.index.index()] == 1, "a live range is in no bundle or in two");
            assert!(e.range.from < e.range.to && env.ctx.ranges[e.index].vreg.index() == v, "a live range of another variable");
            for u in env.ctx.ranges[e.index].uses.iter() { if let OperandConstraint::Limit(k) = u.operand.constraint() { assert!(k <= 255); } }
        }
    }
    let live = |v: usize| !env.ctx.vregs[VRegIndex::new(v)].ranges.is_empty();
    for b in env.ctx.blockparam_outs.iter() { assert!(live(b.from_vreg.index()) && live(b.to_vreg.index()), "a block parameter or argument is not live"); }
    for i in 0..c.f.num_insts() {
        let ops = c.f.inst_operands(Inst::new(i));
        for o in ops { if let OperandConstraint::Reuse(k) = o.constraint() { assert!(live(o.vreg().vreg()) && live(ops[k].vreg().vreg()), "a reused operand is not live"); } }
    }
    for r in 0..env.ctx.pregs.len() { assert!(env.ctx.pregs[r].allocations.btree.values().all(|x| !x.is_valid()), "a register holds a bundle before any is assigned"); }
}
#[cfg(not(feature = "fuzzing"))]
pub fn c_whole<N: Nd>(_n: &mut N) {}
