// The contract of an allocation run: functions and machine environments within the stated bounds,
// and what every successful result must satisfy. Independent of the crate's own checker.
#[cfg(feature = "fuzzing")]
pub mod runfn {
    use super::*;
    use crate::{Algorithm, RegallocOptions};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::string::String;
    use std::{format, vec};

    pub struct Case { pub f: TF, pub env: MachineEnv, pub o: RegallocOptions, pub full: bool, pub easy: bool }

    pub fn any_machine<N: Nd>(n: &mut N) -> (MachineEnv, bool) {
        if n.below(4) == 0 { return (crate::fuzzing::func::machine_env(), true); }
        let mut e = no_env();
        let (p, q) = if n.below(4) == 0 { (2 + n.below(3), n.below(2)) } else { (2 + n.below(9), n.below(4)) };
        for (i, c) in [RegClass::Int, RegClass::Float, RegClass::Vector].iter().enumerate() {
            for r in 0..p { e.preferred_regs_by_class[i].add(PReg::new(r, *c)); }
            for r in p..p + q { e.non_preferred_regs_by_class[i].add(PReg::new(r, *c)); }
            if n.below(3) == 0 { e.scratch_by_class[i] = Some(PReg::new(p + q, *c)); }
            for r in 32..63 { e.fixed_stack_slots.push(PReg::new(r, *c)); }
        }
        (e, false)
    }
    pub fn allocatable(e: &MachineEnv, r: PReg) -> bool {
        let c = r.class() as usize;
        e.preferred_regs_by_class[c].contains(r) || e.non_preferred_regs_by_class[c].contains(r)
    }
    fn table<F: Function>(g: &F) -> TF {
        let mut f = TF::empty();
        f.entry = g.entry_block();
        f.insts = g.num_insts();
        f.vregs = g.num_vregs();
        for b in 0..g.num_blocks() {
            let b = Block::new(b);
            let r = g.block_insns(b);
            f.ranges.push((r.first().index(), r.last().index() + 1));
            f.succs.push(g.block_succs(b).to_vec());
            f.preds.push(g.block_preds(b).to_vec());
            f.params.push(g.block_params(b).to_vec());
            f.args.push((0..g.block_succs(b).len()).map(|k| g.branch_blockparams(b, r.last(), k).to_vec()).collect());
        }
        for i in 0..f.insts {
            let i = Inst::new(i);
            f.operands.push(g.inst_operands(i).to_vec());
            f.clobbers.push(g.inst_clobbers(i));
            f.is_ret.push(g.is_ret(i));
            f.is_branch.push(g.is_branch(i));
        }
        f
    }
    pub fn any_case<N: Nd>(n: &mut N) -> Option<Case> {
        use crate::fuzzing::func::{Func, Options};
        let (env, full) = any_machine(n);
        let fast = n.below(3) == 0;
        let small = 1 + n.below(6);
        let opts = Options {
            reused_inputs: n.bool(), fixed_regs: n.bool(), fixed_nonallocatable: n.below(4) == 0, clobbers: n.bool(), reftypes: false, callsite_ish_constraints: n.bool(),
            num_blocks: 1..=[1, 3, 5, 8, 12, 20][n.below(6)], num_vregs_per_block: 1..=(1 + 3 * small), num_uses_per_inst: 0..=n.below(7),
            num_callsite_ish_vregs_per_inst: 0..=n.below(8), num_clobbers_per_inst: 0..=n.below(9),
        };
        let mut seed = n.u64() | 1;
        let len = 40 + n.below(1500);
        let mut bytes: Vec<u8> = Vec::new();
        for _ in 0..len { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; bytes.push((seed >> 24) as u8); }
        let g = Func::arbitrary_with_options(&mut arbitrary::Unstructured::new(&bytes), &opts).ok()?;
        let mut f = table(&g);
        // Slot sizes and naming.
        f.slot_size = [1 << n.below(3), 1 << n.below(3), 1 << n.below(4)];
        f.named_by_last = n.bool();
        // Only registers the environment knows.
        let known = |r: PReg| allocatable(&env, r) || env.fixed_stack_slots.contains(&r);
        let (limits, lates, stacks) = (!fast && n.below(3) == 0, n.below(2) == 0, n.below(2) == 0);
        for i in 0..f.insts {
            for k in 0..f.operands[i].len() {
                let o = f.operands[i][k];
                let once = f.operands[i].iter().filter(|p| p.vreg() == o.vreg()).count() == 1;
                let reused = f.operands[i].iter().any(|p| p.constraint() == OperandConstraint::Reuse(k));
                if o.as_fixed_nonallocatable().is_some() { continue; }
                let mut c = o.constraint();
                let mut pos = o.pos();
                if let OperandConstraint::FixedReg(r) = c { if !known(r) { c = OperandConstraint::Reg; } }
                if (c == OperandConstraint::Any || c == OperandConstraint::Reg) && !reused {
                    match n.below(10) {
                        0 if stacks && once => c = OperandConstraint::Stack,
                        1 if limits => c = OperandConstraint::Limit(if full { 16 << n.below(3) } else { 4 << n.below(4) }),
                        2 if lates && (once || !fast) && o.kind() == OperandKind::Use && (!fast || c == OperandConstraint::Any) => pos = OperandPos::Late,
                        _ => {}
                    }
                }
                f.operands[i][k] = Operand::new(o.vreg(), c, o.kind(), pos);
            }
            let mut cl = PRegSet::empty();
            for r in f.clobbers[i] { if allocatable(&env, r) { cl.add(r); } }
            f.clobbers[i] = cl;
        }
        // Fixed registers from a small pool, so that they meet each other and the clobbers.
        if n.below(3) == 0 {
            let pool = 1 + n.below(4);
            for i in 0..f.insts {
                let (mut fe, mut fl) = (PRegSet::empty(), f.clobbers[i]);
                let span = |o: &Operand| match (o.kind(), o.pos()) { (OperandKind::Use, OperandPos::Early) => (true, false), (OperandKind::Def, OperandPos::Late) => (false, true), _ => (true, true) };
                for o in &f.operands[i] { if let OperandConstraint::FixedReg(r) = o.constraint() { let (e, l) = span(o); if e { fe.add(r); } if l { fl.add(r); } } }
                for k in 0..f.operands[i].len() {
                    let o = f.operands[i][k];
                    let reused = f.operands[i].iter().any(|p| p.constraint() == OperandConstraint::Reuse(k));
                    if reused || !matches!(o.constraint(), OperandConstraint::Any | OperandConstraint::Reg) || n.below(3) != 0 { continue; }
                    let r = PReg::new(n.below(pool), o.class());
                    let (e, l) = span(&o);
                    if !allocatable(&env, r) || (e && fe.contains(r)) || (l && fl.contains(r)) { continue; }
                    if e { fe.add(r); }
                    if l { fl.add(r); }
                    f.operands[i][k] = Operand::new(o.vreg(), OperandConstraint::FixedReg(r), o.kind(), o.pos());
                    if !l && !fl.contains(r) && n.bool() { f.clobbers[i].add(r); fl.add(r); }
                }
            }
        }
        // Mixed block arguments: any order, any variable of the block, repetitions.
        if n.below(3) == 0 {
            for b in 0..f.ranges.len() {
                let mut av: Vec<VReg> = f.params[b].clone();
                for i in f.ranges[b].0..f.ranges[b].1 { for o in &f.operands[i] { if o.as_fixed_nonallocatable().is_none() { av.push(o.vreg()); } } }
                for k in 0..f.args[b].len() {
                    for j in 0..f.args[b][k].len() {
                        let x = f.args[b][k][j];
                        match n.below(4) {
                            0 => { let t = n.below(f.args[b][k].len()); let y = f.args[b][k][t]; if y.class() == x.class() { f.args[b][k][j] = y; f.args[b][k][t] = x; } }
                            1 if !av.is_empty() => { let y = av[n.below(av.len())]; if y.class() == x.class() { f.args[b][k][j] = y; } }
                            2 if j < f.params[b].len() && f.params[b][f.params[b].len() - 1 - j].class() == x.class() => f.args[b][k][j] = f.params[b][f.params[b].len() - 1 - j],
                            _ => {}
                        }
                    }
                }
            }
        }
        // Uses on terminators.
        if n.below(3) == 0 {
            for b in 0..f.ranges.len() {
                let last = f.ranges[b].1 - 1;
                if f.is_branch[last] && (f.succs[b].iter().any(|s| f.preds[s.index()].len() > 1 || *s == f.entry)) { continue; }
                let mut av: Vec<VReg> = f.params[b].clone();
                for i in f.ranges[b].0..last { for o in &f.operands[i] { if o.as_fixed_nonallocatable().is_none() { av.push(o.vreg()); } } }
                if av.is_empty() { continue; }
                for _ in 0..n.below(4) {
                    let v = av[n.below(av.len())];
                    let c = if n.bool() { OperandConstraint::Any } else { OperandConstraint::Reg };
                    f.operands[last].push(Operand::new(v, c, OperandKind::Use, OperandPos::Early));
                }
            }
        }
        // Clobbers and outputs of terminators whose edges all have room at their ends.
        if n.below(3) == 0 {
            for b in 0..f.ranges.len() {
                let last = f.ranges[b].1 - 1;
                if !f.is_branch[last] || f.succs[b].iter().any(|s| f.preds[s.index()].len() > 1 || *s == f.entry) { continue; }
                for _ in 0..n.below(4) {
                    let r = PReg::new(n.below(if full { 32 } else { 8 }), [RegClass::Int, RegClass::Float, RegClass::Vector][n.below(3)]);
                    let named = f.operands[last].iter().any(|o| o.constraint() == OperandConstraint::FixedReg(r));
                    if allocatable(&env, r) && !named { f.clobbers[last].add(r); }
                }
                for _ in 0..n.below(3) {
                    let class = [RegClass::Int, RegClass::Float, RegClass::Vector][n.below(3)];
                    let v = VReg::new(f.vregs, class);
                    f.vregs += 1;
                    let mut con = [OperandConstraint::Any, OperandConstraint::Stack, OperandConstraint::Any, OperandConstraint::Reg][n.below(if fast { 3 } else { 4 })];
                    let r = PReg::new(n.below(if full { 32 } else { 8 }), class);
                    if n.below(3) == 0 && allocatable(&env, r) && !f.clobbers[last].contains(r) && !f.operands[last].iter().any(|o| o.constraint() == OperandConstraint::FixedReg(r)) { con = OperandConstraint::FixedReg(r); }
                    f.operands[last].push(Operand::new(v, con, OperandKind::Def, OperandPos::Late));
                    // The fast allocator supports one or the other (see known_findings.txt).
                    let (mut pass, read) = if fast { let p = n.bool(); (p, !p) } else { (true, true) };
                    for k in 0..f.succs[b].len() {
                        for j in 0..f.args[b][k].len() { if pass && f.args[b][k][j].class() == class && n.bool() { f.args[b][k][j] = v; pass = !fast; } }
                        if !read { continue; }
                        let t = f.succs[b][k].index();
                        let i = f.ranges[t].0 + n.below(f.ranges[t].1 - f.ranges[t].0);
                        if i + 1 < f.ranges[t].1 && n.bool() { f.operands[i].push(Operand::new(v, OperandConstraint::Any, OperandKind::Use, OperandPos::Early)); }
                    }
                }
            }
        }
        // Debug labels.
        if n.bool() {
            f.labels = g.debug_value_labels().to_vec();
            if n.bool() { for k in 0..f.labels.len() { f.labels[k].3 = (f.labels.len() - k) as u32; } }
        }
        // Demand that any allocator can meet: at each of an instruction's two points every operand that
        // needs a register, and every clobber at the second, in a register of its own (the fast allocator
        // without a dedicated scratch register: all operands, and one register to spare for moves).
        let mut easy = true;
        for i in 0..f.insts {
            for c in [RegClass::Int, RegClass::Float, RegClass::Vector] {
                let mut lim = (0..64).filter(|r| allocatable(&env, PReg::new(*r, c))).count();
                let noscratch = fast && env.scratch_by_class[c as usize].is_none();
                let (mut early, mut late, mut both) = (0, 0, noscratch as usize);
                let (mut fe, mut fl) = (PRegSet::empty(), PRegSet::empty());
                for r in f.clobbers[i] { if r.class() == c { fl.add(r); } }
                for (k, o) in f.operands[i].iter().enumerate() {
                    if o.class() != c { continue; }
                    let reused = f.operands[i].iter().any(|p| p.constraint() == OperandConstraint::Reuse(k));
                    let (e, l) = match (o.kind(), o.pos()) { (OperandKind::Use, OperandPos::Early) => (true, reused), (OperandKind::Def, OperandPos::Late) => (false, true), _ => (true, true) };
                    match o.constraint() {
                        OperandConstraint::Stack => {}
                        OperandConstraint::Any if noscratch => both += 1,
                        OperandConstraint::Any if !reused => {}
                        OperandConstraint::FixedReg(r) if !allocatable(&env, r) => {}
                        OperandConstraint::FixedReg(r) => { if e { fe.add(r); } if l { fl.add(r); } }
                        OperandConstraint::Limit(m) => { lim = lim.min(m); both += 1; }
                        OperandConstraint::Reuse(_) => both += 1,
                        _ => if e && l { both += 1 } else if e { early += 1 } else { late += 1 },
                    }
                }
                let mut fixed = fe;
                fixed.union_from(fl);
                let fits = if both > 0 { fixed.into_iter().count() + both + early + late <= lim }
                    else { fe.into_iter().count() + early <= lim && fl.into_iter().count() + late <= lim };
                if !fits { easy = false; }
            }
        }
        let o = RegallocOptions { verbose_log: n.below(8) == 0, validate_ssa: n.bool(), algorithm: if fast { Algorithm::Fastalloc } else { Algorithm::Ion } };
        Some(Case { f, env, o, full, easy })
    }
    pub fn outcome(c: &Case) -> Result<Result<Output, RegAllocError>, ()> {
        catch_unwind(AssertUnwindSafe(|| crate::run(&c.f, &c.env, &c.o))).map_err(|_| ())
    }
    /// A result to judge; panics and errors are other contracts' business.
    pub fn any_result<N: Nd>(n: &mut N) -> (Case, Output) {
        let c = any_case(n);
        let ok = c.is_some(); n.assume(ok);
        let c = c.unwrap();
        match outcome(&c) { Ok(Ok(o)) => (c, o), _ => { n.assume(false); unreachable!() } }
    }
    // ---- constraints
    pub fn is_stack(env: &MachineEnv, a: Allocation) -> bool { a.is_stack() || a.as_reg().map_or(false, |r| env.fixed_stack_slots.contains(&r)) }
    fn slots_of(f: &TF, s: usize, c: RegClass) -> (usize, usize) {
        let z = f.slot_size[c as usize];
        if f.named_by_last { ((s + 1).wrapping_sub(z), s + 1) } else { (s, s + z) }
    }
    pub fn constraints(c: &Case, out: &Output) {
        let (f, env) = (&c.f, &c.env);
        assert!(out.inst_alloc_offsets.len() == f.insts, "one location list per instruction");
        for i in 0..f.insts {
            let allocs = out.inst_allocs(Inst::new(i));
            assert!(allocs.len() == f.operands[i].len(), "one location per operand");
            for (k, (o, a)) in f.operands[i].iter().zip(allocs).enumerate() {
                assert!(!a.is_none(), "operand {} of inst {} has a location", k, i);
                if let Some(r) = a.as_reg() { assert!(r.class() == o.class(), "register of the operand's class"); }
                let real = a.is_reg() && !is_stack(env, *a);
                let ok = match o.constraint() {
                    OperandConstraint::Any => true,
                    OperandConstraint::Reg => real,
                    OperandConstraint::Stack => is_stack(env, *a),
                    OperandConstraint::FixedReg(p) => *a == Allocation::reg(p),
                    OperandConstraint::Reuse(j) => *a == allocs[j] && a.is_reg(),
                    OperandConstraint::Limit(m) => real && a.as_reg().unwrap().hw_enc() < m,
                };
                assert!(ok, "location satisfies the constraint of operand {} of inst {}", k, i);
                if real && !matches!(o.constraint(), OperandConstraint::FixedReg(_)) { assert!(allocatable(env, a.as_reg().unwrap()), "only registers offered by the environment are assigned"); }
                if let Some(s) = a.as_stack() {
                    let (lo, hi) = slots_of(f, s.index(), o.class());
                    assert!(lo < hi && hi <= out.num_spillslots, "slot inside the frame");
                    assert!(lo % f.slot_size[o.class() as usize] == 0, "slot aligned");
                }
            }
            // Outputs and late inputs do not share a location.
            for (k, o) in f.operands[i].iter().enumerate() {
                for (j, p) in f.operands[i].iter().enumerate() {
                    if j == k || o.kind() != OperandKind::Def || o.as_fixed_nonallocatable().is_some() || p.as_fixed_nonallocatable().is_some() { continue; }
                    if !overlap(f, out, i, k, j) { continue; }
                    let bad = match p.kind() {
                        OperandKind::Def => j < k && p.vreg() != o.vreg(),
                        OperandKind::Use => o.pos() == OperandPos::Early || p.pos() == OperandPos::Late,
                    };
                    assert!(!bad, "an output location is not shared with another output or an input still needed (inst {}, operands {} {})", i, k, j);
                }
                if let Some(r) = out.inst_allocs(Inst::new(i))[k].as_reg() {
                    let late = o.pos() == OperandPos::Late || o.kind() == OperandKind::Def;
                    assert!(!(late && f.clobbers[i].contains(r) && o.as_fixed_nonallocatable().is_none()), "no output or late input in a clobbered register (inst {}, operand {})", i, k);
                }
            }
        }
    }
    fn overlap(f: &TF, out: &Output, i: usize, k: usize, j: usize) -> bool {
        let l = out.inst_allocs(Inst::new(i));
        match (l[k].as_stack(), l[j].as_stack()) {
            (Some(a), Some(b)) => { let (x, y) = slots_of(f, a.index(), f.operands[i][k].class()); let (u, v) = slots_of(f, b.index(), f.operands[i][j].class()); x < v && u < y }
            _ => l[k] == l[j],
        }
    }
    // ---- values
    #[derive(Clone, PartialEq)]
    pub struct Facts { w: usize, m: Vec<u64> } // location index x variables known to be there
    pub struct Judge<'a> { c: &'a Case, out: &'a Output, w: usize, locs: usize, ins: Vec<Option<Facts>>, live_in: Vec<Vec<u64>>, edits: Vec<(usize, usize)>, cls: Vec<RegClass> }
    fn idx(a: Allocation) -> usize { match a.as_reg() { Some(r) => r.index(), None => 256 + a.as_stack().unwrap().index() } }
    fn has(s: &[u64], v: usize) -> bool { s[v >> 6] >> (v & 63) & 1 == 1 }
    fn set(s: &mut [u64], v: usize) { s[v >> 6] |= 1 << (v & 63); }
    fn unset(s: &mut [u64], v: usize) { s[v >> 6] &= !(1 << (v & 63)); }
    impl Facts {
        fn at(&self, l: usize) -> &[u64] { &self.m[l * self.w..(l + 1) * self.w] }
        fn kill(&mut self, l: usize) { for x in &mut self.m[l * self.w..(l + 1) * self.w] { *x = 0; } }
        fn kill_var(&mut self, v: usize) { let n = self.m.len() / self.w; for l in 0..n { unset(&mut self.m[l * self.w..(l + 1) * self.w], v); } }
        fn put(&mut self, l: usize, v: usize) { let w = self.w; set(&mut self.m[l * w..(l + 1) * w], v); }
        fn anywhere(&self, v: usize) -> bool { let n = self.m.len() / self.w; (0..n).any(|l| has(self.at(l), v)) }
    }
    impl<'a> Judge<'a> {
        pub fn new(c: &'a Case, out: &'a Output) -> Judge<'a> {
            let f = &c.f;
            let w = (f.vregs + 63) / 64 + 1;
            let mut top = out.num_spillslots;
            for (_, Edit::Move { from, to }) in &out.edits { for a in [from, to] { if let Some(s) = a.as_stack() { assert!(s.index() < out.num_spillslots, "moved slot inside the frame"); top = top.max(s.index() + 1); } } }
            for a in &out.allocs { if let Some(s) = a.as_stack() { top = top.max(s.index() + 1); } }
            for p in out.edits.windows(2) { assert!(p[0].0 <= p[1].0, "edits sorted by program point"); }
            // Per point, the edits there.
            let mut edits = vec![(0, 0); 2 * f.insts];
            let mut k = 0;
            for p in 0..2 * f.insts {
                let s = k;
                while k < out.edits.len() && point(out.edits[k].0) == p { k += 1; }
                edits[p] = (s, k);
            }
            assert!(k == out.edits.len(), "edits lie at instructions");
            if !matches!(c.o.algorithm, Algorithm::Fastalloc) { for b in 0..f.ranges.len() { let e = edits[2 * f.ranges[b].1 - 1]; assert!(e.0 == e.1, "no edit after a block's last instruction"); } }
            let mut j = Judge { c, out, w, locs: 256 + top, ins: vec![None; f.ranges.len()], live_in: vec![vec![0; w]; f.ranges.len()], edits, cls: c.classes() };
            j.liveness();
            j.fix();
            j
        }
        fn write(&self, s: &mut Facts, a: Allocation, class: RegClass, v: &[u64]) {
            if let Some(x) = a.as_stack() {
                // Everything overlapping is gone.
                let (lo, hi) = slots_of(&self.c.f, x.index(), class);
                let lo = if lo > hi { 0 } else { lo };
                for y in lo.saturating_sub(16)..hi + 16 {
                    if 256 + y >= self.locs { break; }
                    // Slots named y may hold any class: the smallest claim is enough to conflict.
                    if y >= lo && y < hi { s.kill(256 + y); continue; }
                    for c in [RegClass::Int, RegClass::Float, RegClass::Vector] {
                        let (p, q) = slots_of(&self.c.f, y, c);
                        if p < q && p < hi && lo < q {
                            let w = self.w;
                            for v in 0..self.c.f.vregs { if has(s.at(256 + y), v) && self.class(v) == c { unset(&mut s.m[(256 + y) * w..(257 + y) * w], v); } }
                        }
                    }
                }
            }
            let w = self.w;
            s.m[idx(a) * w..(idx(a) + 1) * w].copy_from_slice(v);
        }
        fn class(&self, v: usize) -> RegClass { self.cls[v] }
        fn moves(&self, s: &mut Facts, p: usize) {
            // A move after a branch may or may not happen on the way to a successor.
            let old = if p % 2 == 1 && self.c.f.is_branch[p / 2] && self.edits[p].0 < self.edits[p].1 { Some(s.clone()) } else { None };
            for k in self.edits[p].0..self.edits[p].1 { self.one(s, k); }
            if let Some(o) = old { for q in 0..s.m.len() { s.m[q] &= o.m[q]; } }
        }
        fn one(&self, s: &mut Facts, k: usize) {
                let Edit::Move { from, to } = self.out.edits[k].1;
                let class = match (from.as_reg(), to.as_reg()) { (Some(a), Some(b)) => { assert!(a.class() == b.class(), "moves stay within a class"); a.class() } (Some(a), None) | (None, Some(a)) => a.class(), _ => panic!("no move from stack to stack") };
                assert!(!(is_stack(&self.c.env, from) && is_stack(&self.c.env, to)), "no move from stack to stack");
                let v = s.at(idx(from)).to_vec();
                self.write(s, to, class, &v);
        }
        fn op(&self, s: &mut Facts, i: usize) {
            let f = &self.c.f;
            let allocs = self.out.inst_allocs(Inst::new(i));
            for r in &self.c.env.scratch_by_class { if let Some(r) = r { s.kill(r.index()); } }
            for o in &f.operands[i] { if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() { s.kill_var(o.vreg().vreg()); } }
            for (o, a) in f.operands[i].iter().zip(allocs) {
                if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() { let z = vec![0; self.w]; self.write(s, *a, o.class(), &z); }
            }
            for (o, a) in f.operands[i].iter().zip(allocs) {
                if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() { s.put(idx(*a), o.vreg().vreg()); }
            }
            for r in f.clobbers[i] { s.kill(r.index()); }
        }
        fn edge(&self, s: &Facts, b: usize, k: usize) -> Facts {
            let f = &self.c.f;
            let t = f.succs[b][k].index();
            let mut g = s.clone();
            for p in &f.params[t] { g.kill_var(p.vreg()); }
            for l in 0..self.locs { for (p, a) in f.params[t].iter().zip(&f.args[b][k]) { if has(s.at(l), a.vreg()) { g.put(l, p.vreg()); } } }
            g
        }
        fn fix(&mut self) {
            let f = &self.c.f;
            self.ins[f.entry.index()] = Some(Facts { w: self.w, m: vec![0; self.w * self.locs] });
            loop {
                let mut changed = false;
                for b in 0..f.ranges.len() {
                    let mut s = match &self.ins[b] { Some(s) => s.clone(), None => continue };
                    for i in f.ranges[b].0..f.ranges[b].1 { self.moves(&mut s, 2 * i); self.op(&mut s, i); self.moves(&mut s, 2 * i + 1); }
                    for k in 0..f.succs[b].len() {
                        let e = self.edge(&s, b, k);
                        let t = f.succs[b][k].index();
                        match &mut self.ins[t] {
                            None => { self.ins[t] = Some(e); changed = true; }
                            Some(x) => for q in 0..x.m.len() { let z = x.m[q] & e.m[q]; if z != x.m[q] { x.m[q] = z; changed = true; } },
                        }
                    }
                }
                if !changed { break; }
            }
        }
        fn liveness(&mut self) {
            let f = &self.c.f;
            loop {
                let mut changed = false;
                for b in (0..f.ranges.len()).rev() {
                    let mut l = self.live_out(b);
                    for i in (f.ranges[b].0..f.ranges[b].1).rev() { live_step(f, i, &mut l); }
                    for p in &f.params[b] { unset(&mut l, p.vreg()); }
                    if l != self.live_in[b] { self.live_in[b] = l; changed = true; }
                }
                if !changed { break; }
            }
        }
        fn live_out(&self, b: usize) -> Vec<u64> {
            let f = &self.c.f;
            let mut l = vec![0; self.w];
            for (k, s) in f.succs[b].iter().enumerate() {
                for q in 0..self.w { l[q] |= self.live_in[s.index()][q]; }
                for a in &f.args[b][k] { set(&mut l, a.vreg()); }
            }
            l
        }
        /// Every use reads the variable's value; `live` asks instead that every live value survives each instruction.
        pub fn check(&self, live: bool) {
            let f = &self.c.f;
            for b in 0..f.ranges.len() {
                let mut s = match &self.ins[b] { Some(s) => s.clone(), None => continue };
                let mut after: Vec<Vec<u64>> = Vec::new();
                let mut l = self.live_out(b);
                for i in (f.ranges[b].0..f.ranges[b].1).rev() { after.push(l.clone()); live_step(f, i, &mut l); }
                after.reverse();
                for i in f.ranges[b].0..f.ranges[b].1 {
                    self.moves(&mut s, 2 * i);
                    if !live {
                        for (k, (o, a)) in f.operands[i].iter().zip(self.out.inst_allocs(Inst::new(i))).enumerate() {
                            if o.kind() == OperandKind::Use && o.as_fixed_nonallocatable().is_none() {
                                assert!(!a.is_none() && has(s.at(idx(*a)), o.vreg().vreg()), "operand {} of inst {} reads the value of {}", k, i, o.vreg());
                            }
                        }
                    }
                    self.op(&mut s, i);
                    if live { for v in 0..f.vregs { if has(&after[i - f.ranges[b].0], v) { assert!(s.anywhere(v), "v{} is live after inst {} and held nowhere", v, i); } } }
                    self.moves(&mut s, 2 * i + 1);
                }
            }
        }
        /// The states at every point (none: unreachable): the one after its edits comes last. Where a variable is not
        /// needed any more, or at a branch, where the moves for the outgoing edge come before the branch itself, the
        /// states between the edits count too: the flag says so per variable.
        pub fn points(&self) -> Vec<(Vec<Facts>, Vec<u64>)> {
            let f = &self.c.f;
            let mut r = vec![(Vec::new(), Vec::new()); 2 * f.insts];
            for b in 0..f.ranges.len() {
                let mut s = match &self.ins[b] { Some(s) => s.clone(), None => continue };
                let mut l = self.live_out(b);
                for i in (f.ranges[b].0..f.ranges[b].1).rev() {
                    r[2 * i + 1].1 = l.clone(); live_step(f, i, &mut l); r[2 * i].1 = l.clone();
                    if f.is_branch[i] { for p in 2 * i..2 * i + 2 { for q in 0..self.w { r[p].1[q] = 0; } } }
                }
                for i in f.ranges[b].0..f.ranges[b].1 {
                    for p in 2 * i..2 * i + 2 {
                        if p % 2 == 1 { self.op(&mut s, i); }
                        r[p].0.push(s.clone());
                        for k in self.edits[p].0..self.edits[p].1 { self.one(&mut s, k); r[p].0.push(s.clone()); }
                        if f.is_branch[i] && p % 2 == 1 { r[p].0 = r[p - 1].0.clone(); }
                    }
                }
            }
            r
        }
        pub fn holds(p: &(Vec<Facts>, Vec<u64>), a: Allocation, v: VReg) -> bool {
            let k = if p.0.is_empty() { return true } else if has(&p.1, v.vreg()) { p.0.len() - 1 } else { 0 };
            !a.is_none() && p.0[k..].iter().any(|s| has(s.at(idx(a)), v.vreg()))
        }
    }
    pub fn point(p: ProgPoint) -> usize { 2 * p.inst().index() + if p.pos() == InstPosition::After { 1 } else { 0 } }
    fn live_step(f: &TF, i: usize, l: &mut Vec<u64>) {
        for o in &f.operands[i] { if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() { unset(l, o.vreg().vreg()); } }
        for o in &f.operands[i] { if o.kind() == OperandKind::Use && o.as_fixed_nonallocatable().is_none() { set(l, o.vreg().vreg()); } }
    }
    impl Case {
        fn classes(&self) -> Vec<RegClass> {
            let mut c = vec![RegClass::Int; self.f.vregs];
            for o in self.f.operands.iter().flatten() { if o.as_fixed_nonallocatable().is_none() { c[o.vreg().vreg()] = o.class(); } }
            for v in self.f.params.iter().flatten() { c[v.vreg()] = v.class(); }
            for v in self.f.args.iter().flatten().flatten() { c[v.vreg()] = v.class(); }
            c
        }
        pub fn show(&self) -> String {
            let f = &self.f;
            let mut s = format!("{:?} scratch {:?} slots {:?} last {} pref {}\n", self.o.algorithm, self.env.scratch_by_class, f.slot_size, f.named_by_last, self.env.preferred_regs_by_class[0]);
            for b in 0..f.ranges.len() {
                s += &format!(" block{} params {:?} succs {:?} args {:?}\n", b, f.params[b], f.succs[b], f.args[b]);
                for i in f.ranges[b].0..f.ranges[b].1 { s += &format!("  inst{} {:?} clobbers {}{}\n", i, f.operands[i], f.clobbers[i], if f.is_ret[i] { " ret" } else if f.is_branch[i] { " branch" } else { "" }); }
            }
            s
        }
        pub fn show_out(&self, out: &Output) -> String {
            let mut s = String::new();
            for i in 0..self.f.insts {
                for (p, e) in &out.edits { if point(*p) == 2 * i { s += &format!("    {:?} {:?}\n", p, e); } }
                s += &format!("  inst{} {:?}\n", i, out.inst_allocs(Inst::new(i)));
                for (p, e) in &out.edits { if point(*p) == 2 * i + 1 { s += &format!("    {:?} {:?}\n", p, e); } }
            }
            if !self.f.labels.is_empty() { s += &format!("  asked {:?}\n  got {:?}\n", self.f.labels, out.debug_locations); }
            s
        }
    }
    fn shown(c: &Case, out: Option<&Output>) {
        if std::env::var("RV_SHOW").is_ok() { std::eprintln!("{}{}", c.show(), out.map(|o| c.show_out(o)).unwrap_or_default()); }
    }
    // ---- the contracts
    pub fn values<N: Nd>(n: &mut N) { let (c, o) = any_result(n); shown(&c, Some(&o)); Judge::new(&c, &o).check(false); }
    pub fn survive<N: Nd>(n: &mut N) { let (c, o) = any_result(n); shown(&c, Some(&o)); Judge::new(&c, &o).check(true); }
    pub fn located<N: Nd>(n: &mut N) { let (c, o) = any_result(n); shown(&c, Some(&o)); constraints(&c, &o); }
    pub fn answers<N: Nd>(n: &mut N) {
        let c = any_case(n);
        let ok = c.is_some(); n.assume(ok);
        let c = c.unwrap();
        shown(&c, None);
        match crate::run(&c.f, &c.env, &c.o) {
            Ok(_) => n.cov(1, true),
            Err(RegAllocError::TooManyLiveRegs) => { n.cov(2, true); assert!(!c.easy, "demand that fits is not refused"); }
            Err(e) => panic!("well-formed function refused: {:?}", e),
        }
    }
    pub fn labels<N: Nd>(n: &mut N) {
        let (c, o) = any_result(n);
        let f = &c.f;
        shown(&c, Some(&o));
        if f.labels.is_empty() { assert!(o.debug_locations.is_empty(), "no location for no label"); return; }
        let fast = matches!(c.o.algorithm, Algorithm::Fastalloc);
        let pts = Judge::new(&c, &o).points();
        for &(label, from, to, a) in &o.debug_locations {
            assert!(from <= to && point(to) <= 2 * f.insts, "a range inside the function");
            let ok = f.labels.iter().any(|&(v, s, e, l)| l == label && (fast || 2 * s.index() <= point(from) && point(to) <= 2 * e.index())
                && (point(from)..point(to)).all(|p| Judge::holds(&pts[p], a, v) || p % 2 == 0 && defines(f, &o, p / 2, v, a)));
            assert!(ok, "label {} is in {} from {:?} to {:?}", label, a, from, to);
        }
        for p in o.debug_locations.windows(2) { assert!((p[0].0, p[0].1) <= (p[1].0, p[1].1), "sorted by label and position"); }
        let apart = (0..f.labels.len()).all(|i| (0..i).all(|j| f.labels[i].3 != f.labels[j].3 || f.labels[i].2 <= f.labels[j].1 || f.labels[j].2 <= f.labels[i].1));
        if apart && !fast { for p in o.debug_locations.windows(2) { assert!(p[0].0 != p[1].0 || p[0].2 <= p[1].1, "disjoint ranges"); } }
    }
    /// An early output is there from its instruction's own first point.
    fn defines(f: &TF, out: &Output, i: usize, v: VReg, a: Allocation) -> bool {
        f.operands[i].iter().zip(out.inst_allocs(Inst::new(i))).any(|(o, x)| o.kind() == OperandKind::Def && o.pos() == OperandPos::Early && o.vreg() == v && *x == a)
    }
    pub fn text(r: &Result<Output, RegAllocError>) -> String {
        match r { Ok(o) => format!("{:?} {:?} {:?} {:?} {:?} {:?}", o.num_spillslots, o.edits, o.allocs, o.inst_alloc_offsets, o.debug_locations, o.stats), Err(e) => format!("{:?}", e) }
    }
    pub fn same<N: Nd>(n: &mut N) {
        let c = any_case(n);
        let ok = c.is_some(); n.assume(ok);
        let c = c.unwrap();
        let a = match outcome(&c) { Ok(a) => a, Err(_) => { n.assume(false); return } };
        let junk: Vec<Vec<u8>> = (0..n.below(40)).map(|k| vec![0; 1 + 37 * k]).collect();
        let b = outcome(&c);
        drop(junk);
        assert!(b.is_ok() && text(&a) == text(&b.unwrap()), "the same result again");
        // and with a context that has seen other functions before
        let mut ctx = crate::Ctx::default();
        for _ in 0..1 + n.below(2) {
            if n.below(2) == 0 { if catch_unwind(AssertUnwindSafe(|| { let _ = crate::run_with_ctx(&c.f, &c.env, &c.o, &mut ctx); })).is_err() { n.assume(false); return } }
            else if let Some(d) = any_case(n) { if catch_unwind(AssertUnwindSafe(|| { let _ = crate::run_with_ctx(&d.f, &d.env, &d.o, &mut ctx); })).is_err() { n.assume(false); return } }
        }
        let b = catch_unwind(AssertUnwindSafe(|| crate::run_with_ctx(&c.f, &c.env, &c.o, &mut ctx).map(|o| o.clone())));
        assert!(b.is_ok() && text(&a) == text(&b.unwrap()), "the same result after other functions");
    }
}
