/// Functions with instructions and operands; mostly well-formed SSA, with occasional defects when `broken`.
pub fn any_func<N: Nd>(n: &mut N, smax: usize, broken: bool) -> TF {
    let g = any_graph(n, 2, smax);
    let nb = g.n;
    let mut f = TF::empty();
    f.entry = g.entry;
    for _ in 0..nb { f.succs.push(Vec::new()); f.preds.push(Vec::new()); f.params.push(Vec::new()); f.args.push(Vec::new()); f.ranges.push((0, 0)); }
    let thin = 1 + n.below(3);
    for b in 0..nb {
        for (i, s) in g.succs[b].iter().enumerate() {
            if i >= thin { continue; }
            f.succs[b].push(*s);
            f.preds[s.index()].push(Block::new(b));
        }
    }
    // Definitions: parameters first, then instructions.
    let mut classes: Vec<RegClass> = Vec::new();
    let mut defs: Vec<Vec<(usize, VReg)>> = Vec::new(); // per block: (position, vreg); position 0 = parameter
    let mut lens: Vec<usize> = Vec::new();
    for b in 0..nb {
        let mut d = Vec::new();
        let np = if b == g.entry.index() && (!broken || n.below(8) > 0) { 0 } else { n.below(3) };
        for _ in 0..np {
            let v = VReg::new(classes.len(), n.class());
            classes.push(v.class());
            f.params[b].push(v);
            d.push((0, v));
        }
        let len = 1 + n.below(4);
        for p in 0..len {
            for _ in 0..(if p + 1 < len { n.below(3) } else { n.below(8) / 7 }) {
                let v = VReg::new(classes.len(), n.class());
                classes.push(v.class());
                d.push((p + 1, v));
            }
        }
        defs.push(d);
        lens.push(len);
    }
    f.vregs = classes.len();
    let mut at = 0;
    let rev = n.bool();
    for k in 0..nb { let b = if rev { nb - 1 - k } else { k }; f.ranges[b] = (at, at + lens[b]); at += lens[b]; }
    f.insts = at;
    for _ in 0..at { f.operands.push(Vec::new()); f.clobbers.push(PRegSet::empty()); f.is_ret.push(false); f.is_branch.push(false); }
    let ok = reach(&f.succs, g.entry.index(), usize::MAX);
    for b in 0..nb {
        let avoid = reach(&f.succs, g.entry.index(), b);
        let _ = avoid;
    }
    for b in 0..nb {
        for p in 0..lens[b] {
            let i = f.ranges[b].0 + p;
            for _ in 0..n.below(3) {
                let total = classes.len();
                if total == 0 { continue; }
                let x = n.below(total);
                // Where is it defined?
                let mut site = (usize::MAX, 0);
                for b2 in 0..nb { for &(q, v) in &defs[b2] { if v.vreg() == x { site = (b2, q); } } }
                let good = if site.0 == b { site.1 <= p } else { ok[b] && !reach(&f.succs, g.entry.index(), site.0)[b] };
                if good || (broken && n.below(6) == 0) {
                    let v = VReg::new(x, classes[x]);
                    f.operands[i].push(match n.below(4) {
                        0 => Operand::any_use(v),
                        1 => Operand::reg_use(v),
                        2 => Operand::reg_use_at_end(v),
                        _ => Operand::new(v, OperandConstraint::Any, OperandKind::Use, OperandPos::Late),
                    });
                }
            }
            for &(q, v) in &defs[b] { if q == p + 1 {
                let d = match n.below(4) { 0 => Operand::reg_def(v), 1 => Operand::any_def(v), 2 => Operand::reg_def_at_start(v), _ => Operand::new(v, OperandConstraint::Any, OperandKind::Def, OperandPos::Early) };
                let at = n.below(f.operands[i].len() + 1);
                f.operands[i].insert(at, d);
            } }
        }
        let last = f.ranges[b].1 - 1;
        if f.succs[b].is_empty() { f.is_ret[last] = true; } else { f.is_branch[last] = true; }
        for k in 0..f.succs[b].len() {
            let t = f.succs[b][k].index();
            let mut a = Vec::new();
            for j in 0..f.params[t].len() {
                // An argument of the right class that is available at the end of the block.
                let want = f.params[t][j].class();
                let mut cands: Vec<VReg> = Vec::new();
                for b2 in 0..nb {
                    let dom = b2 == b || (ok[b] && !reach(&f.succs, g.entry.index(), b2)[b]);
                    if dom { for &(_, v) in &defs[b2] { if v.class() == want { cands.push(v); } } }
                }
                if cands.is_empty() { a.push(f.params[t][j]); } else { let z = n.below(cands.len()); a.push(cands[z]); }
            }
            f.args[b].push(a);
        }
    }
    if broken {
        match n.below(12) {
            0 => if f.vregs > 0 { f.vregs -= 1 },
            1 => { let i = n.below(f.insts); f.is_branch[i] = !f.is_branch[i]; }
            2 => { let i = n.below(f.insts); f.is_ret[i] = !f.is_ret[i]; }
            3 => { let b = n.below(nb); if !f.args[b].is_empty() { let k = n.below(f.args[b].len()); if n.bool() { f.args[b][k].pop(); } else { f.args[b][k].push(VReg::new(0, RegClass::Int)); } } }
            4 => if f.vregs > 0 { let i = n.below(f.insts); let x = n.below(f.vregs); f.operands[i].push(Operand::reg_def(VReg::new(x, classes[x]))); },
            5 => if f.vregs > 0 { let b = n.below(nb); let x = n.below(f.vregs); f.params[b].push(VReg::new(x, classes[x])); },
            6 => { let i = n.below(f.insts); f.operands[i].push(Operand::reg_use(VReg::new(f.vregs + n.below(3), RegClass::Int))); }
            7 => { let i = n.below(f.insts); f.operands[i].push(Operand::fixed_nonallocatable(PReg::new(n.below(63), RegClass::Int))); }
            8 => f.vregs += n.below(3),
            _ => {}
        }
    }
    f
}
