// P16: validation accepts exactly the well-formed SSA functions.
use crate::verif::{any_func, reach, TF};
fn well_formed(f: &TF) -> bool {
    let nb = f.ranges.len();
    let e = f.entry.index();
    // Definitions.
    let mut site: Vec<Option<(usize, usize)>> = vec![None; f.vregs];
    for b in 0..nb {
        let mut ds: Vec<(VReg, usize)> = f.params[b].iter().map(|&v| (v, 0)).collect();
        for i in f.ranges[b].0..f.ranges[b].1 {
            for o in f.operands[i].iter() { if o.kind() == OperandKind::Def { ds.push((o.vreg(), i + 1)); } }
        }
        for (v, p) in ds {
            if v.vreg() >= f.vregs || site[v.vreg()].is_some() { return false; }
            site[v.vreg()] = Some((b, p));
        }
    }
    let re = reach(&f.succs, e, usize::MAX);
    for b in 0..nb {
        let (x, y) = f.ranges[b];
        for i in x..y {
            for o in f.operands[i].iter() {
                if o.as_fixed_nonallocatable().is_some() || o.kind() == OperandKind::Def { continue; }
                if o.vreg().vreg() >= f.vregs { return false; }
                match site[o.vreg().vreg()] {
                    None => return false,
                    Some((db, p)) => {
                        let ok = if db == b { p <= i } else { re[db] && re[b] && !reach(&f.succs, e, db)[b] };
                        if !ok { return false; }
                    }
                }
            }
            let term = f.is_branch[i] || f.is_ret[i];
            if term != (i + 1 == y) { return false; }
        }
        if f.is_branch[y - 1] {
            for k in 0..f.succs[b].len() { if f.args[b][k].len() != f.params[f.succs[b][k].index()].len() { return false; } }
        }
    }
    f.params[e].is_empty()
}
pub fn c_validate<N: Nd>(n: &mut N) {
    let f = any_func(n, 8, true);
    let (mut po, mut v) = (Vec::new(), Vec::new());
    let mut info = CFGInfo::default();
    // The analysis the validator relies on (P13, P14), without the critical-edge restriction (P15).
    crate::postorder::calculate(f.ranges.len(), f.entry, &mut v, &mut po, |b| &f.succs[b.index()][..]).unwrap();
    let mut rpo = Vec::new();
    crate::domtree::calculate(f.ranges.len(), |b| &f.preds[b.index()][..], &po, &mut rpo, &mut info.domtree, f.entry);
    let want = well_formed(&f);
    let got = validate_ssa(&f, &info).is_ok();
    n.cov(1, want);
    assert!(got || !want, "rejects a well-formed function");
    assert!(!got || want, "accepts an ill-formed function");
}
