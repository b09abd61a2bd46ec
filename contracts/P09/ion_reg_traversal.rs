// P09: probing offers each eligible register exactly once.
use crate::verif::no_env;
fn any_set<N: Nd>(n: &mut N, c: RegClass) -> PRegSet {
    // A set of registers of one class, through the public interface.
    let mut s = PRegSet::empty();
    if N::SYMBOLIC {
        for _ in 0..1 { if n.bool() { s.add(PReg::new(n.below(64), c)); } }
    } else {
        let w = n.u64();
        for i in 0..64 { if w >> i & 1 == 1 { s.add(PReg::new(i, c)); } }
    }
    s
}
struct P { pref: PRegSet, nonp: PRegSet, class: RegClass, fixed: Option<PReg>, hint: Option<PReg>, offset: usize, limit: Option<usize> }
fn any_problem<N: Nd>(n: &mut N) -> (P, MachineEnv) {
    let class = n.class();
    let mut e = no_env();
    let pref = any_set(n, class);
    let nonp0 = any_set(n, class);
    let nonp = nonp0 & pref.invert();
    e.preferred_regs_by_class[class as usize] = pref;
    e.non_preferred_regs_by_class[class as usize] = nonp;
    let other = RegClass::Int;
    if class != other {
        e.preferred_regs_by_class[other as usize] = any_set(n, other);
    }
    let fixed = None;
    let hint = if n.bool() { Some(PReg::new(n.below(64), class)) } else { None };
    n.assume(hint != Some(PReg::invalid()));
    let limit = if n.bool() { Some(1 + n.below(64)) } else { None };
    (P { pref, nonp, class, fixed, hint, offset: n.u64() as usize, limit }, e)
}
fn iter(p: &P, e: &MachineEnv) -> RegTraversalIter {
    RegTraversalIter::new(e, p.class, p.fixed, p.hint, p.offset, p.limit)
}
fn eligible(p: &P, r: PReg) -> bool {
    (p.pref.contains(r) || p.nonp.contains(r)) && r.hw_enc() < p.limit.unwrap_or(usize::MAX)
}
pub fn c_probe_all<N: Nd>(n: &mut N) {
    let (mut p, e) = any_problem(n);
    p.fixed = None;
    if let Some(h) = p.hint { n.assume(p.pref.contains(h) || p.nonp.contains(h)); }
    let q = PReg::new(n.below(64), p.class);
    let mut it = iter(&p, &e);
    let mut times = 0;
    let mut first = true;
    let mut seen_non_preferred = false;
    loop {
        match it.next() {
            None => break,
            Some(r) => {
                assert!(eligible(&p, r), "offered an ineligible register");
                if r == q { times += 1; }
                match p.hint {
                    Some(h) if eligible(&p, h) => {
                        assert!(first == (r == h), "hint must be offered first and once");
                        if r != h {
                            if p.nonp.contains(r) { seen_non_preferred = true; } else { assert!(!seen_non_preferred); }
                        }
                    }
                    _ => if p.nonp.contains(r) { seen_non_preferred = true; } else { assert!(!seen_non_preferred); },
                }
                first = false;
            }
        }
    }
    assert!(times == eligible(&p, q) as usize, "each eligible register exactly once");
    assert!(it.next().is_none());
}
pub fn c_probe_fixed<N: Nd>(n: &mut N) {
    let (mut p, e) = any_problem(n);
    let f = PReg::new(n.below(64), p.class);
    n.assume(f != PReg::invalid());
    p.fixed = Some(f);
    if let Some(l) = p.limit { n.assume(f.hw_enc() < l); }
    let mut it = iter(&p, &e);
    assert!(it.next() == Some(f));
    assert!(it.next().is_none());
    assert!(it.next().is_none());
}
