// P12: the live-variable list behaves as a set.
pub fn c_history<N: Nd>(n: &mut N) {
    let cap = n.size(4, 40);
    let mut s = VRegSet::with_capacity(cap);
    let mut m: Vec<VReg> = Vec::new();
    let class: Vec<RegClass> = (0..cap).map(|_| n.class()).collect();
    let steps = n.size(4, 60);
    for _ in 0..=steps {
        let got: Vec<VReg> = s.iter().take(cap + 5).collect();
        assert!(s.is_empty() == m.is_empty(), "emptiness");
        let (mut a, mut b) = (got.clone(), m.clone());
        a.sort_by_key(|v| v.vreg()); b.sort_by_key(|v| v.vreg());
        assert!(a == b, "members, each once");
        if cap == 0 { return; }
        let x = n.below(cap);
        let v = VReg::new(x, class[x]);
        if m.contains(&v) { s.remove(x); m.retain(|&y| y != v); } else { s.insert(v); m.push(v); }
    }
}
