// P11: the recency list holds exactly the given registers, most recent first.
/// The list read through `next` from the head; checks that `prev` is its inverse.
fn view(l: &Lru) -> Vec<usize> {
    let mut v = Vec::new();
    if l.head == u8::MAX { return v; }
    let mut x = l.head as usize;
    loop {
        v.push(x);
        let nx = l.data[x].next as usize;
        assert!(nx < 64, "link to a register outside the list");
        assert!(l.data[nx].prev as usize == x, "backward link is the inverse of the forward link");
        x = nx;
        if x == l.head as usize { break; }
        assert!(v.len() <= 64, "list does not close");
    }
    v
}
fn class_set<N: Nd>(n: &mut N) -> (RegClass, Vec<usize>) {
    let c = n.class();
    let mut regs: Vec<usize> = Vec::new();
    let lim = match n.below(3) { 0 => 3, 1 => 10, _ => 64 };
    for h in 0..64 { if (h < lim || h >= 63) && n.below(3) > 0 { regs.push(h); } }
    (c, regs)
}
fn set_of(c: RegClass, regs: &[usize]) -> PRegSet { let mut s = PRegSet::empty(); for &h in regs { s.add(PReg::new(h, c)); } s }
/// An arbitrary list: any order of any registers.
fn any_list<N: Nd>(n: &mut N) -> (Lru, Vec<usize>, RegClass) {
    let (c, mut regs) = class_set(n);
    for i in (1..regs.len()).rev() { let j = n.below(i + 1); regs.swap(i, j); }
    let mut l = Lru::new(c, &PRegSet::empty());
    let k = regs.len();
    for i in 0..k {
        l.data[regs[i]] = LruNode { prev: regs[(i + k - 1) % k] as u8, next: regs[(i + 1) % k] as u8 };
    }
    if k > 0 { l.head = regs[0] as u8; }
    (l, regs, c)
}
pub fn c_new<N: Nd>(n: &mut N) {
    let (c, regs) = class_set(n);
    let l = Lru::new(c, &set_of(c, &regs));
    let mut v = view(&l);
    v.sort();
    assert!(v == regs, "exactly the given registers, each once");
    assert!(l.is_empty() == regs.is_empty() && l.regclass == c);
}
pub fn c_touch<N: Nd>(n: &mut N) {
    let (mut l, regs, c) = any_list(n);
    n.assume(!regs.is_empty());
    assert!(view(&l) == regs);
    assert!(l.pop() == PReg::new(*regs.last().unwrap(), c), "least recently used register");
    let r = regs[n.below(regs.len())];
    l.poke(PReg::new(r, c));
    let mut exp = vec![r];
    exp.extend(regs.iter().copied().filter(|&x| x != r));
    assert!(view(&l) == exp, "touched register becomes most recent, the others keep their order");
    assert!(l.pop() == PReg::new(*exp.last().unwrap(), c), "least recently used register");
}
pub fn c_remove_insert<N: Nd>(n: &mut N) {
    let (mut l, regs, _c) = any_list(n);
    n.assume(!regs.is_empty());
    let r = regs[n.below(regs.len())];
    l.remove(r);
    let exp: Vec<usize> = regs.iter().copied().filter(|&x| x != r).collect();
    assert!(view(&l) == exp && l.is_empty() == exp.is_empty(), "removed exactly that register");
    if exp.is_empty() { return; }
    let p = n.below(exp.len());
    l.insert_before(r as u8, exp[p] as u8);
    // Before the head means at the end of the circular order; the head does not change.
    let mut e2 = exp.clone();
    if p == 0 { e2.push(r); } else { e2.insert(p, r); }
    assert!(view(&l) == e2, "inserted before the given register");
}
pub fn c_last<N: Nd>(n: &mut N) {
    let (l, regs, c) = any_list(n);
    n.assume(!regs.is_empty());
    let mut from = PRegSet::empty();
    let mut cand: Vec<usize> = Vec::new();
    for h in 0..64 { if n.below(4) == 0 { from.add(PReg::new(h, c)); cand.push(h); } }
    let other = n.class();
    if other != c { from.add(PReg::new(n.below(64), other)); }
    let exp = regs.iter().rev().copied().find(|h| cand.contains(h)).map(|h| PReg::new(h, c));
    assert!(l.last(from) == exp, "least recently used candidate");
    assert!(l.last_satisfying(|p| from.contains(p)) == exp);
    assert!(view(&l) == regs);
}
pub fn c_history<N: Nd>(n: &mut N) {
    let (c, regs) = class_set(n);
    let mut l = Lru::new(c, &set_of(c, &regs));
    n.assume(!regs.is_empty());
    let mut m = view(&l);
    for _ in 0..n.size(3, 60) {
        let r = regs[n.below(regs.len())];
        if n.bool() { l.poke(PReg::new(r, c)); } else { let p = l.pop(); assert!(p.hw_enc() == *m.last().unwrap()); l.poke(p); m.rotate_right(1); continue; }
        m.retain(|&x| x != r);
        m.insert(0, r);
        assert!(view(&l) == m, "recency order");
    }
    assert!(view(&l) == m, "recency order");
}
