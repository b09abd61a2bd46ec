// ---- stand-in for FxHashSet (verified against the set it denotes)
struct VxSet { v: Vec<u8> }
impl VxSet {
    spec fn view(self) -> Set<u8> { self.v@.to_set() }
    fn default() -> (res: VxSet) ensures res@ == Set::<u8>::empty() { let res = VxSet { v: Vec::new() }; proof { assert(res@ =~= Set::empty()); } res }
    fn contains(&self, x: &u8) -> (res: bool) ensures res == self@.contains(*x) {
        let mut i: usize = 0;
        while i < self.v.len() invariant i <= self.v@.len(), forall|k: int| 0 <= k < i ==> self.v@[k] != *x decreases self.v@.len() - i
        { if self.v[i] == *x { assert(self.v@[i as int] == *x); return true; } i = i + 1; }
        false
    }
    fn insert(&mut self, x: u8) ensures final(self)@ == old(self)@.insert(x) {
        let ghost o = self.v@;
        self.v.push(x);
        proof { assert forall|y: u8| #[trigger] self.v@.to_set().contains(y) <==> o.to_set().insert(x).contains(y) by {
            if o.contains(y) { let k = choose|k: int| 0 <= k < o.len() && o[k] == y; assert(self.v@[k] == y); }
            if y == x { assert(self.v@[o.len() as int] == y); } }
          assert(self.v@.to_set() =~= o.to_set().insert(x)); }
    }
}
