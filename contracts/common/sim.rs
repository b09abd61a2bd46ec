/// Machine state: which initial value each location holds. Locations not listed hold their own.
#[derive(Clone)]
pub struct Sim { pub m: Vec<(Allocation, u64)> }
impl Sim {
    pub fn new() -> Sim { Sim { m: Vec::new() } }
    pub fn get(&self, a: Allocation) -> u64 {
        for &(l, v) in &self.m { if l == a { return v; } }
        a.bits() as u64
    }
    pub fn set(&mut self, a: Allocation, v: u64) {
        for e in self.m.iter_mut() { if e.0 == a { e.1 = v; return; } }
        self.m.push((a, v));
    }
    pub fn mv(&mut self, from: Allocation, to: Allocation) { let v = self.get(from); self.set(to, v); }
}
