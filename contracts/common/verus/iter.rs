// ---- standing for core::slice::Iter
struct VxIter<'a, T> { s: &'a [T], i: usize }
impl<'a, T> VxIter<'a, T> {
    spec fn wf(self) -> bool { self.i <= self.s@.len() }
    fn next(&mut self) -> (res: Option<&'a T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s@ == old(self).s@,
            old(self).i < old(self).s@.len() ==> res == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> res is None && final(self).i == old(self).i
    { if self.i < self.s.len() { let r = &self.s[self.i]; self.i = self.i + 1; Some(r) } else { None } }
}
fn vx_iter<'a, T>(s: &'a [T]) -> (res: VxIter<'a, T>)
    ensures res.wf(), res.s@ == s@, res.i == 0
{ VxIter { s, i: 0 } }
//@ type core::slice::Iter VxIter
