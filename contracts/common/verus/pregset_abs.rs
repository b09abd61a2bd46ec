// PRegSet by its mathematical content; its operations are proved in P02.
#[verifier::external_body]
#[derive(Clone, Copy)]
struct PRegSet { x: u64 }
impl PRegSet {
    uninterp spec fn mem(self, r: PReg) -> bool;
    #[verifier::external_body]
    fn contains(&self, r: PReg) -> (res: bool) ensures res == self.mem(r) { false }
}
