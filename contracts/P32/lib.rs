// P32: see common/runfn.rs.
#[cfg(feature = "fuzzing")]
pub fn c_survive<N: Nd>(n: &mut N) { runfn::survive(n) }
#[cfg(not(feature = "fuzzing"))]
pub fn c_survive<N: Nd>(_n: &mut N) {}
