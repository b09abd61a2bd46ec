// P35: see common/runfn.rs.
#[cfg(feature = "fuzzing")]
pub fn c_same<N: Nd>(n: &mut N) { runfn::same(n) }
#[cfg(not(feature = "fuzzing"))]
pub fn c_same<N: Nd>(_n: &mut N) {}
