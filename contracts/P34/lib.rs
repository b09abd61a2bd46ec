// P34: see common/runfn.rs.
#[cfg(feature = "fuzzing")]
pub fn c_labels<N: Nd>(n: &mut N) { runfn::labels(n) }
#[cfg(not(feature = "fuzzing"))]
pub fn c_labels<N: Nd>(_n: &mut N) {}
