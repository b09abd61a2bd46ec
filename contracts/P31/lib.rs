// P31: see common/runfn.rs.
#[cfg(feature = "fuzzing")]
pub fn c_located<N: Nd>(n: &mut N) { runfn::located(n) }
#[cfg(not(feature = "fuzzing"))]
pub fn c_located<N: Nd>(_n: &mut N) {}
