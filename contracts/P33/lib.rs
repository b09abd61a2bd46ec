// P33: see common/runfn.rs.
#[cfg(feature = "fuzzing")]
pub fn c_answers<N: Nd>(n: &mut N) { runfn::answers(n) }
#[cfg(not(feature = "fuzzing"))]
pub fn c_answers<N: Nd>(_n: &mut N) {}
