// P07: between the moves, what an instruction may write is forgotten.
pub fn c_insert_effect<N: Nd>(n: &mut N) { insert_effect(n) }
