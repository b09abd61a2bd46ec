pub fn c_insert_effect<N: Nd>(n: &mut N) { insert_effect(n) }
