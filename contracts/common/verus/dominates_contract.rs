//@ spec
    requires acyclic(idom@), b.0 == u32::MAX || b.0 < idom@.len()
    ensures res == above(idom@, a, b)
