/// The final edit list is sorted by point and priority and has no self-moves.
pub fn c_insert_order<N: Nd>(n: &mut N) {
    let p = any_inserted(n);
    let edits = run_inserted(&p);
    for i in 0..edits.len() {
        let Edit::Move { from, to } = edits[i].1.clone();
        assert!(from != to, "self-move emitted");
        if i > 0 {
            let (a, b) = (edits[i - 1].0, edits[i].0);
            assert!((a.pos, a.prio) <= (b.pos, b.prio), "edits out of order");
        }
        assert!(p.moves.iter().any(|m| m.0 == edits[i].0.pos && m.1 == edits[i].0.prio), "edit at a place where no move was inserted");
    }
}
