#!/bin/bash
# Record the control structure of the functions as the proofs were written for them.
cd "$(dirname "$0")/.."
for t in contracts/P*/verus/*.rs; do target/vextract/release/vextract /repo "$t" /tmp/gs.rs "${t%.rs}.shapes" || echo "LOST $t"; done
rm -f /tmp/gs.rs
