#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand when a property changes).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Packed registers, slots, operands and allocations round-trip losslessly",
 "Every physical register, virtual register, spill slot, operand and allocation built from in-range components reports exactly those components back, and converting it to its raw integer form and back (in every build profile) yields an equal value. Values built from different components are never equal, and an operand built by a named constructor has exactly the kind, timing, constraint and register that the constructor's name promises.",
 ["inputs"],"all in-range component combinations: every register index, class, slot number, constraint, operand kind and position",
 "The unit tests build a handful of registers; the packed encodings share bit ranges between variants, so an overlap or a wrong shift only shows for particular values of several fields at once.",
 ["src/lib.rs"],[("PReg, VReg, SpillSlot packing","src/lib.rs:PReg::new,VReg::new,SpillSlot::new"),("Operand bit packing and constructors","src/lib.rs:Operand::new,Operand::constraint,Operand::reg_fixed_use"),("Allocation packing","src/lib.rs:Allocation::new,Allocation::from_bits")],
 observe=["public accessors and bits()/from_bits()"])
p("P02","A physical-register set behaves as a mathematical set of registers",
 "Adding, removing, uniting, intersecting and inverting physical-register sets change membership of exactly the registers the set operation names, for all registers of all classes; size, emptiness per class, and the highest member agree with membership. Iterating a set yields each member exactly once, in increasing index order, and nothing else; bulk-adding all registers below r adds exactly the registers of smaller index and removes nothing.",
 ["inputs"],"all set contents (2^192 and more) and all registers",
 "The tests check three small example sets; word-boundary, class-boundary and bit-63 behaviour depends on the exact contents.",
 ["src/lib.rs"],[("set operations","src/lib.rs:PRegSet"),("iteration","src/lib.rs:PRegSetIter::next")],observe=["PRegSet's public methods and iterator"])
p("P03","Program points and live ranges order and intersect as half-open intervals",
 "Program points are totally ordered by instruction and then early before late, and stepping to the next or previous point moves exactly one position and is inverse of the other. A live range contains a point exactly when start <= point < end; containment, overlap and joining agree with that set of points; the conflict-search comparison of two non-empty ranges says 'equal' exactly when they share a point and otherwise orders them by position.",
 ["inputs"],"all instruction indices, positions and (non-empty) point ranges",
 "No unit test exercises ranges; the whole allocator's interference detection depends on these comparisons for every pair of ranges, including adjacent and nested ones.",
 ["src/lib.rs","src/ion/data_structures.rs"],[("program points","src/lib.rs:ProgPoint"),("code ranges","src/ion/data_structures.rs:CodeRange"),("search-key comparison","src/ion/data_structures.rs:LiveRangeKey")],hook="crate-internal types: harness module compiled in under the guard")
p("P04","Live-in/live-out sets behave as sets and unions report change exactly",
 "Setting, clearing and testing members of a live-variable set affects exactly the named member, whatever sequence of operations came before and however many words the set occupies. Union makes the target exactly the union of both sets and returns whether the target grew; iteration yields each member exactly once.",
 ["inputs","histories"],"all sequences of operations on sets of arbitrary members, across the small-to-large representation change",
 "The one test clears bits while filling 12 words; the representation switch at 12 words, tombstones and cached entries depend on the operation history.",
 ["src/indexset.rs"],[("adaptive word map","src/indexset.rs:AdaptiveMap"),("set operations","src/indexset.rs:IndexSet"),("bit iteration","src/indexset.rs:SetBitsIter::next")],
 state=[("elems","word map","src/indexset.rs:IndexSet"),("cache","last accessed word","src/indexset.rs:IndexSet")],hook="crate-internal type")
p("P05","A resolved parallel move performs exactly the parallel assignment",
 "For any set of moves with pairwise distinct destinations (duplicates of the same move allowed), executing the returned sequence of moves in order leaves every destination holding the value its source held before the first move, and changes no location that is not a destination, other than the scratch placeholder. A scratch placeholder is demanded only if the moves contain a cycle; it is always written before it is read, and filling it in substitutes the given location for it everywhere.",
 ["inputs"],"all move sets of any size: every permutation, chain, tree and cycle structure",
 "The fuzz smoke test samples a few random move sets of bounded size for a second; correctness must hold for every graph shape.",
 ["src/moves.rs"],[("topological order with cycle breaking","src/moves.rs:ParallelMoves::resolve"),("scratch substitution","src/moves.rs:MoveVecWithScratch::with_scratch")],observe=["sequence returned by resolve"],hook="module is private outside fuzzing")
p("P06","Final move sequences never move stack to stack and preserve borrowed registers",
 "Given any resolved move sequence, the final sequence contains no move between two stack locations, has the same effect as the original on every location other than scratch locations that the caller declared free, and if it borrowed an in-use register that register ends with the value the original sequence would leave in it.",
 ["inputs","configurations"],"all move sequences, any pattern of available free registers, and any interaction of moves with the borrowed register",
 "The smoke test samples random inputs; the save/restore state machine around the borrowed register has interleavings that need specific move orders.",
 ["src/moves.rs"],[("stack-to-stack expansion","src/moves.rs:MoveAndScratchResolver::compute")],hook="module is private outside fuzzing")
p("P07","A move is elided as redundant only when the destination already has the value",
 "For any sequence of moves and location invalidations reported to the redundant-move tracker, a move is declared redundant only if, in every execution of that sequence, the destination already holds the value of the source at that point. Forgetting everything or one location never makes a later move wrongly redundant.",
 ["histories"],"all histories of moves, location invalidations and resets over any set of locations",
 "No test exercises the tracker directly; stale copy facts arise only after particular chains of copies and overwrites.",
 ["src/ion/redundant_moves.rs"],[("copy tracking","src/ion/redundant_moves.rs:RedundantMoveEliminator::process_move"),("invalidation","src/ion/redundant_moves.rs:RedundantMoveEliminator::clear_alloc")],
 state=[("allocs","location -> copy fact","RedundantMoveEliminator"),("reverse_allocs","location -> its copies","RedundantMoveEliminator")],hook="crate-internal type")
p("P08","Spill slots are aligned, disjoint and inside the reported frame",
 "Each spill slot handed out for a value of (power-of-two) size n is aligned to n, overlaps no slot handed out before it, and lies wholly within the frame size that the allocator reports afterwards. The frame size never shrinks while slots are handed out, and two spilled values share a slot only if the program ranges over which they need it do not overlap.",
 ["inputs","histories"],"all sequences of slot requests of any sizes, and both slot-naming conventions",
 "Tests never inspect slot numbers; alignment only matters for mixed-size request sequences.",
 ["src/ion/spill.rs","src/fastalloc/mod.rs"],[("backtracking allocator slots","src/ion/spill.rs:allocate_spillslot"),("fast allocator slots","src/fastalloc/mod.rs:Stack::allocstack")],hook="crate-internal functions")
p("P09","Register probing offers each eligible register exactly once",
 "When the allocator probes registers for a class it is offered every allocatable register of that class (preferred and non-preferred) that is below the requested limit exactly once, with the hint first, all preferred registers before any non-preferred one apart from the hint, whatever starting offset is used. When a fixed register is required it is offered exactly that register, once, and no other.",
 ["inputs","configurations"],"all machine environments, hints, fixed requirements, limits and starting offsets",
 "Probing order depends on offsets derived from the program; missing or repeated registers only cause spurious spills or hidden failures in rare register-pressure situations.",
 ["src/ion/reg_traversal.rs"],[("traversal","src/ion/reg_traversal.rs:RegTraversalIter"),("wrap-around cursor","src/ion/reg_traversal.rs:Cursor")],hook="crate-internal type")
p("P10","Merged requirements admit exactly the locations both requirements admit",
 "Combining two location requirements yields a requirement satisfied by exactly the locations that satisfy both, or a conflict exactly when the combination cannot be represented as a satisfiable requirement; combination is commutative. The requirement derived from an operand's constraint admits only locations the constraint admits, and the stack/register classification of a requirement agrees with the locations it admits.",
 ["inputs"],"all pairs of requirements and all operands",
 "No test targets requirement merging; a wrong table entry silently produces invalid or needlessly failing allocations only for particular constraint pairs on one value.",
 ["src/ion/requirement.rs"],[("merging","src/ion/requirement.rs:Requirement::merge"),("derivation from operands","src/ion/requirement.rs:Env::requirement_from_operand")],hook="crate-internal type")
p("P11","The least-recently-used register list keeps exact recency order",
 "After any sequence of operations that mark a register as most recently used, take out the least recently used one, remove a register or insert one, the fast allocator's register recency list contains exactly the registers that should be in it, each once, ordered from most to least recently used; the register chosen as least recent, optionally restricted to a set of candidates, is the least recently used one that qualifies, and nothing is chosen only if none qualifies.",
 ["histories","inputs"],"all operation sequences on lists of any registers",
 "The list is only exercised indirectly; link corruption needs particular removals at the head or in one/two-element lists.",
 ["src/fastalloc/lru.rs"],[("circular doubly linked list","src/fastalloc/lru.rs:Lru")],hook="crate-internal type")
p("P12","The live-variable list of the fast allocator behaves as a set",
 "After any sequence of insertions and removals, the fast allocator's live-variable list contains exactly the variables inserted and not since removed; it is empty exactly when there are none, and iterating yields each member exactly once.",
 ["histories"],"all histories of insertions and removals over any number of variables",
 "Two short tests exist; list corruption depends on which neighbours were removed before.",
 ["src/fastalloc/vregset.rs"],[("circular list with sentinel","src/fastalloc/vregset.rs:VRegSet")],hook="crate-internal type")
p("P13","Block postorder lists each reachable block once, children first",
 "The computed postorder contains exactly the blocks reachable from the entry, each exactly once, with the entry last, and is the finishing order of a depth-first search: along any edge between listed blocks the target comes before the source unless the source is reachable from the target. An out-of-range entry or successor is reported as an error rather than a crash.",
 ["inputs","programs"],"all control-flow graphs, including unreachable blocks, self loops and duplicate edges",
 "Fuzz smoke tests sample tiny generated graphs; the property quantifies over all graphs.",
 ["src/postorder.rs"],[("explicit-stack DFS","src/postorder.rs:calculate")],hook="crate-internal function")
p("P14","Dominance answers agree with path dominance on every flow graph",
 "For every flow graph, the computed immediate-dominator table and dominance query say that reachable block a dominates reachable block b exactly when every path from the entry to b passes through a. Every query terminates.",
 ["inputs","programs"],"all control-flow graphs, reducible or not, with unreachable predecessors",
 "The fuzz smoke test samples small random graphs; irreducible graphs that need several fix-point rounds are rare.",
 ["src/domtree.rs"],[("iterative dominators","src/domtree.rs:calculate,merge_sets"),("query","src/domtree.rs:dominates")],hook="crate-internal functions")
p("P15","Flow-graph analysis rejects critical edges and unplaceable branch arguments",
 "Analysis of a function succeeds only if no edge leads from a block with several successors to a block with several predecessors (the entry counting as one extra predecessor) and no branch into a block with several predecessors carries ordinary operands, and it rejects exactly the functions that violate this, naming an offending edge or instruction. On success each instruction is mapped to its block and each block to its first and last program point.",
 ["inputs","programs"],"all functions over all flow graphs",
 "The generators used by the tests only produce functions that satisfy the condition, so rejection is never exercised.",
 ["src/cfg.rs"],[("checks and maps","src/cfg.rs:CFGInfo::init")],observe=["returned error"],hook="crate-internal type")
p("P16","Input validation accepts exactly well-formed SSA functions",
 "Validation accepts a function only if every variable has at most one definition, every operand use of an instruction is preceded in its block by the definition or lies in a block dominated by the defining block (in an unreachable block only the former), each block is non-empty and ends in its only terminator, each branch passes as many arguments as the target has parameters, and the entry has no parameters; it reports an error for every function violating one of these and accepts every function that satisfies them.",
 ["inputs","programs"],"all functions with any blocks, operands and block parameters",
 "Test generators produce only valid functions, so no rejection path is executed.",
 ["src/ssa.rs"],[("definition, use, terminator and argument checks","src/ssa.rs:validate_ssa")],observe=["returned error"],hook="crate-internal function")
p("P17","The symbolic checker accepts an operand only if the location truly satisfies it",
 "In the allocation checker, an instruction's operands are accepted only if each used location is known to hold the used variable on all paths and every location satisfies its operand's constraint; moves, parallel moves, definitions and clobbers update the known contents of exactly the locations they write; merging the states of two paths keeps a fact only if both paths establish it. In blocks that no path reaches only the constraints apply. No mismatch is ever reported for a location that satisfies both conditions.",
 ["inputs","programs","histories"],"all symbolic states, operands, allocations and instruction sequences",
 "The fuzz targets use the checker as their oracle, so a checker that accepts too much makes the tests pass silently.",
 ["src/checker.rs"],[("value lattice","src/checker.rs:CheckerValue"),("constraint checks","src/checker.rs:CheckerState::check_constraint,check_val"),("transfer function","src/checker.rs:CheckerState::update"),("meet","src/checker.rs:CheckerState::meet_with")],observe=["Checker::run errors"],hook="crate-internal types")
p("P18","The output view interleaves edits and instructions exactly and completely",
 "Iterating a block's instructions and edits yields every instruction of the block exactly once in order and every edit whose position lies between the block's first point and the point before its last instruction exactly once in order, with each edit placed at its program point: edits before an instruction come before it and edits after it come directly after it. The per-instruction location list returned for an instruction is exactly that instruction's portion of the table.",
 ["inputs","programs"],"all sorted edit lists, blocks and instruction counts",
 "Tests consume the iterator only on generated outputs and never compare it against the raw edit list.",
 ["src/lib.rs"],[("block view","src/lib.rs:Output::block_insts_and_edits"),("interleaving","src/lib.rs:OutputIter::next"),("location table","src/lib.rs:Output::inst_allocs")],observe=["Output's public methods"])
p("P19","Emitted edits are ordered by program point and keep same-point order",
 "The edit list emitted by the backtracking allocator is sorted by program point, with edits at the same point kept in the priority order in which the move groups are defined and otherwise in insertion order, and contains no edit that moves a location to itself; every other inserted edit is kept exactly once.",
 ["inputs","histories"],"all sequences of inserted edits with any positions and priorities",
 "No test inspects edit order; a swapped priority only shows when two move groups collide at one program point.",
 ["src/ion/data_structures.rs"],[("edit buffer","src/ion/data_structures.rs:Edits"),("insertion filter","src/ion/data_structures.rs:InsertedMoves::push"),("sort key","src/ion/data_structures.rs:PosWithPrio::key")],hook="crate-internal types")
p("P20","Packed sort keys and packed live-range fields preserve order and content",
 "The packed integer keys used to sort moves, block-parameter records and edits order exactly like the tuples they encode, and distinct tuples have distinct keys. Live-range flags, use counts, spill weights (to the precision kept: the two lowest mantissa bits are dropped) and bundle summary fields packed into one word read back what was last written, without disturbing their neighbours.",
 ["inputs"],"all values of every packed field",
 "Packing errors appear only when one field's value spills into its neighbour, which small generated programs never reach.",
 ["src/ion/data_structures.rs"],[("key packing","src/ion/data_structures.rs:u64_key,u128_key"),("block-parameter keys","src/ion/data_structures.rs:BlockparamOut::key,BlockparamIn::key"),("live-range fields","src/ion/data_structures.rs:LiveRange"),("bundle fields","src/ion/data_structures.rs:LiveBundle")],hook="crate-internal types")
p("P21","A reused allocation context starts every run indistinguishable from a fresh one",
 "When an allocation context is reused for another function, every piece of per-function working state is reset before allocation starts, so nothing left by any earlier run, successful or failed, can influence the next result.",
 ["histories"],"all contexts left behind by any earlier run",
 "Tests create a fresh context per run, except the smoke test that reuses one without comparing results.",
 ["src/ion/mod.rs","src/ion/data_structures.rs"],[("context reset","src/ion/mod.rs:Env::new"),("entry point","src/ion/mod.rs:run")],state=[("Ctx","per-function buffers","src/ion/data_structures.rs:Ctx")],hook="crate-internal types")
p("P22","Live ranges given the same register never overlap",
 "The backtracking allocator puts a group of live ranges (a bundle) into a register only if nothing recorded for that register, neither another group's live range nor a fixed reservation, shares a program point with any range of the group; it then records exactly the group's ranges there. In every other case it changes no assignment, and what it reports is true: either the groups in the way, each of them once and all of them, with no reservation in the way, or that a reservation is in the way, or that a group in the way weighs more than was allowed. Evicting a group frees exactly its own ranges and queues the group to be assigned again. Hence no two groups that are in one register at the same time have overlapping live ranges. A spill slot has at most one spill group, which is on the list of groups left over once; in the end every group left over that has live ranges is in a register that is free for it or asks for its spill slot, and no slot is asked for that no group needs.",
 ["inputs","histories"],"all groups, ranges, reservations, registers, cost limits and sequences of assignments and evictions",
 "No test looks at the occupancy maps; the concurrent walk over the group and the map (which skips and seeks) only goes wrong for particular interleavings of ranges, and the result is wrong code only if the two values are used later.",
 ["src/ion/process.rs","src/ion/spill.rs","src/ion/data_structures.rs"],[("assignment","src/ion/process.rs:try_to_allocate_bundle_to_reg"),("eviction","src/ion/process.rs:evict_bundle"),("groups left over","src/ion/spill.rs:try_allocating_regs_for_spilled_bundles"),("spill groups","src/ion/process.rs:get_or_create_spill_bundle"),("order of the occupancy maps","src/ion/data_structures.rs:LiveRangeKey::cmp")],state=[("PRegData.allocations","live ranges and reservations of each register","src/ion/data_structures.rs:PRegData")],hook="crate-internal types")
p("P23","Live ranges are grouped only where they fit, and a merged group is exactly both",
 "Before allocation the backtracking allocator makes one group (bundle) of the live ranges of every variable, marked with the kinds of use they have, and merges groups that should share a location. Two groups are merged only if they are of the same register class, neither is assigned yet, no live range of one overlaps one of the other (nor, where a group has a fixed-register definition, reaches into the instruction that makes it), and, where either has a fixed-register, stack or limited use, some location satisfies all uses of both. The merged group then holds exactly the live ranges of both, each once and in order, every live range names the group that holds it, the group's limit is the lower one, its markings (fixed, fixed definition, stack) are those of both and its spill-slot extent covers every live range; the other group is empty. In every other case nothing changes. No group outside the two is touched. So when allocation starts every live range of every variable is in exactly the group it names, and every group is of one class, in order, free of overlap and within its spill-slot extent.",
 ["inputs","histories"],"all groups, live ranges, uses and sequences of merges",
 "No test looks at bundles; a wrong merge only shows when the two values are live together or their uses conflict in a particular way.",
 ["src/ion/merge.rs","src/ion/data_structures.rs"],[("making and merging groups","src/ion/merge.rs:merge_vreg_bundles"),("merging","src/ion/merge.rs:merge_bundles"),("markings and limit","src/ion/merge.rs:merge_bundle_properties"),("order of ranges","src/ion/data_structures.rs:CodeRange::cmp")],state=[("LiveBundle.ranges","a group's live ranges, in order","src/ion/data_structures.rs:LiveBundle")],hook="crate-internal types")
p("P24","What cannot be split outweighs whatever can, so evicting makes progress",
 "Before a group of live ranges is queued, the backtracking allocator records of it: its priority, the number of instructions its ranges span; its limit, the lowest limit of its uses; whether it cannot be split any further (it is a reservation, or a single live range with at most one use and no longer than that use needs its location for); which kinds of use a single-range group has (fixed, fixed definition, stack); and its weight; and of every live range whether it starts with a definition. A group that cannot be split weighs more than every group that can, whatever its uses; among those that cannot, one bound to a fixed register weighs more than one with a choice, and one with a tighter limit more than one with a looser or none. Allocation starts with every group that has live ranges queued exactly once, by its priority, and nothing but the recorded figures of the groups changes. As a group only ever evicts lighter ones, none that can be split displaces one that cannot.",
 ["inputs"],"all groups, live ranges, uses, constraints and use weights",
 "Weights only decide anything when registers run out; a wrong one shows as a livelock or as a failure to allocate on rare programs.",
 ["src/ion/process.rs","src/ion/merge.rs","src/ion/data_structures.rs"],[("weight and marks","src/ion/process.rs:recompute_bundle_properties"),("what a use needs","src/ion/process.rs:minimal_range_for_use"),("priority and limit","src/ion/merge.rs:compute_bundle_limit"),("the first queue","src/ion/merge.rs:queue_bundles")],state=[("LiveBundle.spill_weight_and_props","weight and marks, packed","src/ion/data_structures.rs:LiveBundle")],hook="crate-internal types")
p("P25","Splitting a group loses no use and no part of its live ranges",
 "Splitting a group of live ranges, at any point and however often, leaves every use in exactly one live range of the same variable that covers what the use needs, leaves every variable live exactly where it was, keeps every live range with the group it names and with its variable's list, keeps the spill slot, puts into the spill group only what no use requires in a register (no use, or uses that accept anything), queues every resulting group once, with the length, weight, limit and marks that are its own, and makes progress: a piece is smaller than the whole or cannot be split. Splitting to the least leaves only groups that cannot be split. A live range that starts with a definition stays known to, and no other part of the variable begins before that definition is done.",
 ["inputs","histories"],"all groups, split points and chains of splits",
 "Tests never look at groups; a lost use or a lost part of a live range shows only on the programs where that value is needed just there.",
 ["src/ion/process.rs"],[("splitting","src/ion/process.rs:split_and_requeue_bundle"),("splitting to the least","src/ion/process.rs:split_into_minimal_bundles"),("the spill group","src/ion/process.rs:get_or_create_spill_bundle")],state=[("LiveRange.uses","the uses of a live range","src/ion/data_structures.rs:LiveRange")],hook="crate-internal types")
# --- stated, not claimed
p("P30","The allocated program computes what the original program computed",
 "For every accepted function, replacing variables by the assigned locations and executing the inserted moves at their program points yields, on every path, at each use exactly the value that the used variable has in the original function.",
 ["programs","configurations"],"all accepted functions, machine environments and both algorithms",
 "Fuzzing samples; the checker validates one output at a time.",
 ["src/ion/mod.rs","src/fastalloc/mod.rs","src/checker.rs"],[("backtracking allocator","src/ion/mod.rs:run"),("fast allocator","src/fastalloc/mod.rs:run")])
p("P31","Every assigned location satisfies its operand's constraint",
 "In every successful result, each operand is assigned a location of the variable's class that satisfies the operand's constraint: fixed, reused, limited, any-register, stack.",
 ["programs","configurations"],"all accepted functions, machine environments and both algorithms",
 "Fuzzing samples a small part of the constraint space.",
 ["src/ion/process.rs","src/fastalloc/mod.rs"],[("constraint solving","src/ion/process.rs:process_bundle"),("operand processing","src/fastalloc/mod.rs:process_operand_allocation")])
p("P32","No value live across an instruction sits in a register it clobbers",
 "In every successful result no value that is live across an instruction is held in a register which that instruction clobbers or overwrites with a definition.",
 ["programs","configurations"],"all accepted functions and clobber sets",
 "Needs particular liveness and clobber overlap.",
 ["src/ion/liveranges.rs","src/fastalloc/mod.rs"],[("clobber reservations","src/ion/liveranges.rs:compute_liveness")])
p("P33","Allocation returns a result or a documented error, and always terminates",
 "For every well-formed function and machine environment allocation terminates with a result or with the documented error for infeasible register demand, and never panics.",
 ["programs","configurations"],"all functions and machine environments",
 "Termination and absence of panics cannot be sampled.",
 ["src/ion/process.rs","src/fastalloc/mod.rs"],[("work queue","src/ion/process.rs:process_bundles")])
p("P34","Debug-value locations are correct wherever they are reported",
 "Each reported debug location names, for each point of its range, a location that holds the labelled variable there (at a branch: before the moves for its outgoing edge). Ranges are sorted by label and position; the backtracking allocator keeps them inside the requested label ranges, and disjoint when those are.",
 ["programs"],"all functions with debug labels",
 "Two fixed examples exist.",
 ["src/ion/moves.rs","src/fastalloc/mod.rs"],[("debug locations","src/ion/moves.rs:apply_allocations_and_insert_moves")])
p("P35","Allocation is deterministic",
 "Allocating the same function with the same environment and options always produces the same result.",
 ["programs","histories"],"all functions, repeated in any order",
 "Needs comparison of repeated runs over all inputs.",
 ["src/ion/mod.rs","src/fastalloc/mod.rs"],[("no iteration over hash maps in decisions","src/ion")])
p("P36","A saved function replays identically",
 "A function saved together with its environment and loaded again answers every query exactly as the original function did.",
 ["programs"],"all functions",
 "No test covers serialization.",
 ["src/serialize.rs"],[("snapshot","src/serialize.rs:SerializableFunction")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
