#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ION = ["src/ion/mod.rs", "src/ion/liveranges.rs", "src/ion/merge.rs", "src/ion/process.rs", "src/ion/spill.rs", "src/ion/moves.rs", "src/ion/redundant_moves.rs", "src/moves.rs"]
FAST = ["src/fastalloc/mod.rs", "src/fastalloc/iter.rs", "src/fastalloc/lru.rs", "src/fastalloc/vregset.rs", "src/moves.rs"]

prop("C01", "Ion: allocated code delivers every operand its value on every path",
 "When the backtracking (Ion) algorithm allocates a valid function, running the resulting instructions and moves along any path through the control-flow graph, with any loop trip counts, hands every use operand exactly the value most recently produced by its virtual register's definition (or by the block-parameter assignment of the edge taken). This holds although registers named as clobbers, the dedicated scratch registers inside instructions, and every location not written yet may contain anything.",
 ["programs", "schedules", "configurations", "fault_sequences"],
 "every valid function (any CFG shape and block order, block parameters, operand constraints, clobbers), every machine environment, every branch-outcome schedule, every content of clobbered, scratch and uninitialised storage",
 "The unit tests and the 1-second fuzz smoke test validate a handful of outputs with the crate's own symbolic checker on small register files; they never execute allocated code, so control-flow-dependent move placement, splitting, spilling and edge moves are not exercised over all paths.",
 ION,
 [("live ranges from backward liveness", "src/ion/liveranges.rs"), ("bundle merging", "src/ion/merge.rs"), ("splitting, eviction and assignment", "src/ion/process.rs"), ("move insertion at splits, edges and block params", "src/ion/moves.rs"), ("redundant move elimination", "src/ion/redundant_moves.rs"), ("parallel-move resolution", "src/moves.rs")],
 observe=["Output::block_insts_and_edits", "Output::inst_allocs"])

prop("C02", "Fastalloc: allocated code delivers every operand its value on every path",
 "When the single-pass (fastalloc) algorithm allocates a valid function, whatever the order in which its blocks are listed, running the resulting instructions and moves along any path through the control-flow graph hands every use operand exactly the value most recently produced by its virtual register's definition (or by the block-parameter assignment of the edge taken). This holds although registers named as clobbers, the dedicated scratch registers inside instructions, and every location not written yet may contain anything.",
 ["programs", "schedules", "configurations", "fault_sequences"],
 "every valid function within fastalloc's documented restrictions, every machine environment, every branch-outcome schedule, every content of clobbered, scratch and uninitialised storage",
 "The tests run two debug-location examples and a 1-second fuzz smoke test that uses the crate's own checker; allocated code is never executed, and eviction/reload interleavings across blocks are only sampled on tiny inputs.",
 FAST,
 [("reverse scan with eviction to dedicated spill slots", "src/fastalloc/mod.rs"), ("LRU choice of victims", "src/fastalloc/lru.rs"), ("reload at block begin, branch argument handling", "src/fastalloc/mod.rs"), ("live vreg set", "src/fastalloc/vregset.rs")],
 observe=["Output::block_insts_and_edits", "Output::inst_allocs"])

prop("C03", "Operand constraints hold and operands of one instruction do not interfere",
 "In every successful allocation by either algorithm, each operand's location satisfies its constraint (any, register, stack, the fixed register, the reused input's register, or a register below the limit, of the operand's class) and holds the right value there when the instruction runs. Within one instruction, operands that are live in the same phase (early/late) share a location only if they carry the same value: early definitions never overwrite an input, late uses survive late definitions and clobbers, and reused inputs stay intact for other uses.",
 ["programs", "schedules", "configurations"],
 "every instruction shape: mixes of constraints, positions, duplicate uses of one register, several fixed uses of one value, reuse, clobbers, fixed stack slots, limits",
 "Tests cover few operand mixes and check constraints only with the crate's own checker, which skips parts of instructions with reused inputs; the space of constraint combinations is combinatorial.",
 ["src/lib.rs", "src/ion/requirement.rs", "src/ion/liveranges.rs", "src/ion/process.rs", "src/ion/merge.rs", "src/fastalloc/mod.rs", "src/fastalloc/iter.rs"],
 [("requirement merging per bundle", "src/ion/requirement.rs"), ("multi-fixed-register fixups", "src/ion/liveranges.rs"), ("reuse handling", "src/ion/liveranges.rs"), ("limit handling", "src/ion/requirement.rs, src/ion/process.rs"), ("per-phase availability sets", "src/fastalloc/mod.rs")],
 observe=["Output::inst_allocs"])

prop("C04", "Only granted registers are used, and clobbers and scratch are respected",
 "No operand is ever placed in, and no inserted move ever reads or writes, a physical register that the machine environment did not offer as allocatable, as that class's dedicated scratch register (moves only) or as a fixed stack slot. No value that is read later is kept in a register across an instruction that clobbers it, nor in a dedicated scratch register across any instruction.",
 ["programs", "configurations", "schedules", "fault_sequences"],
 "every register file (sizes, gaps, preferred/non-preferred split, dedicated scratch or none, fixed stack slots), every clobber set, every run in which the clobbered and scratch registers are overwritten with garbage",
 "The tests use one fixed 24/32-register environment shape without fixed scratch registers; environments with holes, tiny classes or dedicated scratch registers are untested.",
 ["src/ion/reg_traversal.rs", "src/ion/process.rs", "src/ion/moves.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs", "src/moves.rs", "src/lib.rs"],
 [("register probing order over preferred/non-preferred sets", "src/ion/reg_traversal.rs"), ("clobbers as preg reservations", "src/ion/liveranges.rs"), ("scratch register search", "src/ion/moves.rs"), ("clobber eviction", "src/fastalloc/mod.rs")],
 observe=["Output::edits", "Output::inst_allocs"])

prop("C05", "The output is a well-formed stream that any consumer can emit in one pass",
 "For every successful allocation: there is exactly one location per operand in operand order, moves are sorted by program point, each lies before some instruction of a block (never after its terminator), and iterating a block yields exactly its instructions and moves in order. No move goes directly between two stack locations or between register classes, and every spill slot named lies, with the full size of its class and aligned to it, inside the reported frame, without two simultaneously live values overlapping.",
 ["programs", "configurations", "schedules"],
 "every valid function, both algorithms, every spill-slot size per class and either slot-naming convention, every path executed",
 "Nothing in the tests looks at move order, terminators, slot alignment or frame size beyond what the symbolic checker happens to need; multi-slot classes are not tested.",
 ["src/lib.rs", "src/ion/moves.rs", "src/ion/spill.rs", "src/moves.rs", "src/fastalloc/mod.rs"],
 [("edit sorting", "src/ion/data_structures.rs, src/fastalloc/mod.rs"), ("slot allocation by class size", "src/ion/spill.rs"), ("stack-to-stack move expansion", "src/moves.rs"), ("per-block iterator", "src/lib.rs")],
 observe=["Output::edits", "Output::num_spillslots", "Output::block_insts_and_edits"])

prop("C06", "Debug locations are truthful wherever a debugger stops",
 "Reported debug locations are sorted by label and program point and the ranges of a label are disjoint. Whenever execution of the allocated code is stopped at a program point that a reported location covers, that location holds the current value of the labelled virtual register. With the Ion algorithm a label is only reported inside the ranges the client asked for, and every point at which a requested virtual register is certainly live is covered.",
 ["programs", "schedules", "crash_points"],
 "every assignment of labels to virtual registers and instruction ranges, every point at which a debugger may stop the run, on every path",
 "The only tests are two hand-written straight-line fastalloc functions; Ion's debug locations are not tested at all and no test ever compares a location with the value actually there.",
 ["src/ion/moves.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("debug label intersection with live ranges", "src/ion/moves.rs"), ("per-vreg live instruction range", "src/fastalloc/mod.rs")],
 observe=["Output::debug_locations"])

prop("C07", "Allocation of a valid function terminates without panicking and does not fail",
 "For every valid function and environment, with either algorithm and with the crate's internal assertions on or off, allocation returns after a bounded amount of work and never panics. The only error it may return is that there are too many live registers, and only if some instruction's register operands, clobbers and fixed registers come close to exhausting the registers of a class; a function whose every instruction leaves registers to spare is always allocated, no matter how high the register pressure between instructions is.",
 ["programs", "configurations", "fault_sequences"],
 "every valid function, from loose ones to those in which instructions need exactly as many registers as exist; builds with and without debug assertions",
 "Tests run generously provisioned register files and never starve the allocator; failing and near-failing paths (last-resort splits, minimal bundles, borrowed scratch registers) are hardly reached.",
 ["src/ion/process.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs", "src/fastalloc/lru.rs", "src/lib.rs"],
 [("minimal-bundle detection and TooManyLiveRegs", "src/ion/process.rs"), ("split strategy that always makes progress", "src/ion/process.rs"), ("register accounting per phase", "src/fastalloc/mod.rs")],
 observe=["regalloc2::run result"])

prop("C08", "A reused context behaves like a fresh one after any history",
 "Allocating with a context that was used before gives exactly the output (moves, locations, frame size, debug locations and statistics) that a fresh context gives. This holds after any history of successful runs with either algorithm, failed runs (validation errors, too many live registers), runs aborted by a panic inside one of the client's callbacks, and after the client has taken the output out of the context.",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "every sequence of functions, environments, algorithms and options run on one context, with errors and client panics injected at arbitrary callbacks",
 "No test ever reuses a context; stale state only shows when a particular earlier function leaves it behind, e.g. after an aborted run.",
 ["src/ion/mod.rs", "src/ion/data_structures.rs", "src/cfg.rs", "src/lib.rs", "src/indexset.rs"],
 [("reset of every recycled structure at the start of a run", "src/ion/mod.rs"), ("bump arena reset", "src/ion/data_structures.rs"), ("recycled CFG scratch", "src/cfg.rs")],
 observe=["run_with_ctx", "Ctx::output"])

prop("C09", "Results are deterministic and isolated between interleaved clients",
 "The result of an allocation depends only on the function, the environment and the algorithm: it is identical when repeated, in another process, on another thread, with other heap contents, when other clients' allocations are interleaved with it at any callback (on other threads or nested inside a callback), when its context has migrated between threads, and whatever the logging and validation options are.",
 ["schedules", "histories", "configurations"],
 "every interleaving of several clients at callback granularity, nested runs, context migration between threads, heap perturbation, separate processes, all option settings",
 "Tests run single-threaded, once per input, and never compare two runs; iteration over an address- or randomly-seeded hash map or shared hidden state would go unnoticed.",
 ["src/lib.rs", "src/ion/data_structures.rs", "src/ion/mod.rs", "src/ion/process.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
 [("deterministic hashing", "src/lib.rs"), ("Send/Sync wrapper around the arena-backed state", "src/ion/data_structures.rs"), ("no global state", "src/lib.rs")],
 observe=["regalloc2::run", "run_with_ctx"])

prop("C10", "Serialized functions and outputs survive storage, and damage is reported",
 "A function written to and read back from a byte stream - with short, interrupted or split reads and writes - presents the allocator with exactly the same function and machine environment, so that both algorithms give the same result; an allocation's output, round-tripped likewise, is unchanged. A failing, truncated or damaged stream yields an error or a value, never a panic, hang or unbounded allocation, and a write that fails is reported.",
 ["inputs", "fault_sequences", "crash_points"],
 "every function, environment and output; every pattern of short and interrupted I/O; every truncation point and flipped bit; binary and textual encodings",
 "No test serializes anything: the serde implementations and the serializable function wrapper are untested.",
 ["src/serialize.rs", "src/lib.rs", "src/index.rs", "regalloc2-tool/src/main.rs"],
 [("SerializableFunction capture and Function impl", "src/serialize.rs"), ("serde derives of operands, allocations, register sets, outputs", "src/lib.rs, src/index.rs")],
 observe=["serialize::SerializableFunction", "Output serde impls"])

prop("C11", "The checker accepts correct allocations and rejects wrong ones",
 "The symbolic checker reports no error for any output the two algorithms produce for a valid function. If an output has been corrupted (a location changed or swapped, a move dropped, redirected, reordered, duplicated or given another source) such that some path through the allocated code hands an operand a wrong value, or an operand's constraint is violated, or a move goes between two stack locations, the checker reports an error.",
 ["programs", "fault_sequences", "schedules"],
 "every valid function and output, every corruption of the output whose misbehaviour shows on some executed path",
 "The checker is the oracle of the existing fuzz tests, so they cannot notice if it goes blind; no test feeds it a wrong allocation.",
 ["src/checker.rs"],
 [("dataflow over sets of virtual registers per location", "src/checker.rs"), ("constraint checks", "src/checker.rs"), ("clobber handling", "src/checker.rs")],
 observe=["checker::Checker::run"])

prop("C12", "Parallel moves are sequentialised faithfully, however scarce scratch is",
 "Resolving a set of parallel moves with distinct destinations yields a sequence after which every destination holds what its source held before, every other location except free scratch registers and newly requested stack slots is unchanged, and no move goes between two stack locations. This holds for all mixes of chains, fan-outs, cycles and self-moves, whether two, one or no free registers are available at the time they are asked for.",
 ["inputs", "fault_sequences"],
 "every set of moves over registers, spill slots and fixed stack slots; every pattern of the scratch-register search failing",
 "The smoke test runs a generator for one second on its own small universe with free registers usually available; long cycles combined with exhausted scratch registers are rare there.",
 ["src/moves.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
 [("cycle breaking with one scratch location", "src/moves.rs"), ("stack-to-stack expansion, borrowed register save/restore", "src/moves.rs")],
 observe=["moves::ParallelMoves::resolve", "moves::MoveAndScratchResolver::compute"],
 hook="re-export of the resolver, which is private without the fuzzing feature")

prop("C13", "Ill-formed functions are reported as the documented error",
 "With SSA validation on, a function with a client mistake - a use not dominated by its definition, a second definition, an undefined or misnumbered virtual register, a block that does not end in a branch or return or has one in the middle, branch arguments that do not match the successor's parameters, an unsplit critical edge, operands on a branch whose successor has several predecessors, a value live into the entry block - is answered with the error variant documented for that mistake, by both algorithms, without a panic. Valid functions are never rejected.",
 ["programs", "fault_sequences"],
 "every valid function with one client mistake injected at an arbitrary place, both algorithms, fresh or reused context; and every valid function without one",
 "No test contains an ill-formed function; the validator's rejections are never exercised.",
 ["src/ssa.rs", "src/cfg.rs", "src/domtree.rs", "src/postorder.rs", "src/lib.rs", "src/ion/liveranges.rs"],
 [("SSA validation against dominators", "src/ssa.rs"), ("critical edge and branch operand checks", "src/cfg.rs"), ("dominator tree", "src/domtree.rs"), ("entry live-in check", "src/ion/liveranges.rs")],
 observe=["regalloc2::run error"])

prop("C14", "Compact encodings of operands, registers and sets are lossless",
 "Operands, locations, registers, register sets, program points and edits read back exactly the fields they were built from, and register sets obey set algebra.",
 ["inputs"], "every combination of field values", "Unit tests cover a few constructors.",
 ["src/lib.rs", "src/index.rs"], [("bit packing", "src/lib.rs")])

prop("C15", "Allocation work and memory stay near-linear on large functions",
 "The work an allocation does and the memory it requests grow close to linearly with the size of the function (instructions, operands, clobbers, edges, block arguments), as long as the number of values live at once stays the same: thousands of blocks in sequence, in loops or around one branch, long blocks, joins with thousands of parameters, long-lived values split and spilled everywhere, cold blocks listed at the end, and debug labels must not make a unit of the function several times as expensive in a function 16 times as large. The stack it uses does not grow with the function. (Blocks are listed roughly in order; fastalloc, which goes over blocks once in postorder, counts a value as live from its first use it meets to its definition; validate_ssa is off.)",
 ["inputs"], "functions of up to hundreds of thousands of operands", "No benchmark runs as a test, and the tests' functions are small.",
 ["src/ion/moves.rs", "src/ion/merge.rs", "src/ion/process.rs", "src/ion/spill.rs", "src/ion/liveranges.rs", "src/postorder.rs", "src/fastalloc/mod.rs"],
 [("cap on ranges compared in a merge", "src/ion/merge.rs merge_bundles"), ("cap on splits of a spillset", "src/ion/process.rs split_and_requeue_bundle"), ("cap on probes for a spill slot", "src/ion/spill.rs allocate_spillslots"), ("single sweep over block parameters", "src/ion/moves.rs apply_allocations_and_insert_moves")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
