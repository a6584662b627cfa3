#!/usr/bin/env python3
"""Write MANIFEST.json. Usage: python3 tools/mkmanifest.py"""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CPU = ("deterministic simulation: seeded search over simulated executions of the allocated code "
       "(branch schedules, clobber/scratch/uninitialised-state corruption) against a reference machine")
SAMPLE = "Seeded sampling: a clean batch is evidence, not proof. "
CLAIMS = {
 "C01": (CPU, SAMPLE + "Trusts the simulated machine and its reference interpretation of the Function trait. Functions mostly of up to 90 blocks (a few of 300), register files of 2 to 64 registers per class."),
 "C02": (CPU, SAMPLE + "As C01, for fastalloc; also permutes the block listing order."),
 "C03": (CPU + "; operand constraints checked at every instruction", SAMPLE + "Trusts the simulated machine's phase model (early reads, early writes, clobbers, late reads, late writes)."),
 "C04": (CPU + "; fault: every register named as clobber, and the dedicated scratch register, is destroyed at each instruction", SAMPLE + "Trusts the simulated machine."),
 "C05": (CPU + "; a one-pass consumer emits the stream and executes it on a byte-addressed frame", SAMPLE + "Trusts the simulated consumer and frame model."),
 "C06": ("deterministic simulation: a debugger stops the simulated execution at every program point and reads the labelled values", SAMPLE + "Liveness of a labelled vreg is judged by the reference liveness of the harness."),
 "C07": ("deterministic simulation of the allocator under a seeded client, with a step/wall watchdog in a supervised worker process and assertions on in half of the workers", SAMPLE + "Slack rule (when TooManyLiveRegs is admissible) is conservative, so a spurious error on functions near exhaustion goes unreported. A hang is one run that uses 60 s of processor time (or six times that on the clock)."),
 "C08": ("deterministic simulation of histories on one context, with panics injected into client callbacks at seeded points", SAMPLE + "The reference is a fresh context."),
 "C09": ("deterministic simulation of clients on parked real threads: a seeded scheduler releases one thread at each client callback; heap contents and process are varied", SAMPLE + "Interleaving granularity is the client callback; the crate has no shared mutable state, locks or atomics below it."),
 "C10": ("deterministic simulation of a faulty in-memory file under the serde/bincode/JSON round trip (short, interrupted, failing, torn, flipped, truncated)", SAMPLE + "The formats have no checksum, so damage may decode to another value; only panics, hangs, unbounded allocation and silent loss count."),
 "C11": ("deterministic simulation with fault injection into the allocator's output; the checker's verdict is compared with simulated execution of the faulty code", SAMPLE + "Reject side: only faults that the simulated execution shows to misbehave count. Accept side: unfaulted outputs of both algorithms."),
 "C12": ("deterministic simulation of the parallel-move resolver with failing scratch-register requests and a simulated register/stack file; a share of runs executes whole allocations with dense block-argument moves", SAMPLE + "Direct runs call the resolver through a guarded hook with the same three resources both allocators pass to it; if the hook cannot be built against the tree, all runs go through whole allocations."),
 "C13": ("deterministic simulation of faulty clients: one seeded mistake is injected into a valid function, and the documented error is expected", SAMPLE + "Only mistakes for which the documentation leaves one admissible set of errors are judged."),
 "C15": ("deterministic simulation with a simulated clock: the crate is built with execution counters, the heap is metered, and seeded functions of three sizes made of copies of one piece are allocated; a unit of function size must not cost several times more in the largest", SAMPLE + "Work is counted in executed code regions of the crate (library sorting, hashing and copying count only through the crate's own closures and the bytes requested). Slow-downs by less than about 1.7 (fastalloc) or 3 to 4 times (ion) over a 16-fold size, as the caps on quadratic work leave, are accepted."),
}
NA = {
 "C14": "A pure function of its input (bit packing and set algebra): no schedule, clock, I/O, fault or party on which it could depend, so simulation has nothing to decide. (The encodings are exercised on every simulated run, but that is not claimed as a check.)",
}
def hook_commits():
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    return [l.split()[0] for l in out.splitlines() if " Hook for simulation" in l]

have = [c for c in CLAIMS if c != "C11" or os.path.exists(os.path.join(root, "sim/src/chk.rs"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "cfg(regalloc2_sim)",
  "enable": "RUSTFLAGS='--cfg regalloc2_sim' (build.sh does it, for C12 only; every other check builds the crate as shipped)",
  "source_commits": hook_commits(),
 },
 "checks": [
  {
   "property": c,
   "quick_cmd": f"./check.sh {c} quick",
   "thorough_cmd": f"./check.sh {c} thorough",
   "evidence_file": f"evidence/{c}.json",
   "technique": CLAIMS[c][0],
   "level": "exploration",
   "level_note": CLAIMS[c][1],
  } for c in have
 ],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]
   + ([] if "C11" in have else [{"property": "C11", "reason": "Not yet claimed: check under construction."}]),
 "notes": "Findings are listed in known_findings.jsonl; replay a violation with ./replay.sh FILE.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
