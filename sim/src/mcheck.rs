//! Checks that run allocated code on the simulated machine (C01-C06), and the
//! totality check (C07).

use crate::alloc::*;
use crate::fw::*;
use crate::gen::*;
use crate::machine::*;
use crate::prog::*;
use crate::rng::{mix2, Rng};
use regalloc2::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct MSc {
    pub prog: Prog,
    pub env: Env,
    pub fast: bool,
    /// May instructions need every register there is?
    pub tight: bool,
    pub sched: Sched,
}

/// Which workload to emphasise.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Focus {
    None,
    Constraints,
    Clobbers,
    Slots,
    Debug,
    Pressure,
    /// Wide parallel moves.
    Moves,
}

pub fn gen_msc(r: &mut Rng, fast: bool, tight: bool, focus: Focus, thorough: bool) -> MSc {
    let lim = Limits { fastalloc: fast };
    let mut k = gen_knobs(r, lim, tight);
    match focus {
        Focus::None => {}
        Focus::Constraints => {
            k.w_fixed = r.range(1, 6);
            k.pct_dup_use = k.pct_dup_use.max(r.range(0, 40) as u32);
            k.pct_reuse = k.pct_reuse.max(r.range(0, 60) as u32);
            k.max_uses = r.range(2, 9);
            k.pct_late_use = k.pct_late_use.max(r.range(0, 30) as u32);
            k.pct_early_def = k.pct_early_def.max(r.range(0, 30) as u32);
            if r.pct(40) {
                k.w_stack = 1;
            }
            if r.pct(40) && !fast {
                k.w_limit = 2;
            }
        }
        Focus::Clobbers => {
            k.pct_clob = k.pct_clob.max(r.range(5, 50) as u32);
            k.pct_call = k.pct_call.max(r.range(0, 50) as u32);
            k.pct_far = r.range(30, 90) as u32;
        }
        Focus::Slots => {
            k.entry_defs = k.entry_defs.max(r.range(4, 30));
            k.pct_call = k.pct_call.max(r.range(0, 40) as u32);
            k.pct_params = k.pct_params.max(50);
            k.max_params = k.max_params.max(r.range(2, 12));
            k.pct_far = r.range(30, 90) as u32;
            if r.pct(60) {
                k.classes = vec![0, 1, 2];
            }
        }
        Focus::Debug => {
            k.labels = r.range(1, 20);
            k.pct_far = r.range(20, 90) as u32;
        }
        Focus::Moves => {
            k.pct_params = 90;
            k.max_params = r.range(2, 14);
            k.pct_param_shuffle = r.range(50, 100) as u32;
            k.pct_loop = r.range(30, 90) as u32;
            k.w_fixed = r.range(0, 4);
            k.pct_fixed_stack = k.pct_fixed_stack.max(r.below(60) as u32);
            k.pct_branch_ops = r.below(60) as u32;
            k.ins_per_block = r.range(1, 4);
            if r.pct(60) {
                k.classes.truncate(1);
            }
        }
        Focus::Pressure => {
            k.entry_defs = r.range(6, 60);
            k.pct_far = r.range(50, 95) as u32;
            k.max_uses = r.range(3, 10);
        }
    }
    // now and then a much larger function
    if r.permille(if thorough { 20 } else { 8 }) {
        k.nblocks = r.range(20, 90);
        k.extra_edges = r.below(k.nblocks);
        k.ins_per_block = r.range(2, 14);
        k.entry_defs = r.range(4, 70);
    } else if r.permille(if thorough { 4 } else { 1 }) {
        k.nblocks = r.range(90, 300);
        k.extra_edges = r.below(k.nblocks);
        k.ins_per_block = r.range(1, 10);
        k.entry_defs = r.range(4, 100);
        k.labels = k.labels.min(3);
    } else if r.permille(25) {
        k.nblocks = r.range(1, 3);
        k.ins_per_block = r.range(20, 120);
        k.entry_defs = r.range(4, 50);
    } else if r.permille(20) {
        k.max_params = r.range(12, 60);
        k.pct_params = 90;
    }
    let e = gen_env(r, &k.classes, if tight { 3 } else { 5 });
    let p = gen_prog(r, &k, &e);
    let sched = Sched::Seeded {
        seed: r.next(),
        walks: if p.blocks.len() > 20 { 12 } else { 8 },
        steps: (p.num_insts() as u32 * 3).clamp(120, 2000),
    };
    MSc { prog: p, env: e, fast, tight, sched }
}

pub fn msc_valid(p: &Prog, e: &Env, fast: bool, tight: bool) -> bool {
    prog_valid(p, e, Limits { fastalloc: fast }, tight).is_ok()
}

pub fn prog_hash(p: &Prog, e: &Env) -> u64 {
    use std::hash::{Hash, Hasher};
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut x = [0; 8];
                x[..c.len()].copy_from_slice(c);
                self.0 = mix2(self.0, u64::from_le_bytes(x));
            }
        }
    }
    let mut h = H(1);
    p.hash(&mut h);
    e.hash(&mut h);
    h.finish()
}

pub fn out_hash(o: &Output) -> u64 {
    let mut h = mix2(7, o.num_spillslots as u64);
    for (p, Edit::Move { from, to }) in &o.edits {
        h = mix2(h, ((p.to_index() as u64) << 1) ^ ((from.bits() as u64) << 32));
        h = mix2(h, to.bits() as u64);
    }
    for a in &o.allocs {
        h = mix2(h, a.bits() as u64);
    }
    for a in &o.inst_alloc_offsets {
        h = mix2(h, *a as u64);
    }
    for (l, a, b, x) in &o.debug_locations {
        h = mix2(h, ((*l as u64) << 32) | x.bits() as u64);
        h = mix2(h, ((a.to_index() as u64) << 32) | b.to_index() as u64);
    }
    h
}

pub fn work_counts(p: &Prog, out: &Output, cov: &mut Cov) {
    cov.add("work.instructions", p.num_insts() as u64);
    cov.add("work.blocks", p.blocks.len() as u64);
    let s = &out.stats;
    cov.add("probe.ion_splits", s.splits as u64);
    cov.add("probe.ion_spill_bundles", s.spill_bundle_count as u64);
    cov.add("probe.ion_evictions", s.evict_bundle_count as u64);
    cov.add("probe.ion_merged_bundles", s.merged_bundle_count as u64);
    cov.add("probe.functions_with_edits", (!out.edits.is_empty()) as u64);
    cov.add("probe.functions_with_spillslots", (out.num_spillslots > 0) as u64);
}

pub fn exec_stats(st: &ExecStats, cov: &mut Cov) {
    cov.steps += st.steps;
    cov.add("work.executions", st.walks);
    cov.add("work.moves_executed", st.moves);
    cov.add("work.instructions_executed", st.insts);
    cov.add("work.spill_stores", st.stores);
    cov.add("work.spill_loads", st.loads);
    cov.add("work.edges", st.edges_total);
    cov.add("work.edges_executed", st.edges_taken);
    cov.add("fault.clobber_poison", st.clob_poison);
    cov.add("fault.clobber_destroyed_live_value", st.clob_hit_live);
    cov.add("fault.scratch_poison", st.scratch_poison);
    cov.add("fault.uninitialised_poison", st.init_poison);
    cov.add("fault.debugger_stops", st.dbg_obs);
    cov.add("probe.debug_points_required", st.dbg_cover);
    cov.ev(st.trace_hash);
    cov.ev(st.insts);
    cov.ev(st.moves);
}

/// Allocate and run. `Err` carries the violation and, through `taken`, the
/// schedule that exposed it.
pub fn exec_machine(
    sc: &MSc,
    want: &dyn Fn(Kind) -> bool,
    cov: &mut Cov,
    taken: &mut Vec<u16>,
) -> Result<(), Fail> {
    let f = sc.prog.lower();
    let env = sc.env.lower();
    let h = prog_hash(&sc.prog, &sc.env);
    cov.ev(h);
    match run_fresh(&f, &env, &opts(sc.fast, false, false)) {
        Res::Panic(m) => fail("panic", format!("allocator panicked: {m}")),
        Res::Err(e) => {
            cov.hit("work.refused");
            cov.ev(match e {
                RegAllocError::TooManyLiveRegs => 1,
                _ => 2,
            });
            Ok(())
        }
        Res::Ok(out) => {
            work_counts(&sc.prog, &out, cov);
            cov.ev(out_hash(&out));
            let mut m = Machine::new(&sc.prog, &f, &sc.env, &out, want);
            m.loose_dbg = sc.fast;
            if m.load() {
                m.run(&sc.sched);
            }
            exec_stats(&m.stats, cov);
            cov.states.push(mix2(h, m.stats.trace_hash));
            cov.nontrivial = m.stats.moves > 0 || m.stats.clob_hit_live > 0;
            if sc.fast {
                cov.hit("work.fastalloc_runs");
            } else {
                cov.hit("work.ion_runs");
            }
            *taken = m.taken.clone();
            match m.viols.first() {
                None => Ok(()),
                Some(v) => fail(v.class, v.msg.clone()),
            }
        }
    }
}

pub fn shrink_msc(
    sc: &MSc,
    bad: &mut dyn FnMut(&MSc) -> bool,
    want: &dyn Fn(Kind) -> bool,
) -> MSc {
    let base = sc.clone();
    let valid = |p: &Prog, e: &Env| msc_valid(p, e, base.fast, base.tight);
    let (p, e, _) = crate::shrink::shrink(
        &sc.prog,
        &sc.env,
        &valid,
        &mut |p, e| {
            bad(&MSc {
                prog: p.clone(),
                env: e.clone(),
                ..base.clone()
            })
        },
        30_000,
    );
    let small = MSc { prog: p, env: e, ..base.clone() };
    // make the schedule explicit
    let mut taken = vec![];
    let _ = exec_machine(&small, want, &mut Cov::default(), &mut taken);
    let scripted = MSc {
        sched: Sched::Script(taken),
        ..small.clone()
    };
    if bad(&scripted) {
        scripted
    } else {
        small
    }
}

pub fn show_msc(sc: &MSc) -> Vec<String> {
    let mut v = vec![format!(
        "algorithm {}, schedule {:?}",
        if sc.fast { "fastalloc" } else { "ion" },
        sc.sched
    )];
    v.extend(crate::shrink::show(&sc.prog, &sc.env));
    v
}

pub const REAL: &[&str] = &["the allocator (Ion and/or fastalloc) with all its passes", "move resolution", "the output iterator"];
pub const STUB: &[&str] = &["the client (generated functions behind the Function trait)", "the target machine executing the allocated code", "branch outcomes (seeded schedule)"];
pub const ASSUME: &[&str] = &[
    "functions obey the documented rules for clients; constraint combinations the documentation calls user errors or unsupported are not generated",
    "a fixed number of seeded runs samples programs, environments and schedules; absence of a violation is evidence, not proof",
    "functions of up to some 1000 instructions, 64 registers per class",
];

macro_rules! machine_check {
    ($t:ident, $id:literal, $want:expr, $gen:expr, $rule:literal, $q:literal, $th:literal) => {
        pub struct $t;
        impl Check for $t {
            type Sc = MSc;
            const META: Meta = Meta {
                id: $id,
                rule: $rule,
                state_measure: "distinct (function, environment, sequence of control-flow edges executed) triples, by hash",
                real: REAL,
                stub: STUB,
                assumptions: ASSUME,
                quick_runs: $q,
                thorough_runs: $th,
                checked_too: false,
                divergence_is_violation: false,
            };
            fn gen(r: &mut Rng, idx: u64, thorough: bool) -> MSc {
                let g: fn(&mut Rng, u64, bool) -> MSc = $gen;
                g(r, idx, thorough)
            }
            fn exec(sc: &MSc, cov: &mut Cov) -> Result<(), Fail> {
                exec_machine(sc, &$want, cov, &mut vec![])
            }
            fn shrink(sc: &MSc, bad: &mut dyn FnMut(&MSc) -> bool) -> MSc {
                shrink_msc(sc, bad, &$want)
            }
            fn show(sc: &MSc) -> Vec<String> {
                show_msc(sc)
            }
        }
    };
}

machine_check!(C01, "C01", |k: Kind| k == Kind::Value,
    |r, _, th| { let tight = r.pct(25); let f = *r.pick(&[Focus::None, Focus::None, Focus::None, Focus::Slots, Focus::Clobbers, Focus::Constraints, Focus::Pressure]); gen_msc(r, false, tight, f, th) },
    "one run: a seeded function and environment, allocated by Ion, executed under 8-12 seeded branch schedules with poisoned clobbers, scratch and uninitialised storage; non-trivial: a move was executed or a clobber destroyed a live value; distinct: by hash of function, output and executed edges",
    1_000_000, 60_000_000);
machine_check!(C02, "C02", |k: Kind| k == Kind::Value,
    |r, _, th| { let tight = r.pct(25); let f = *r.pick(&[Focus::None, Focus::None, Focus::None, Focus::Slots, Focus::Clobbers, Focus::Constraints, Focus::Pressure]); gen_msc(r, true, tight, f, th) },
    "one run: a seeded function and environment, allocated by fastalloc, executed under 8-12 seeded branch schedules with poisoned clobbers, scratch and uninitialised storage; non-trivial: a move was executed or a clobber destroyed a live value; distinct: by hash of function, output and executed edges",
    1_400_000, 60_000_000);
machine_check!(C03, "C03", |k: Kind| k == Kind::Constraint,
    |r, _, th| { let fast = r.pct(45); let tight = r.pct(35); gen_msc(r, fast, tight, Focus::Constraints, th) },
    "one run: a seeded constraint-heavy function, allocated by one of the algorithms and executed; every operand's location is checked against its constraint, every input re-read around early and late writes; non-trivial: a move was executed or a clobber destroyed a live value",
    1_100_000, 60_000_000);
machine_check!(C04, "C04", |k: Kind| k == Kind::Resource,
    |r, _, th| { let fast = r.pct(45); let tight = r.pct(30); gen_msc(r, fast, tight, Focus::Clobbers, th) },
    "one run: a seeded clobber-heavy function on an irregular register file, allocated by one of the algorithms; every register named is checked against the environment and clobbered/scratch registers are overwritten with identifiable poison while executing; non-trivial: a move was executed or a clobber destroyed a live value",
    1_000_000, 60_000_000);
machine_check!(C05, "C05", |k: Kind| k == Kind::Stream,
    |r, _, th| { let fast = r.pct(45); let tight = r.pct(20); gen_msc(r, fast, tight, Focus::Slots, th) },
    "one run: a seeded spill-heavy function with multi-slot classes, allocated by one of the algorithms; the output is loaded like a code emitter would and executed, with spill slots modelled word by word; non-trivial: a move was executed or a clobber destroyed a live value",
    900_000, 60_000_000);
machine_check!(C06, "C06", |k: Kind| k == Kind::Debug,
    |r, _, th| { let fast = r.pct(35); let tight = r.pct(15); gen_msc(r, fast, tight, Focus::Debug, th) },
    "one run: a seeded function with debug labels, allocated by one of the algorithms and executed with a debugger stop at every program point; every location reported there is compared with the reference machine's value; non-trivial: a move was executed or a clobber destroyed a live value",
    1_000_000, 60_000_000);

// ---------------------------------------------------------------------------

thread_local! {
    static TICKS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Counts client callbacks and aborts a run that makes implausibly many.
#[derive(Clone)]
pub struct Budget(pub u64);
impl Gate for Budget {
    fn tick(&self, _: Cb, _: usize) {
        TICKS.with(|t| {
            let n = t.get() + 1;
            t.set(n);
            if n > self.0 {
                panic!("livelock: more than {} client callbacks", self.0);
            }
        })
    }
}

/// Register demand so small that no correct allocator may refuse.
pub struct C07;
impl Check for C07 {
    type Sc = MSc;
    const META: Meta = Meta {
        id: "C07",
        rule: "one run: a seeded function under register starvation (every third: instructions may need exactly as many registers as there are; otherwise each leaves registers to spare), allocated with SSA validation, in builds without and with the crate's assertions; work is bounded in client callbacks; non-trivial: spilled, split, evicted or refused",
        state_measure: "distinct (function, environment) pairs, by hash",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
        quick_runs: 900_000,
        thorough_runs: 40_000_000,
        checked_too: true,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, _idx: u64, thorough: bool) -> MSc {
        let fast = r.pct(45);
        let tight = r.pct(35);
        let f = *r.pick(&[Focus::None, Focus::Pressure, Focus::Pressure, Focus::Constraints, Focus::Slots, Focus::Debug]);
        gen_msc(r, fast, tight, f, thorough)
    }
    fn exec(sc: &MSc, cov: &mut Cov) -> Result<(), Fail> {
        let size = sc.prog.num_insts()
            + sc.prog.vclass.len()
            + sc.prog
                .blocks
                .iter()
                .map(|b| {
                    b.ins.iter().map(|i| i.ops.len()).sum::<usize>()
                        + b.succs.iter().map(|s| s.1.len() + 1).sum::<usize>()
                })
                .sum::<usize>();
        let budget = 100_000 + 2_000 * size as u64;
        TICKS.with(|t| t.set(0));
        let f = sc.prog.lower_with(Budget(budget));
        let h = prog_hash(&sc.prog, &sc.env);
        cov.ev(h);
        cov.states.push(h);
        let res = run_fresh(&f, &sc.env.lower(), &opts(sc.fast, false, true));
        let ticks = TICKS.with(|t| t.get());
        cov.steps += ticks;
        cov.ev(ticks);
        cov.hit(if sc.tight { "fault.register_starvation_exact" } else { "fault.register_pressure_with_margin" });
        cov.hit(if cfg!(debug_assertions) { "work.runs_with_assertions" } else { "work.runs_without_assertions" });
        cov.hit(if sc.fast { "work.fastalloc_runs" } else { "work.ion_runs" });
        match res {
            Res::Panic(m) if m.starts_with("livelock") => fail("livelock", m),
            Res::Panic(m) => fail("panic", format!("allocator panicked: {m}")),
            Res::Err(RegAllocError::TooManyLiveRegs)
                if sc.tight && !msc_valid(&sc.prog, &sc.env, sc.fast, false) =>
            {
                cov.hit("probe.too_many_live_regs");
                cov.nontrivial = true;
                Ok(())
            }
            Res::Err(e) => fail(
                "refused",
                format!("allocation of a valid function failed with {e:?}"),
            ),
            Res::Ok(out) => {
                work_counts(&sc.prog, &out, cov);
                cov.ev(out_hash(&out));
                cov.nontrivial = out.num_spillslots > 0 || out.stats.splits > 0 || out.stats.evict_bundle_count > 0;
                Ok(())
            }
        }
    }
    fn shrink(sc: &MSc, bad: &mut dyn FnMut(&MSc) -> bool) -> MSc {
        shrink_msc(sc, bad, &|_| false)
    }
    fn show(sc: &MSc) -> Vec<String> {
        show_msc(sc)
    }
}
