//! Checks over histories of calls: ill-formed functions (C13), reused
//! contexts (C08), interleaved clients (C09).

use crate::alloc::*;
use crate::fw::*;
use crate::gen::*;
use crate::mcheck::*;
use crate::mistake::*;
use crate::prog::*;
use crate::rng::{mix2, Rng};
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

/// A function and what it is to be allocated for.
#[derive(Clone, Serialize, Deserialize)]
pub struct Unit {
    pub prog: Prog,
    pub env: Env,
    /// Restricted to what fastalloc takes?
    pub fast_ok: bool,
    pub tight: bool,
}

pub fn gen_unit(r: &mut Rng, fast_ok: bool, tight: bool, small: bool) -> Unit {
    let lim = Limits { fastalloc: fast_ok };
    let mut k = gen_knobs(r, lim, tight);
    if small {
        k.nblocks = k.nblocks.min(r.range(1, 8));
        k.ins_per_block = k.ins_per_block.min(8);
    }
    if r.pct(25) {
        k.labels = r.range(1, 8);
    }
    if r.pct(40) {
        k.pct_far = r.range(30, 90) as u32;
        k.entry_defs = k.entry_defs.max(r.range(3, 20));
    }
    let e = gen_env(r, &k.classes, if tight { 3 } else { 5 });
    let p = gen_prog(r, &k, &e);
    Unit { prog: p, env: e, fast_ok, tight }
}

pub fn unit_valid(u: &Unit) -> bool {
    msc_valid(&u.prog, &u.env, u.fast_ok, u.tight)
}

pub fn shrink_unit(u: &Unit, bad: &mut dyn FnMut(&Unit) -> bool, budget: usize) -> Unit {
    let base = u.clone();
    let (p, e, _) = crate::shrink::shrink(
        &u.prog,
        &u.env,
        &|p, e| msc_valid(p, e, base.fast_ok, base.tight),
        &mut |p, e| {
            bad(&Unit {
                prog: p.clone(),
                env: e.clone(),
                ..base.clone()
            })
        },
        budget,
    );
    Unit { prog: p, env: e, ..base }
}

/// First difference between two outputs.
pub fn diff_out(a: &Output, b: &Output) -> Option<String> {
    if a.num_spillslots != b.num_spillslots {
        return Some(format!("frame size {} vs {}", a.num_spillslots, b.num_spillslots));
    }
    if a.inst_alloc_offsets != b.inst_alloc_offsets {
        return Some("different allocation offsets".into());
    }
    if a.allocs != b.allocs {
        let i = a.allocs.iter().zip(&b.allocs).position(|(x, y)| x != y);
        return Some(match i {
            Some(i) => format!("allocation {i}: {} vs {}", a.allocs[i], b.allocs[i]),
            None => format!("{} vs {} allocations", a.allocs.len(), b.allocs.len()),
        });
    }
    let ea: Vec<String> = a.edits.iter().map(|x| format!("{x:?}")).collect();
    let eb: Vec<String> = b.edits.iter().map(|x| format!("{x:?}")).collect();
    if ea != eb {
        let i = ea.iter().zip(&eb).position(|(x, y)| x != y);
        return Some(match i {
            Some(i) => format!("edit {i}: {} vs {}", ea[i], eb[i]),
            None => format!("{} vs {} edits", ea.len(), eb.len()),
        });
    }
    if a.debug_locations != b.debug_locations {
        return Some(format!(
            "debug locations {:?} vs {:?}",
            a.debug_locations, b.debug_locations
        ));
    }
    let (sa, sb) = (format!("{:?}", a.stats), format!("{:?}", b.stats));
    if sa != sb {
        return Some(format!("statistics {sa} vs {sb}"));
    }
    None
}

pub fn diff_res(a: &Res, b: &Res) -> Option<String> {
    match (a, b) {
        (Res::Ok(x), Res::Ok(y)) => diff_out(x, y),
        (Res::Err(x), Res::Err(y)) if format!("{x:?}") == format!("{y:?}") => None,
        (Res::Panic(x), Res::Panic(y)) if x == y => None,
        (x, y) => Some(format!("{} vs {}", res_name(x), res_name(y))),
    }
}

pub fn res_name(r: &Res) -> String {
    match r {
        Res::Ok(_) => "success".into(),
        Res::Err(e) => format!("error {e:?}"),
        Res::Panic(m) => format!("panic ({m})"),
    }
}

pub fn res_hash(r: &Res) -> u64 {
    match r {
        Res::Ok(o) => mix2(out_hash(o), stats_hash(o)),
        Res::Err(e) => format!("{e:?}").bytes().fold(3, |h, b| mix2(h, b as u64)),
        Res::Panic(m) => m.bytes().fold(5, |h, b| mix2(h, b as u64)),
    }
}

fn stats_hash(o: &Output) -> u64 {
    format!("{:?}", o.stats).bytes().fold(9, |h, b| mix2(h, b as u64))
}

// ------------------------------------------------------------------- C13

#[derive(Clone, Serialize, Deserialize)]
pub struct XSc {
    pub unit: Unit,
    /// None: the function is handed over as it is.
    pub mistake: Option<(MKind, u64)>,
    pub fast: bool,
    pub reused: bool,
}

pub struct C13;
impl Check for C13 {
    type Sc = XSc;
    const META: Meta = Meta {
        id: "C13",
        rule: "one run: a seeded valid function, handed over with one seeded client mistake (or, one time in eight, none) to one of the algorithms with validation on and a fresh or previously used context; the answer has to be the error documented for the mistake; non-trivial: a mistake was injected; distinct: by hash of function, mistake and answer",
        state_measure: "distinct (function, mistake kind and place, algorithm, fresh/reused) combinations, by hash",
        real: &["SSA validation", "CFG analysis (postorder, dominator tree, critical edges)", "both allocators behind them"],
        stub: &["the client (generated functions with an injected mistake)"],
        assumptions: &[
            "exactly one mistake per function",
            "where two documented errors describe the same mistake (an undefined branch argument is both an illegal use and live into the entry), either is accepted",
        ],
        quick_runs: 1_500_000,
        thorough_runs: 80_000_000,
        checked_too: true,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, _: u64, _: bool) -> XSc {
        let fast = r.pct(50);
        let small = r.pct(70);
        let unit = gen_unit(r, fast, false, small);
        let mistake = if r.permille(125) {
            None
        } else if r.permille(2) {
            Some((MKind::TooManyOperands, r.next()))
        } else {
            Some((*r.pick(ALL), r.next()))
        };
        XSc { unit, mistake, fast, reused: r.pct(30) }
    }
    fn exec(sc: &XSc, cov: &mut Cov) -> Result<(), Fail> {
        let env = sc.unit.env.lower();
        let o = opts(sc.fast, false, true);
        let h = prog_hash(&sc.unit.prog, &sc.unit.env);
        cov.ev(h);
        let good = sc.unit.prog.lower_with(Counting);
        TICKS.with(|t| t.set(0));
        let mut ctx = Ctx::default();
        if sc.reused {
            let _ = run_ctx(&good, &env, &o, &mut ctx);
        }
        let go = |f: &SimFunc<Counting>, ctx: &mut Ctx| {
            if sc.reused {
                run_ctx(f, &env, &o, ctx)
            } else {
                run_fresh(f, &env, &o)
            }
        };
        cov.hit(if sc.fast { "work.fastalloc_runs" } else { "work.ion_runs" });
        let res = match sc.mistake {
            None => {
                let r = go(&good, &mut ctx);
                cov.hit("work.valid_functions");
                cov.ev(res_hash(&r));
                match r {
                    Res::Ok(_) => Ok(()),
                    r => fail("rejected", format!("a valid function is answered with {}", res_name(&r))),
                }
            }
            Some((kind, seed)) => match inject(&sc.unit.prog, kind, seed) {
                None => {
                    cov.hit("work.mistake_not_applicable");
                    Ok(())
                }
                Some(b) => {
                    let f = b.lower(Counting);
                    let r = go(&f, &mut ctx);
                    cov.hit(fault_name(kind));
                    cov.nontrivial = true;
                    cov.states.push(mix2(mix2(h, seed), kind as u64 * 4 + sc.fast as u64 * 2 + sc.reused as u64));
                    cov.ev(res_hash(&r));
                    match &r {
                        Res::Err(e) if b.expect.iter().any(|x| x.matches(e)) => Ok(()),
                        // The limit is Ion's.
                        Res::Ok(_) if kind == MKind::TooManyOperands && sc.fast => Ok(()),
                        Res::Err(e) => fail("wrong-error", format!("{}: answered with {e:?}, expected one of {:?}", b.what, b.expect)),
                        Res::Ok(_) => fail("accepted", format!("{}: no error, expected one of {:?}", b.what, b.expect)),
                        Res::Panic(m) => fail("panic", format!("{}: panic ({m}), expected one of {:?}", b.what, b.expect)),
                    }
                }
            },
        };
        cov.steps += TICKS.with(|t| t.get());
        res
    }
    fn shrink(sc: &XSc, bad: &mut dyn FnMut(&XSc) -> bool) -> XSc {
        let mut cur = sc.clone();
        if cur.reused {
            let x = XSc { reused: false, ..cur.clone() };
            if bad(&x) {
                cur = x;
            }
        }
        let base = cur.clone();
        let unit = shrink_unit(&cur.unit, &mut |u| bad(&XSc { unit: u.clone(), ..base.clone() }), 20_000);
        XSc { unit, ..base }
    }
    fn show(sc: &XSc) -> Vec<String> {
        let mut v = vec![format!(
            "{}, {} context",
            if sc.fast { "fastalloc" } else { "ion" },
            if sc.reused { "reused" } else { "fresh" }
        )];
        if let Some((k, s)) = sc.mistake {
            v.push(match inject(&sc.unit.prog, k, s) {
                Some(b) => format!("mistake {k:?}: {} (in the function below, which is valid)", b.what),
                None => format!("mistake {k:?} not applicable"),
            });
        }
        v.extend(crate::shrink::show(&sc.unit.prog, &sc.unit.env));
        v
    }
}

fn fault_name(k: MKind) -> &'static str {
    match k {
        MKind::UseUndominated => "fault.use_undominated",
        MKind::ArgUndominated => "fault.arg_undominated",
        MKind::UseUndefined => "fault.use_undefined",
        MKind::ArgUndefined => "fault.arg_undefined",
        MKind::UseMisnumbered => "fault.use_misnumbered",
        MKind::ArgMisnumbered => "fault.arg_misnumbered",
        MKind::DefMisnumbered => "fault.def_misnumbered",
        MKind::ParamMisnumbered => "fault.param_misnumbered",
        MKind::SecondDef => "fault.second_def",
        MKind::SecondDefSameInst => "fault.second_def_same_inst",
        MKind::ParamAndDef => "fault.param_and_def",
        MKind::NoTerminator => "fault.no_terminator",
        MKind::BranchInMiddle => "fault.branch_in_middle",
        MKind::RetInMiddle => "fault.ret_in_middle",
        MKind::ArgMissing => "fault.arg_missing",
        MKind::ArgExtra => "fault.arg_extra",
        MKind::CritEdge => "fault.critical_edge",
        MKind::BranchOperand => "fault.branch_operand",
        MKind::EntryParam => "fault.entry_param",
        MKind::TooManyOperands => "fault.too_many_operands",
    }
}

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static PANIC_AT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}

/// Counts callbacks; panics at a chosen one.
#[derive(Clone)]
pub struct Counting;
impl Gate for Counting {
    fn tick(&self, _: Cb, _: usize) {
        let n = TICKS.with(|t| {
            t.set(t.get() + 1);
            t.get()
        });
        if n == PANIC_AT.with(|p| p.get()) {
            PANIC_AT.with(|p| p.set(u64::MAX));
            panic!("injected client panic");
        }
    }
}

fn arm(at: Option<u64>) {
    PANIC_AT.with(|p| p.set(at.map_or(u64::MAX, |a| ticks() + a)));
}

// ------------------------------------------------------------------- C08

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum HFault {
    None,
    /// The client panics in its n-th callback, n being this many millionths
    /// of the number of callbacks an undisturbed run makes.
    Panic(u32),
    Mistake(MKind, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HStep {
    pub unit: usize,
    /// Use the environment of this unit, if that does not contradict the
    /// function.
    pub fast: bool,
    pub validate: bool,
    pub verbose: bool,
    pub fault: HFault,
    /// Afterwards the client takes the output out of the context.
    pub take: bool,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct HSc {
    pub units: Vec<Unit>,
    pub steps: Vec<HStep>,
}

pub struct C08;
impl Check for C08 {
    type Sc = HSc;
    const META: Meta = Meta {
        id: "C08",
        rule: "one run: a history of 3-9 allocations on one context - functions, algorithms, environments and options changing - with refused functions, client panics at seeded callbacks and outputs taken away in between; every undisturbed allocation is compared field by field, statistics included, with one on a fresh context; non-trivial: a context that had seen a fault, a different function or the other algorithm was used again",
        state_measure: "distinct (history so far, function) pairs at which a reused context was compared with a fresh one, by hash",
        real: &["Ctx and everything in it", "both allocators with all their passes", "SSA validation"],
        stub: &["the clients (generated functions; callbacks that panic on schedule)"],
        assumptions: &["histories of up to 9 allocations", "a client panic unwinds (panic=unwind)"],
        quick_runs: 160_000,
        thorough_runs: 20_000_000,
        checked_too: true,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, _: u64, _: bool) -> HSc {
        let nu = r.range(1, 4);
        let small = r.pct(60);
        let units: Vec<Unit> = (0..nu)
            .map(|_| {
                let fast_ok = r.pct(50);
                let tight = r.pct(45);
                let mut u = gen_unit(r, fast_ok, tight, small);
                if r.pct(6) {
                    // much bigger than the others
                    let lim = Limits { fastalloc: fast_ok };
                    let mut k = gen_knobs(r, lim, tight);
                    k.nblocks = r.range(10, 40);
                    k.entry_defs = r.range(4, 40);
                    let e = gen_env(r, &k.classes, if tight { 3 } else { 5 });
                    u = Unit { prog: gen_prog(r, &k, &e), env: e, fast_ok, tight };
                }
                u
            })
            .collect();
        let n = r.range(3, 9);
        let p_fault = *r.pick(&[0, 20, 45, 70]);
        let steps = (0..n)
            .map(|i| {
                let unit = r.below(nu);
                let fault = if i + 1 < n && r.pct(p_fault) {
                    if r.pct(60) {
                        HFault::Panic(r.below(1_000_000) as u32)
                    } else {
                        HFault::Mistake(*r.pick(ALL), r.next())
                    }
                } else {
                    HFault::None
                };
                HStep {
                    unit,
                    fast: units[unit].fast_ok && r.pct(40),
                    validate: r.pct(40),
                    verbose: r.pct(10),
                    fault,
                    take: r.pct(20),
                }
            })
            .collect();
        HSc { units, steps }
    }
    fn exec(sc: &HSc, cov: &mut Cov) -> Result<(), Fail> {
        let mut ctx = Ctx::default();
        let mut hist = 1u64;
        let mut dirty = false;
        let t0 = ticks();
        for (n, s) in sc.steps.iter().enumerate() {
            let u = &sc.units[s.unit];
            let env = u.env.lower();
            let o = opts(s.fast, s.verbose, s.validate);
            let h = prog_hash(&u.prog, &u.env);
            hist = mix2(hist, mix2(h, s.fast as u64 * 2 + s.take as u64));
            let broken = match s.fault {
                HFault::Mistake(k, seed) => inject(&u.prog, k, seed),
                _ => None,
            };
            let f = match &broken {
                Some(b) => b.lower(Counting),
                None => u.prog.lower_with(Counting),
            };
            // An ill-formed function need not be refused (or survived)
            // without validation.
            let o = if broken.is_some() { opts(s.fast, s.verbose, true) } else { o };
            arm(None);
            let a = ticks();
            let fresh = run_fresh(&f, &env, &o);
            let len = ticks() - a;
            if let HFault::Panic(m) = s.fault {
                arm(Some(1 + (len.saturating_sub(1)) * m as u64 / 1_000_000));
            }
            let got = run_ctx(&f, &env, &o, &mut ctx);
            arm(None);
            let struck = matches!(&got, Res::Panic(m) if m.starts_with("injected"));
            cov.ev(res_hash(&got));
            if s.fast {
                cov.hit("work.fastalloc_steps");
            } else {
                cov.hit("work.ion_steps");
            }
            if struck {
                cov.hit("fault.client_panic");
            } else {
                cov.states.push(hist);
                if dirty {
                    cov.nontrivial = true;
                    cov.hit("probe.compared_after_fault_or_switch");
                }
                if let Some(d) = diff_res(&fresh, &got) {
                    return fail("differs", format!("step {n}: fresh context vs reused context: {d}"));
                }
                match &got {
                    Res::Err(RegAllocError::TooManyLiveRegs) => cov.hit("fault.too_many_live_regs"),
                    Res::Err(_) => cov.hit("fault.refused_function"),
                    Res::Ok(_) => cov.hit("probe.successful_steps"),
                    Res::Panic(_) => cov.hit("probe.allocator_panics_alike"),
                }
                if let (Res::Ok(x), true) = (&got, s.take) {
                    let taken = std::mem::take(&mut ctx.output);
                    cov.hit("fault.output_taken");
                    if let Some(d) = diff_out(x, &taken) {
                        return fail("differs", format!("step {n}: returned output vs output taken from the context: {d}"));
                    }
                }
            }
            dirty |= struck || !matches!(got, Res::Ok(_)) || sc.steps.get(n + 1).map_or(false, |t| t.unit != s.unit || t.fast != s.fast);
            hist = mix2(hist, struck as u64);
        }
        cov.steps += ticks() - t0;
        Ok(())
    }
    fn shrink(sc: &HSc, bad: &mut dyn FnMut(&HSc) -> bool) -> HSc {
        let mut cur = sc.clone();
        let mut i = 0;
        while i < cur.steps.len() {
            let mut x = cur.clone();
            x.steps.remove(i);
            if !x.steps.is_empty() && bad(&x) {
                cur = x;
            } else {
                i += 1;
            }
        }
        for i in 0..cur.steps.len() {
            for k in 0..4 {
                let mut x = cur.clone();
                let s = &mut x.steps[i];
                match k {
                    0 => s.take = false,
                    1 => s.verbose = false,
                    2 => s.validate = false,
                    _ => s.fault = HFault::None,
                }
                if bad(&x) {
                    cur = x;
                }
            }
        }
        for n in 0..cur.units.len() {
            if !cur.steps.iter().any(|s| s.unit == n) {
                cur.units[n] = Unit {
                    prog: Prog { slot_size: [1; 3], ..Prog::default() },
                    env: Env::default(),
                    ..cur.units[n].clone()
                };
                continue;
            }
            let base = cur.clone();
            let u = shrink_unit(
                &cur.units[n],
                &mut |u| {
                    let mut x = base.clone();
                    x.units[n] = u.clone();
                    bad(&x)
                },
                4_000,
            );
            cur.units[n] = u;
        }
        cur
    }
    fn show(sc: &HSc) -> Vec<String> {
        let mut v = vec![];
        for (n, s) in sc.steps.iter().enumerate() {
            v.push(format!("step {n}: {s:?}"));
        }
        for (n, u) in sc.units.iter().enumerate() {
            if sc.steps.iter().any(|s| s.unit == n) {
                v.push(format!("unit {n}:"));
                v.extend(crate::shrink::show(&u.prog, &u.env));
            }
        }
        v
    }
}

// ------------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub unit: usize,
    pub fast: bool,
    pub validate: bool,
    pub verbose: bool,
    /// Which of the shared contexts to take, if any.
    pub ctx: Option<usize>,
    /// In this callback (by number), allocate another unit on the same
    /// thread before answering.
    pub nested: Option<(u32, usize, bool)>,
    /// Allocate and free this many blocks first, to move the heap around.
    pub heap: u32,
}

#[derive(Clone, Serialize, Deserialize)]
pub enum Switch {
    /// Switch at a callback with probability 1/den.
    Seeded { seed: u64, den: u32 },
    /// (callback number, thread to continue with)
    Script(Vec<(u64, u8)>),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct TSc {
    pub units: Vec<Unit>,
    /// Jobs of each thread.
    pub threads: Vec<Vec<Job>>,
    pub nctx: usize,
    pub switch: Switch,
    pub poison: u8,
}

struct Sim {
    st: Mutex<SimState>,
    cv: Condvar,
}

struct SimState {
    turn: usize,
    alive: Vec<bool>,
    rng: Option<(Rng, u32)>,
    script: std::collections::VecDeque<(u64, u8)>,
    ticks: u64,
    taken: Vec<(u64, u8)>,
    log: u64,
}

impl Sim {
    fn new(n: usize, sw: &Switch) -> Sim {
        let (rng, script) = match sw {
            Switch::Seeded { seed, den } => (Some((Rng::new(*seed), *den)), Default::default()),
            Switch::Script(s) => (None, s.iter().copied().collect()),
        };
        Sim {
            st: Mutex::new(SimState {
                turn: 0,
                alive: vec![true; n],
                rng,
                script,
                ticks: 0,
                taken: vec![],
                log: 1,
            }),
            cv: Condvar::new(),
        }
    }
    fn wait<'a>(&self, mut g: std::sync::MutexGuard<'a, SimState>, me: usize) {
        while g.turn != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn start(&self, me: usize) {
        self.wait(self.st.lock().unwrap(), me);
    }
    fn tick(&self, me: usize, cb: u64) {
        let mut g = self.st.lock().unwrap();
        g.ticks += 1;
        g.log = mix2(g.log, cb * 16 + me as u64);
        let now = g.ticks;
        let mut next = me;
        if let Some((r, den)) = &mut g.rng {
            if r.below(*den as usize) == 0 {
                let k = r.next();
                let live: Vec<usize> = (0..g.alive.len()).filter(|&t| g.alive[t]).collect();
                next = live[k as usize % live.len()];
            }
        } else if let Some(&(t, n)) = g.script.front() {
            if t == now {
                g.script.pop_front();
                if g.alive.get(n as usize) == Some(&true) {
                    next = n as usize;
                }
            }
        }
        if next != me {
            g.taken.push((now, next as u8));
            g.turn = next;
            self.cv.notify_all();
            self.wait(g, me);
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.alive[me] = false;
        if let Some(n) = (0..g.alive.len()).find(|&t| g.alive[t]) {
            g.turn = n;
            self.cv.notify_all();
        }
    }
}

thread_local! {
    static NEST: std::cell::RefCell<Option<Nest>> = const { std::cell::RefCell::new(None) };
}

struct Nest {
    at: u64,
    unit: Unit,
    fast: bool,
    result: Option<Res>,
}

/// Parks the thread whenever the scheduler says so; starts nested runs.
#[derive(Clone)]
struct Interleave {
    sim: Arc<Sim>,
    me: usize,
    outer: bool,
    count: Cell<u64>,
}

impl Gate for Interleave {
    fn tick(&self, cb: Cb, arg: usize) {
        self.sim.tick(self.me, ((cb as u64) << 32) | arg as u64);
        if !self.outer {
            return;
        }
        self.count.set(self.count.get() + 1);
        let n = self.count.get();
        let todo = NEST.with(|x| {
            x.borrow()
                .as_ref()
                .filter(|x| x.at == n)
                .map(|x| (x.unit.clone(), x.fast))
        });
        if let Some((u, fast)) = todo {
            let f = u.prog.lower_with(Interleave {
                outer: false,
                count: Cell::new(0),
                ..self.clone()
            });
            let r = run_fresh(&f, &u.env.lower(), &opts(fast, false, false));
            NEST.with(|x| x.borrow_mut().as_mut().unwrap().result = Some(r));
        }
    }
}

fn run_threads(sc: &TSc, base: &[[Option<Res>; 2]], sim: &Arc<Sim>) -> Vec<(Vec<Fail>, BTreeCount)> {
    let pool: Arc<Mutex<Vec<Option<(Ctx, usize)>>>> =
        Arc::new(Mutex::new((0..sc.nctx).map(|_| Some((Ctx::default(), usize::MAX))).collect()));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..sc.threads.len())
            .map(|me| {
                let sim = sim.clone();
                let pool = pool.clone();
                std::thread::Builder::new()
                    .stack_size(512 << 10)
                    .spawn_scoped(s, move || {
                        sim.start(me);
                        let mut fails = vec![];
                        let mut n = BTreeCount::default();
                        for (jn, j) in sc.threads[me].iter().enumerate() {
                            let junk: Vec<Vec<u8>> = (0..j.heap)
                                .map(|i| vec![sc.poison; 16 + (i as usize * 37) % 900])
                                .collect();
                            let keep: Vec<Vec<u8>> = junk.into_iter().step_by(3).collect();
                            let u = &sc.units[j.unit];
                            let env = u.env.lower();
                            let gate = Interleave {
                                sim: sim.clone(),
                                me,
                                outer: true,
                                count: Cell::new(0),
                            };
                            if let Some((at, unit, fast)) = j.nested {
                                NEST.with(|x| {
                                    *x.borrow_mut() = Some(Nest {
                                        at: at as u64,
                                        unit: sc.units[unit].clone(),
                                        fast,
                                        result: None,
                                    })
                                });
                            }
                            let f = u.prog.lower_with(gate);
                            let o = opts(j.fast, j.verbose, j.validate);
                            let slot = j.ctx.and_then(|c| pool.lock().unwrap()[c].take().map(|x| (c, x)));
                            let got = match slot {
                                Some((c, (mut ctx, last))) => {
                                    if last != usize::MAX && last != me {
                                        n.migrated += 1;
                                    }
                                    let r = run_ctx(&f, &env, &o, &mut ctx);
                                    pool.lock().unwrap()[c] = Some((ctx, me));
                                    r
                                }
                                None => run_fresh(&f, &env, &o),
                            };
                            n.jobs += 1;
                            drop(keep);
                            if let Some(d) = diff_res(base[j.unit][j.fast as usize].as_ref().unwrap(), &got) {
                                fails.push(Fail {
                                    class: "differs".into(),
                                    msg: format!("thread {me} job {jn}: alone vs interleaved: {d}"),
                                });
                            }
                            if let Some(nest) = NEST.with(|x| x.borrow_mut().take()) {
                                if let Some(r) = nest.result {
                                    n.nested += 1;
                                    let (_, unit, fast) = j.nested.unwrap();
                                    if let Some(d) = diff_res(base[unit][fast as usize].as_ref().unwrap(), &r) {
                                        fails.push(Fail {
                                            class: "differs".into(),
                                            msg: format!("thread {me} job {jn}: alone vs nested in a callback: {d}"),
                                        });
                                    }
                                }
                            }
                        }
                        sim.done(me);
                        (fails, n)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

#[derive(Default)]
struct BTreeCount {
    migrated: u64,
    nested: u64,
    jobs: u64,
}

fn exec_threads(sc: &TSc, cov: &mut Cov, taken: &mut Vec<(u64, u8)>) -> Result<(), Fail> {
    // Every unit on its own, several times.
    let mut base: Vec<[Option<Res>; 2]> = vec![];
    let mut ev = 1;
    for u in &sc.units {
        let f = u.prog.lower();
        let env = u.env.lower();
        let mut rs = [None, None];
        for fast in [false, true] {
            if fast && !u.fast_ok {
                continue;
            }
            crate::poison::set(0);
            let a = run_fresh(&f, &env, &opts(fast, false, false));
            crate::poison::set(sc.poison);
            let b = run_fresh(&f, &env, &opts(fast, false, false));
            cov.add("work.repeated_runs", 2);
            if let Some(d) = diff_res(&a, &b) {
                crate::poison::set(0);
                return fail("differs", format!("the same run twice in one process: {d}"));
            }
            ev = mix2(ev, res_hash(&a));
            rs[fast as usize] = Some(a);
        }
        base.push(rs);
    }
    let sim = Arc::new(Sim::new(sc.threads.len(), &sc.switch));
    let res = run_threads(sc, &base, &sim);
    crate::poison::set(0);
    let g = sim.st.lock().unwrap();
    cov.steps += g.ticks;
    cov.ev(ev);
    cov.ev(g.log);
    cov.states.push(g.log);
    cov.add("fault.thread_switch_in_callback", g.taken.len() as u64);
    cov.nontrivial = g.taken.len() > 0;
    *taken = g.taken.clone();
    let mut first = Ok(());
    for (fs, n) in res {
        cov.add("fault.context_migrated", n.migrated);
        cov.add("fault.nested_run_in_callback", n.nested);
        cov.add("work.jobs", n.jobs);
        if let (Some(f), true) = (fs.first(), first.is_ok()) {
            first = Err(f.clone());
        }
    }
    first
}

pub struct C09;
impl Check for C09 {
    type Sc = TSc;
    const META: Meta = Meta {
        id: "C09",
        rule: "one run: 2-4 clients on real threads, of which the simulator lets exactly one run at a time and switches at seeded callbacks; contexts migrate between them, further allocations are nested in callbacks, the heap is moved around and fresh or freed memory filled with seeded garbage; every result is compared with the same allocation run alone; sampled runs are repeated in other processes; non-trivial: a thread switch happened inside an allocation",
        state_measure: "distinct interleavings (sequence of (thread, callback) pairs), by hash",
        real: &["both allocators with all their passes", "Ctx", "thread-local and global state, if any", "the operating system's threads, one running at a time"],
        stub: &["the clients", "the scheduler", "heap contents"],
        assumptions: &[
            "clients are interleaved at callback granularity; data races between callbacks are excluded by the type system (the crate's unsafe code is confined to the bump allocator's Send/Sync claim)",
        ],
        quick_runs: 40_000,
        thorough_runs: 4_000_000,
        checked_too: false,
        divergence_is_violation: true,
    };
    fn gen(r: &mut Rng, _: u64, _: bool) -> TSc {
        let nu = r.range(1, 4);
        let units: Vec<Unit> = (0..nu)
            .map(|_| {
                let f = r.pct(60);
                let t = r.pct(25);
                let s = r.pct(60);
                gen_unit(r, f, t, s)
            })
            .collect();
        let nt = r.range(2, 4);
        let nctx = r.range(1, 3);
        let threads = (0..nt)
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| {
                        let unit = r.below(nu);
                        let n = r.below(nu);
                        Job {
                            unit,
                            fast: units[unit].fast_ok && r.pct(50),
                            validate: r.pct(40),
                            verbose: r.pct(25),
                            ctx: if r.pct(60) { Some(r.below(nctx)) } else { None },
                            nested: if r.pct(35) {
                                let m = *r.pick(&[20, 200, 1000]);
                                Some((r.range(1, m) as u32, n, units[n].fast_ok && r.pct(50)))
                            } else {
                                None
                            },
                            heap: if r.pct(50) { r.below(40) as u32 } else { 0 },
                        }
                    })
                    .collect()
            })
            .collect();
        let switch = Switch::Seeded {
            seed: r.next(),
            den: *r.pick(&[3, 20, 150, 800]),
        };
        TSc { units, threads, nctx, switch, poison: r.range(1, 255) as u8 }
    }
    fn exec(sc: &TSc, cov: &mut Cov) -> Result<(), Fail> {
        exec_threads(sc, cov, &mut vec![])
    }
    fn shrink(sc: &TSc, bad: &mut dyn FnMut(&TSc) -> bool) -> TSc {
        let mut cur = sc.clone();
        macro_rules! attempt {
            ($x:expr) => {{
                let x = $x;
                if bad(&x) {
                    cur = x;
                    true
                } else {
                    false
                }
            }};
        }
        // whole threads, then single jobs
        for t in (0..cur.threads.len()).rev() {
            if cur.threads.len() > 1 {
                let mut x = cur.clone();
                x.threads.remove(t);
                attempt!(x);
            }
        }
        for t in 0..cur.threads.len() {
            for j in (0..cur.threads[t].len()).rev() {
                let mut x = cur.clone();
                x.threads[t].remove(j);
                attempt!(x);
            }
        }
        for t in 0..cur.threads.len() {
            for j in 0..cur.threads[t].len() {
                for k in 0..5 {
                    let mut x = cur.clone();
                    let q = &mut x.threads[t][j];
                    match k {
                        0 => q.nested = None,
                        1 => q.ctx = None,
                        2 => q.heap = 0,
                        3 => q.verbose = false,
                        _ => q.validate = false,
                    }
                    attempt!(x);
                }
            }
        }
        let used = |x: &TSc, n: usize| {
            x.threads
                .iter()
                .flatten()
                .any(|j| j.unit == n || j.nested.map_or(false, |q| q.1 == n))
        };
        for n in 0..cur.units.len() {
            if !used(&cur, n) && cur.units.len() > 1 {
                let mut x = cur.clone();
                let mut e = x.units[n].clone();
                e.prog = Prog {
                    blocks: vec![Blk::default()],
                    slot_size: [1; 3],
                    ..Prog::default()
                };
                e.prog.blocks[0].term = Ins::default();
                x.units[n] = e;
                attempt!(x);
                continue;
            }
            let base = cur.clone();
            let u = shrink_unit(
                &cur.units[n],
                &mut |u| {
                    let mut x = base.clone();
                    x.units[n] = u.clone();
                    bad(&x)
                },
                2_000,
            );
            cur.units[n] = u;
        }
        // explicit schedule, as few switches as possible
        let mut taken = vec![];
        let _ = exec_threads(&cur, &mut Cov::default(), &mut taken);
        let x = TSc { switch: Switch::Script(taken.clone()), ..cur.clone() };
        if bad(&x) {
            cur = x;
            let mut len = taken.len();
            while len > 0 {
                let mut at = 0;
                loop {
                    let Switch::Script(s) = &cur.switch else { break };
                    if at >= s.len() {
                        break;
                    }
                    let mut s = s.clone();
                    let to = (at + len).min(s.len());
                    s.drain(at..to);
                    let x = TSc { switch: Switch::Script(s), ..cur.clone() };
                    if bad(&x) {
                        cur = x;
                    } else {
                        at += len;
                    }
                }
                len /= 2;
            }
        }
        cur
    }
    fn show(sc: &TSc) -> Vec<String> {
        let mut v = vec![match &sc.switch {
            Switch::Seeded { seed, den } => format!("switching threads at 1 of {den} callbacks, seed {seed}"),
            Switch::Script(s) => format!("thread switches (callback, to): {s:?}"),
        }];
        for (t, js) in sc.threads.iter().enumerate() {
            for j in js {
                v.push(format!("thread {t}: {j:?}"));
            }
        }
        for (n, u) in sc.units.iter().enumerate() {
            v.push(format!("unit {n}:"));
            v.extend(crate::shrink::show(&u.prog, &u.env));
        }
        v
    }
}
