//! C11: the checker is fed allocations into which faults were injected. The
//! simulated machine decides whether a faulty output misbehaves; the checker has
//! to notice.

use crate::alloc::*;
use crate::fw::*;
use crate::machine::*;
use crate::mcheck::*;
use crate::prog::*;
use crate::rng::{mix2, Rng};
use regalloc2::checker::Checker;
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FK {
    /// An operand is moved to another location.
    Alloc,
    /// Two operands of one class trade places.
    Swap,
    MoveDrop,
    MoveDest,
    MoveSrc,
    /// Two moves at one program point trade places.
    MoveOrder,
    MoveDup,
    /// A move is executed at another program point.
    MoveShift,
    /// Source and destination are exchanged.
    MoveReverse,
    /// In a window of instructions one register is used for another.
    RegWindow,
    /// Two spill slots become one.
    SlotMerge,
    /// A move that should not be there.
    MoveExtra,
    /// An operand is moved to another location, and moves around the
    /// instruction see to it that the value is where it belongs.
    Detour,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub k: FK,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct CSc {
    pub m: MSc,
    /// Independent corruptions of the same output.
    pub faults: Vec<Vec<Fault>>,
}

const KINDS: &[FK] = &[
    FK::Alloc,
    FK::Alloc,
    FK::Swap,
    FK::MoveDrop,
    FK::MoveDrop,
    FK::MoveDest,
    FK::MoveSrc,
    FK::MoveOrder,
    FK::MoveDup,
    FK::MoveShift,
    FK::MoveReverse,
    FK::RegWindow,
    FK::RegWindow,
    FK::SlotMerge,
    FK::MoveExtra,
    FK::Detour,
    FK::Detour,
];

fn name(k: FK) -> &'static str {
    match k {
        FK::Alloc => "fault.operand_relocated",
        FK::Swap => "fault.operands_swapped",
        FK::MoveDrop => "fault.move_dropped",
        FK::MoveDest => "fault.move_redirected",
        FK::MoveSrc => "fault.move_given_another_source",
        FK::MoveOrder => "fault.moves_reordered",
        FK::MoveDup => "fault.move_duplicated",
        FK::MoveShift => "fault.move_delayed_or_hastened",
        FK::MoveReverse => "fault.move_reversed",
        FK::RegWindow => "fault.register_double_booked",
        FK::SlotMerge => "fault.slots_merged",
        FK::MoveExtra => "fault.spurious_move",
        FK::Detour => "fault.operand_detour",
    }
}

fn missed(k: FK) -> &'static str {
    match k {
        FK::Alloc => "probe.misbehaves.operand_relocated",
        FK::Swap => "probe.misbehaves.operands_swapped",
        FK::MoveDrop => "probe.misbehaves.move_dropped",
        FK::MoveDest => "probe.misbehaves.move_redirected",
        FK::MoveSrc => "probe.misbehaves.move_given_another_source",
        FK::MoveOrder => "probe.misbehaves.moves_reordered",
        FK::MoveDup => "probe.misbehaves.move_duplicated",
        FK::MoveShift => "probe.misbehaves.move_delayed_or_hastened",
        FK::MoveReverse => "probe.misbehaves.move_reversed",
        FK::RegWindow => "probe.misbehaves.register_double_booked",
        FK::SlotMerge => "probe.misbehaves.slots_merged",
        FK::MoveExtra => "probe.misbehaves.spurious_move",
        FK::Detour => "probe.misbehaves.operand_detour",
    }
}

/// What the injector knows about an output: which locations of each class occur.
struct Places {
    /// Per class: everything a value of that class may be put in.
    all: Vec<Vec<Allocation>>,
    /// Class of the spill slots that occur.
    slot_class: BTreeMap<Allocation, usize>,
    nops: usize,
    nins: usize,
    /// (instruction, operand) of every operand, in table order.
    ops: Vec<(usize, usize)>,
    last: BTreeSet<usize>,
}

fn places(f: &SimFunc<NoGate>, e: &Env, out: &Output) -> Places {
    let mut all: Vec<BTreeSet<Allocation>> = vec![BTreeSet::new(); 3];
    let mut slot_class = BTreeMap::new();
    let mut ops = vec![];
    for i in 0..f.insts.len() {
        for (x, o) in f.insts[i].0.iter().enumerate() {
            let a = out.inst_allocs(Inst::new(i))[x];
            ops.push((i, x));
            if a.is_stack() {
                slot_class.insert(a, o.class() as usize);
            }
            if o.as_fixed_nonallocatable().is_none() {
                all[o.class() as usize].insert(a);
            }
        }
    }
    for (_, Edit::Move { from, to }) in &out.edits {
        let c = match (from.as_reg(), to.as_reg()) {
            (Some(r), _) | (_, Some(r)) => r.class() as usize,
            _ => continue,
        };
        for a in [*from, *to] {
            if a.is_stack() {
                slot_class.insert(a, c);
            }
            all[c].insert(a);
        }
    }
    for c in 0..3u8 {
        for h in e.all(c).into_iter().take(8) {
            all[c as usize].insert(Allocation::reg(preg(c, h)));
        }
    }
    let last = f.ranges.iter().map(|r| r.last().index()).collect();
    Places {
        all: all.into_iter().map(|s| s.into_iter().collect()).collect(),
        slot_class,
        nops: ops.len(),
        nins: f.insts.len(),
        ops,
        last,
    }
}

impl Places {
    fn class_of(&self, a: Allocation) -> Option<usize> {
        a.as_reg()
            .map(|r| r.class() as usize)
            .or_else(|| self.slot_class.get(&a).copied())
    }
    fn pick(&self, class: usize, n: u32) -> Option<Allocation> {
        let v = &self.all[class];
        (!v.is_empty()).then(|| v[n as usize % v.len()])
    }
}

fn move_class(pl: &Places, m: &Edit) -> Option<usize> {
    let Edit::Move { from, to } = *m;
    pl.class_of(from).or(pl.class_of(to))
}

/// Apply one fault; false if it does not apply to this output.
fn inject(f: &SimFunc<NoGate>, pl: &Places, out: &mut Output, x: &Fault) -> bool {
    let ne = out.edits.len();
    match x.k {
        FK::Alloc => {
            if pl.nops == 0 {
                return false;
            }
            let s = x.a as usize % pl.nops;
            let (i, y) = pl.ops[s];
            let o = f.insts[i].0[y];
            if o.as_fixed_nonallocatable().is_some() {
                return false;
            }
            let Some(a) = pl.pick(o.class() as usize, x.b) else {
                return false;
            };
            let old = out.allocs[s];
            out.allocs[s] = a;
            // sometimes with everything else in the instruction that follows it
            if x.c % 3 == 0 {
                let b = out.inst_alloc_offsets[i] as usize;
                for z in 0..f.insts[i].0.len() {
                    if out.allocs[b + z] == old {
                        out.allocs[b + z] = a;
                    }
                }
            }
            a != old
        }
        FK::Detour => {
            if pl.nops == 0 {
                return false;
            }
            let s = x.a as usize % pl.nops;
            let (i, y) = pl.ops[s];
            let o = f.insts[i].0[y];
            let old = out.allocs[s];
            let (inst, c) = (Inst::new(i), o.class() as usize);
            let defs = |q: &Operand| q.kind() == OperandKind::Def;
            if o.as_fixed_nonallocatable().is_some() {
                return false;
            }
            let new = if x.c % 2 == 0 {
                // a spill slot nothing else is in
                let z = f.slot_size[c] as usize;
                let at = (out.num_spillslots + z - 1) / z * z;
                out.num_spillslots = at + z;
                Allocation::stack(SpillSlot::new(if f.by_last { at + z - 1 } else { at }))
            } else {
                match pl.pick(c, x.b) {
                    Some(a) if a != old => a,
                    _ => return false,
                }
            };
            let b = out.inst_alloc_offsets[i] as usize;
            let moved: Vec<usize> = (0..f.insts[i].0.len())
                .filter(|&z| out.allocs[b + z] == old && (x.d % 3 != 0 || z == y))
                .collect();
            let used = moved.iter().any(|&z| !defs(&f.insts[i].0[z]));
            let defd = moved.iter().any(|&z| defs(&f.insts[i].0[z]));
            if defd && pl.last.contains(&i) {
                return false;
            }
            for z in moved {
                out.allocs[b + z] = new;
            }
            if defd {
                let p = ProgPoint::after(inst);
                let at = out.edits.partition_point(|e| e.0 < p);
                out.edits.insert(at, (p, Edit::Move { from: new, to: old }));
            }
            if used {
                let p = ProgPoint::before(inst);
                let at = out.edits.partition_point(|e| e.0 <= p);
                out.edits.insert(at, (p, Edit::Move { from: old, to: new }));
            }
            true
        }
        FK::Swap => {
            if pl.nops == 0 {
                return false;
            }
            let s = x.a as usize % pl.nops;
            let t = if x.c % 2 == 0 {
                // within the instruction
                let (i, _) = pl.ops[s];
                out.inst_alloc_offsets[i] as usize + x.b as usize % f.insts[i].0.len()
            } else {
                x.b as usize % pl.nops
            };
            let oi = |s: usize| f.insts[pl.ops[s].0].0[pl.ops[s].1];
            if oi(s).class() != oi(t).class()
                || oi(s).as_fixed_nonallocatable().is_some()
                || oi(t).as_fixed_nonallocatable().is_some()
                || out.allocs[s] == out.allocs[t]
            {
                return false;
            }
            out.allocs.swap(s, t);
            true
        }
        FK::RegWindow => {
            if pl.nops == 0 || pl.nins == 0 {
                return false;
            }
            let s = x.a as usize % pl.nops;
            let (i, y) = pl.ops[s];
            let r = out.allocs[s];
            let Some(q) = pl.pick(f.insts[i].0[y].class() as usize, x.b) else {
                return false;
            };
            if r == q || f.insts[i].0[y].as_fixed_nonallocatable().is_some() {
                return false;
            }
            let lo = i.saturating_sub(x.c as usize % 8);
            let hi = i + x.d as usize % 8;
            for (t, &(j, z)) in pl.ops.iter().enumerate() {
                if (lo..=hi).contains(&j)
                    && out.allocs[t] == r
                    && f.insts[j].0[z].as_fixed_nonallocatable().is_none()
                {
                    out.allocs[t] = q;
                }
            }
            for (p, Edit::Move { from, to }) in out.edits.iter_mut() {
                if (lo..=hi).contains(&p.inst().index()) {
                    if *from == r {
                        *from = q;
                    }
                    if *to == r {
                        *to = q;
                    }
                }
            }
            true
        }
        FK::SlotMerge => {
            let v: Vec<(Allocation, usize)> = pl.slot_class.iter().map(|(a, c)| (*a, *c)).collect();
            if v.len() < 2 {
                return false;
            }
            let (a, ca) = v[x.a as usize % v.len()];
            let (b, cb) = v[x.b as usize % v.len()];
            if a == b || ca != cb {
                return false;
            }
            for t in out.allocs.iter_mut() {
                if *t == a {
                    *t = b;
                }
            }
            for (_, Edit::Move { from, to }) in out.edits.iter_mut() {
                if *from == a {
                    *from = b;
                }
                if *to == a {
                    *to = b;
                }
            }
            true
        }
        FK::MoveExtra => {
            if pl.nins == 0 {
                return false;
            }
            let c = x.d as usize % 3;
            let (Some(from), Some(to)) = (pl.pick(c, x.a), pl.pick(c, x.b)) else {
                return false;
            };
            if from == to {
                return false;
            }
            let p = ProgPoint::before(Inst::new(x.c as usize % pl.nins));
            let at = out.edits.partition_point(|e| e.0 <= p);
            out.edits.insert(at, (p, Edit::Move { from, to }));
            true
        }
        _ if ne == 0 => false,
        FK::MoveDrop => {
            out.edits.remove(x.a as usize % ne);
            true
        }
        FK::MoveDest | FK::MoveSrc => {
            let k = x.a as usize % ne;
            let Some(c) = move_class(pl, &out.edits[k].1) else {
                return false;
            };
            let Some(a) = pl.pick(c, x.b) else {
                return false;
            };
            let Edit::Move { from, to } = &mut out.edits[k].1;
            let w = if x.k == FK::MoveDest { to } else { from };
            let ch = *w != a;
            *w = a;
            ch
        }
        FK::MoveReverse => {
            let Edit::Move { from, to } = &mut out.edits[x.a as usize % ne].1;
            std::mem::swap(from, to);
            from != to
        }
        FK::MoveOrder => {
            let k = x.a as usize % ne;
            let l = (k + 1 + x.b as usize % 3).min(ne - 1);
            if k == l || out.edits[k].0 != out.edits[l].0 {
                return false;
            }
            let (a, b) = (out.edits[k].1.clone(), out.edits[l].1.clone());
            out.edits[k].1 = b;
            out.edits[l].1 = a;
            true
        }
        FK::MoveDup | FK::MoveShift => {
            let k = x.a as usize % ne;
            let (p, ed) = out.edits[k].clone();
            let d = (x.b as i64 % 7) - 3;
            let q = p.to_index() as i64 + d;
            if q < 0 || q >= 2 * pl.nins as i64 || d == 0 {
                return false;
            }
            let q = ProgPoint::from_index(q as u32);
            if q.pos() == InstPosition::After && pl.last.contains(&q.inst().index()) {
                return false;
            }
            if x.k == FK::MoveShift {
                out.edits.remove(k);
            }
            let at = out.edits.partition_point(|e| e.0 <= q);
            out.edits.insert(at, (q, ed));
            true
        }
    }
}

fn verdict(f: &SimFunc<NoGate>, env: &MachineEnv, out: &Output) -> Result<Result<(), String>, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut c = Checker::new(f, env);
        c.prepare(out);
        c.run().map_err(|e| {
            let s = format!("{e:?}");
            s.chars().take(300).collect()
        })
    }))
    .map_err(|_| last_panic())
}

fn show_fault(out: &Output, bad: &Output) -> String {
    let mut s = vec![];
    for i in 0..out.inst_alloc_offsets.len() {
        let (a, b) = (out.inst_allocs(Inst::new(i)), bad.inst_allocs(Inst::new(i)));
        if a != b {
            s.push(format!("inst{i}: {a:?} became {b:?}"));
        }
    }
    let (a, b) = (format!("{:?}", out.edits), format!("{:?}", bad.edits));
    if a != b {
        s.push(format!("moves {a} became {b}"));
    }
    let mut t = s.join("; ");
    if t.len() > 2500 {
        t.truncate(t.char_indices().take(2500).last().map_or(0, |x| x.0));
    }
    t
}

pub struct C11;

impl C11 {
    /// `taken` receives the schedule that made the accepted output misbehave.
    fn go(sc: &CSc, cov: &mut Cov, taken: &mut Vec<u16>) -> Result<(), Fail> {
        let f = sc.m.prog.lower();
        let env = sc.m.env.lower();
        let h = prog_hash(&sc.m.prog, &sc.m.env);
        cov.ev(h);
        let out = match run_fresh(&f, &env, &opts(sc.m.fast, false, false)) {
            Res::Ok(o) => o,
            _ => {
                // C07 and C13 judge this
                cov.hit("work.refused");
                return Ok(());
            }
        };
        cov.ev(out_hash(&out));
        cov.hit(if sc.m.fast { "work.fastalloc_runs" } else { "work.ion_runs" });
        match verdict(&f, &env, &out) {
            Err(m) => return fail("checker-panic", format!("the checker panicked on an unfaulted output: {m}")),
            Ok(Err(e)) => {
                // a wrong allocation is not the checker's fault
                if misbehaves(&sc.m, &f, &out, &mut Cov::default(), taken).is_none() {
                    return fail("rejected", format!("the checker rejects an allocation that is right: {e}"));
                }
                return Ok(());
            }
            Ok(Ok(())) => cov.hit("probe.accepted"),
        }
        let pl = places(&f, &sc.m.env, &out);
        for fs in &sc.faults {
            let mut bad = (*out).clone();
            let mut did = vec![];
            for x in fs {
                if inject(&f, &pl, &mut bad, x) {
                    did.push(x.k);
                }
            }
            if did.is_empty() {
                continue;
            }
            cov.nontrivial = true;
            for k in &did {
                cov.hit(name(*k));
            }
            let bh = out_hash(&bad);
            cov.ev(bh);
            cov.states.push(mix2(h, bh));
            let v = match verdict(&f, &env, &bad) {
                Err(m) => return fail("checker-panic", format!("the checker panicked: {m}; {}", show_fault(&out, &bad))),
                Ok(v) => v,
            };
            cov.ev(v.is_ok() as u64);
            match (misbehaves(&sc.m, &f, &bad, cov, taken), v) {
                (Some(w), Ok(())) => {
                    return fail(
                        if w.class == "value" { "accepted-value" } else { w.class },
                        format!("the checker accepts an output with {did:?} faults although {}; {}", w.msg, show_fault(&out, &bad)),
                    )
                }
                (Some(_), Err(_)) => {
                    cov.hit("probe.misbehaves_and_rejected");
                    if did.len() == 1 {
                        cov.hit(missed(did[0]));
                    }
                }
                (None, Ok(())) => cov.hit("probe.harmless_and_accepted"),
                (None, Err(_)) => cov.hit("probe.not_seen_to_misbehave_but_rejected"),
            }
        }
        Ok(())
    }
}

fn misbehaves(sc: &MSc, f: &SimFunc<NoGate>, out: &Output, cov: &mut Cov, taken: &mut Vec<u16>) -> Option<Viol> {
    let want = |k: Kind| matches!(k, Kind::Value | Kind::Constraint | Kind::Stream);
    let mut m = Machine::new(&sc.prog, f, &sc.env, out, &want);
    m.quiet_scratch = true;
    m.inputs_only = true;
    if m.load() {
        m.run(&sc.sched);
    }
    cov.steps += m.stats.steps;
    *taken = m.taken.clone();
    // what the checker is not about: frame layout, register classes, all
    // locations of a repeated def being the same
    m.viols
        .iter()
        .find(|v| match v.kind {
            Kind::Stream => v.class == "stack-to-stack",
            Kind::Constraint => matches!(v.class, "constraint" | "no-location" | "wrong-value-in-constrained-operand"),
            _ => true,
        })
        .cloned()
}

impl Check for C11 {
    type Sc = CSc;
    const META: Meta = Meta {
        id: "C11",
        rule: "one run: a seeded function allocated by one of the algorithms; the checker must accept the output; then up to 12 copies of it get 1-3 seeded faults each (operand relocated or swapped, register double-booked, slots merged, move dropped, redirected, reordered, duplicated, shifted, reversed, added) and run on the simulated machine: where it misbehaves, the checker must reject; non-trivial: at least one fault applied",
        state_measure: "distinct (function, environment, faulted output) triples, by hash",
        real: &["the checker", "both allocators", "the output iterator"],
        stub: &["the client functions", "the target machine executing the faulted code", "branch outcomes (seeded schedule)"],
        assumptions: &[
            "faults stay within the register classes and slot sizes of the values concerned",
            "whether a faulted output misbehaves is judged on the executions sampled",
        ],
        quick_runs: 70_000,
        thorough_runs: 10_000_000,
        checked_too: true,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, _idx: u64, thorough: bool) -> CSc {
        let fast = r.pct(45);
        let tight = r.pct(30);
        let f = *r.pick(&[Focus::None, Focus::Slots, Focus::Clobbers, Focus::Constraints, Focus::Constraints, Focus::Pressure]);
        // the checker takes its time on big functions
        let mut m = gen_msc(r, fast, tight, f, thorough);
        while m.prog.num_insts() > 800 {
            m = gen_msc(r, fast, tight, f, thorough);
        }
        let n = r.range(2, 12).min(1 + 2000 / m.prog.num_insts().max(1));
        let faults = (0..n)
            .map(|_| {
                let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
                (0..n)
                    .map(|_| Fault {
                        k: *r.pick(KINDS),
                        a: r.next() as u32,
                        b: r.next() as u32,
                        c: r.next() as u32,
                        d: r.next() as u32,
                    })
                    .collect()
            })
            .collect();
        CSc { m, faults }
    }
    fn exec(sc: &CSc, cov: &mut Cov) -> Result<(), Fail> {
        Self::go(sc, cov, &mut vec![])
    }
    fn shrink(sc: &CSc, bad: &mut dyn FnMut(&CSc) -> bool) -> CSc {
        let mut cur = sc.clone();
        let none = CSc { faults: vec![], ..cur.clone() };
        if bad(&none) {
            cur = none;
        } else {
            for i in 0..cur.faults.len() {
                let x = CSc { faults: vec![cur.faults[i].clone()], ..cur.clone() };
                if bad(&x) {
                    cur = x;
                    break;
                }
            }
            for i in (0..cur.faults[0].len()).rev() {
                let mut x = cur.clone();
                x.faults[0].remove(i);
                if bad(&x) {
                    cur = x;
                }
            }
        }
        // indices in range to begin with
        let f = cur.m.prog.lower();
        if let Res::Ok(o) = run_fresh(&f, &cur.m.env.lower(), &opts(cur.m.fast, false, false)) {
            let (no, ne) = (o.allocs.len().max(1) as u32, o.edits.len().max(1) as u32);
            for k in 0..cur.faults.first().map_or(0, |f| f.len()) {
                let mut x = cur.clone();
                let y = &mut x.faults[0][k];
                match y.k {
                    FK::Alloc | FK::RegWindow | FK::Swap => y.a %= no,
                    FK::SlotMerge | FK::MoveExtra => {}
                    _ => y.a %= ne,
                }
                if y.k == FK::Swap && y.c % 2 == 1 {
                    y.b %= no;
                }
                if bad(&x) {
                    cur = x;
                }
            }
        }
        // small numbers address the same things in ever smaller outputs
        let tidy = |cur: &mut CSc, bad: &mut dyn FnMut(&CSc) -> bool| {
            for k in 0..cur.faults.first().map_or(0, |f| f.len()) {
                for w in 0..4 {
                    for v in 0..24 {
                        let mut x = cur.clone();
                        let y = &mut x.faults[0][k];
                        let z = [&mut y.a, &mut y.b, &mut y.c, &mut y.d];
                        let z = z.into_iter().nth(w).unwrap();
                        if *z <= v {
                            break;
                        }
                        *z = v;
                        if bad(&x) {
                            *cur = x;
                            break;
                        }
                    }
                }
            }
        };
        let base = cur.m.clone();
        for _ in 0..3 {
            let c0 = cur.clone();
            let valid = |p: &Prog, e: &Env| msc_valid(p, e, base.fast, base.tight);
            // as the function shrinks, the fault has to be aimed anew
            let mut aim = c0.faults.clone();
            let mut tried = 0u32;
            let (p, e, _) = crate::shrink::shrink(
                &c0.m.prog,
                &c0.m.env,
                &valid,
                &mut |p, e| {
                    let m = MSc { prog: p.clone(), env: e.clone(), ..c0.m.clone() };
                    if bad(&CSc { m: m.clone(), faults: aim.clone() }) {
                        return true;
                    }
                    if aim.is_empty() || aim[0].is_empty() || tried > 12_000 {
                        return false;
                    }
                    for t in 0..16u32 {
                        tried += 1;
                        let mut f = aim.clone();
                        let k = t as usize % f[0].len();
                        let y = &mut f[0][k];
                        match t % 3 {
                            0 => y.a = y.a.wrapping_sub(1 + t / 3),
                            1 => y.a = t / 3,
                            _ => y.b = t / 3,
                        }
                        let x = CSc { m: m.clone(), faults: f };
                        if bad(&x) {
                            aim = x.faults;
                            return true;
                        }
                    }
                    false
                },
                12_000,
            );
            cur.faults = aim;
            cur.m.prog = p;
            cur.m.env = e;
            tidy(&mut cur, bad);
        }
        let mut taken = vec![];
        let _ = Self::go(&cur, &mut Cov::default(), &mut taken);
        let mut x = cur.clone();
        x.m.sched = Sched::Script(taken);
        if bad(&x) {
            cur = x;
        }
        cur
    }
    fn show(sc: &CSc) -> Vec<String> {
        let mut v = vec![format!("faults: {:?}", sc.faults)];
        v.extend(show_msc(&sc.m));
        v
    }
}
