//! Parallel moves under scarce scratch space (C12).
//!
//! The environment of the resolver is simulated: the search for a free register
//! fails when the run's fault script says so, and the moves it comes up with
//! are executed on a machine whose registers and slots all hold distinct
//! values, requested scratch space included. One run in 100 goes through a whole
//! allocation instead, of a function whose edges carry many moves. (When the hook
//! does not compile against the tree under test, all runs do.)

use crate::fw::*;
use crate::mcheck::{exec_machine, gen_msc, show_msc, shrink_msc, Focus, MSc};
use crate::machine::Kind;
use crate::rng::{mix2, Rng};
use regalloc2::*;
use serde::{Deserialize, Serialize};
#[cfg(feature = "movehook")]
use std::collections::BTreeMap;

/// A location: 0..32 registers, 100.. spill slots, 200.. fixed stack slots.
pub type Loc = u16;

#[derive(Clone, Serialize, Deserialize)]
pub struct PSc {
    /// (from, to)
    pub moves: Vec<(Loc, Loc)>,
    /// Exact duplicates of earlier moves.
    pub dups: Vec<usize>,
    /// Answers of the successive searches for a free register.
    pub free: Vec<bool>,
    /// Register that may be borrowed.
    pub borrowed: Loc,
    pub class: u8,
}

#[cfg(feature = "movehook")]
fn alloc(c: u8, l: Loc) -> Allocation {
    match l {
        100..=199 => Allocation::stack(SpillSlot::new(l as usize - 100)),
        200.. => Allocation::reg(PReg::new(l as usize - 200 + 40, crate::prog::class_of(c))),
        _ => Allocation::reg(PReg::new(l as usize, crate::prog::class_of(c))),
    }
}

#[cfg(feature = "movehook")]
fn name(l: Loc) -> String {
    match l {
        100..=199 => format!("slot{}", l - 100),
        200.. => format!("fixedslot{}", l - 200),
        _ => format!("r{l}"),
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub enum XSc {
    Direct(PSc),
    Alloc(MSc),
}

fn want(k: Kind) -> bool {
    matches!(k, Kind::Value | Kind::Stream)
}

pub struct C12;
impl Check for C12 {
    type Sc = XSc;
    const META: Meta = Meta {
        id: "C12",
        rule: "one run: a seeded set of parallel moves (chains, fan-outs, rings, self-moves over registers, spill slots and fixed stack slots) resolved while the search for free registers fails as scripted, the result executed on a machine with all-distinct contents; non-trivial: the moves overlap (some destination is also a source) or go from stack to stack; distinct: by hash of moves, failures and result",
        state_measure: "distinct (move set, failure script) pairs, by hash",
        real: &["ParallelMoves", "MoveAndScratchResolver", "in 1 % of the runs the whole allocator"],
        stub: &["in 99 % of the runs the callers (search for free registers, spill slot allocation); in the others the client", "the machine executing the moves"],
        assumptions: &["every location has at most one incoming move", "free registers offered do not occur in the move set"],
        quick_runs: 20_000_000,
        thorough_runs: 800_000_000,
        checked_too: true,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, idx: u64, th: bool) -> XSc {
        if cfg!(feature = "movehook") && idx % 100 != 99 {
            XSc::Direct(PSc::gen(r, th))
        } else {
            let (fast, tight) = (r.pct(50), r.pct(50));
            XSc::Alloc(gen_msc(r, fast, tight, Focus::Moves, th))
        }
    }
    fn exec(sc: &XSc, cov: &mut Cov) -> Result<(), Fail> {
        match sc {
            XSc::Direct(p) => p.exec(cov),
            XSc::Alloc(m) => exec_machine(m, &want, cov, &mut vec![]),
        }
    }
    fn shrink(sc: &XSc, bad: &mut dyn FnMut(&XSc) -> bool) -> XSc {
        match sc {
            XSc::Direct(p) => XSc::Direct(p.shrink(&mut |x| bad(&XSc::Direct(x.clone())))),
            XSc::Alloc(m) => XSc::Alloc(shrink_msc(m, &mut |x| bad(&XSc::Alloc(x.clone())), &want)),
        }
    }
    fn show(sc: &XSc) -> Vec<String> {
        match sc {
            XSc::Direct(p) => p.show(),
            XSc::Alloc(m) => show_msc(m),
        }
    }
}

#[cfg(not(feature = "movehook"))]
impl PSc {
    fn gen(_: &mut Rng, _: bool) -> PSc {
        unreachable!()
    }
    fn exec(&self, _: &mut Cov) -> Result<(), Fail> {
        Ok(())
    }
    fn shrink(&self, _: &mut dyn FnMut(&PSc) -> bool) -> PSc {
        self.clone()
    }
    fn show(&self) -> Vec<String> {
        vec!["needs the hook".into()]
    }
}

#[cfg(feature = "movehook")]
impl PSc {
    fn gen(r: &mut Rng, th: bool) -> PSc {
        let class = r.below(3) as u8;
        let big = r.permille(if th { 20 } else { 4 });
        let nreg = r.range(1, if big { 32 } else { 12 }) as u16;
        let nslot = r.below(if big { 60 } else { 8 }) as u16;
        let nfix = if r.pct(30) { r.below(5) as u16 } else { 0 };
        let mut locs: Vec<Loc> = (0..nreg).chain(100..100 + nslot).chain(200..200 + nfix).collect();
        r.shuffle(&mut locs);
        let max = if big { locs.len() } else { locs.len().min(10) };
        let n = r.range(1, max);
        let mut moves: Vec<(Loc, Loc)> = vec![];
        match r.below(4) {
            0 => {
                // anything to anything
                for &d in &locs[..n] {
                    moves.push((*r.pick(&locs), d));
                }
            }
            1 => {
                // a permutation
                let mut s = locs[..n].to_vec();
                r.shuffle(&mut s);
                moves = s.into_iter().zip(locs[..n].iter().copied()).collect();
            }
            2 => {
                // rings of given lengths, some with tails
                let mut i = 0;
                while i < n {
                    let k = r.range(1, (n - i).min(if big { 40 } else { 5 }));
                    for j in 0..k {
                        moves.push((locs[i + (j + 1) % k], locs[i + j]));
                    }
                    i += k;
                }
                for &d in &locs[n..] {
                    if r.pct(30) {
                        moves.push((*r.pick(&locs[..n]), d));
                    }
                }
            }
            _ => {
                // chains
                let k = r.range(1, 4);
                for j in 0..n {
                    if j + k < locs.len() {
                        moves.push((locs[j + k], locs[j]));
                    }
                }
                if moves.is_empty() {
                    moves.push((locs[0], locs[0]));
                }
            }
        }
        r.shuffle(&mut moves);
        let dups = if r.pct(15) { vec![r.below(moves.len())] } else { vec![] };
        let free = (0..3).map(|_| r.pct(45)).collect();
        let borrowed = r.below(nreg as usize) as u16;
        PSc { moves, dups, free, borrowed, class }
    }
    fn exec(&self, cov: &mut Cov) -> Result<(), Fail> {
        let c = self.class;
        let mut par: Vec<(Allocation, Allocation, u32)> = self
            .moves
            .iter()
            .enumerate()
            .map(|(i, &(s, d))| (alloc(c, s), alloc(c, d), i as u32))
            .collect();
        for &d in &self.dups {
            if d < self.moves.len() {
                par.push(par[d]);
            }
        }
        let is_stack = |a: Allocation| a.is_stack() || a.as_reg().map_or(false, |p| p.hw_enc() >= 40);
        let mut h = mix2(c as u64, self.borrowed as u64);
        for &(s, d) in &self.moves {
            h = mix2(h, ((s as u64) << 16) | d as u64);
        }
        for &f in &self.free {
            h = mix2(h, f as u64 + 5);
        }
        cov.states.push(h);
        let mut extra: Vec<Allocation> = vec![];
        let mut calls = 0;
        let mut refused = 0u64;
        let mut slots = 0;
        let res = {
            let extra = std::cell::RefCell::new(&mut extra);
            let mut find = || {
                let ok = self.free.get(calls).copied().unwrap_or(false);
                calls += 1;
                if ok {
                    let a = Allocation::reg(PReg::new(32 + calls, crate::prog::class_of(c)));
                    extra.borrow_mut().push(a);
                    Some(a)
                } else {
                    refused += 1;
                    None
                }
            };
            let mut slot = || {
                slots += 1;
                let a = Allocation::stack(SpillSlot::new(1000 + slots));
                extra.borrow_mut().push(a);
                a
            };
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                regalloc2::sim_hooks::resolve_parallel_moves(
                    &par,
                    &mut find,
                    &mut slot,
                    &is_stack,
                    alloc(c, self.borrowed).as_reg().unwrap(),
                )
            }))
        };
        let seq = match res {
            Ok(s) => s,
            Err(_) => return fail("panic", format!("panic: {}", crate::alloc::last_panic())),
        };
        cov.add("fault.no_free_register", refused);
        cov.add("fault.slot_requested", slots as u64);
        let dests: std::collections::BTreeSet<Loc> = self.moves.iter().map(|m| m.1).collect();
        let overlap = self.moves.iter().any(|m| m.0 != m.1 && dests.contains(&m.0));
        let s2s = self.moves.iter().any(|m| m.0 >= 100 && m.1 >= 100);
        cov.nontrivial = overlap || s2s;
        cov.add("probe.overlapping_move_sets", overlap as u64);
        cov.add("probe.stack_to_stack", s2s as u64);
        cov.add("probe.scratch_used", (calls > 0) as u64);
        // run it
        let mut st: BTreeMap<Allocation, u64> = BTreeMap::new();
        let mut all: Vec<Loc> = (0..32).chain(100..110).chain(200..206).collect();
        all.extend(self.moves.iter().flat_map(|m| [m.0, m.1]));
        for &l in &all {
            st.insert(alloc(c, l), 10_000 + l as u64);
        }
        let mut log = h;
        for (k, &(s, d, _)) in seq.iter().enumerate() {
            cov.steps += 1;
            log = mix2(log, ((s.bits() as u64) << 32) | d.bits() as u64);
            if is_stack(s) && is_stack(d) {
                return fail("stack-to-stack", format!("move {k} of {}: {s} -> {d}", list(&seq)));
            }
            let v = match st.get(&s) {
                Some(&v) => v,
                None if extra.contains(&s) => 1,
                None => return fail("bad-location", format!("move {k} of {} reads {s}", list(&seq))),
            };
            if !st.contains_key(&d) && !extra.contains(&d) {
                return fail("bad-location", format!("move {k} of {} writes {d}", list(&seq)));
            }
            st.insert(d, v);
        }
        cov.ev(log);
        let goal: BTreeMap<Loc, Loc> = self.moves.iter().map(|m| (m.1, m.0)).collect();
        for l in all {
            let want = 10_000 + *goal.get(&l).unwrap_or(&l) as u64;
            let got = st[&alloc(c, l)];
            if got != want {
                let n = |v: u64| if v < 10_000 { "garbage".to_string() } else { format!("the old {}", name((v - 10_000) as Loc)) };
                return fail(
                    "wrong-value",
                    format!("{} holds {} instead of {} after {}", name(l), n(got), n(want), list(&seq)),
                );
            }
        }
        Ok(())
    }
    fn shrink(&self, bad: &mut dyn FnMut(&PSc) -> bool) -> PSc {
        let mut cur = self.clone();
        loop {
            let n = cur.moves.len();
            for i in (0..cur.moves.len()).rev() {
                let mut x = cur.clone();
                x.moves.remove(i);
                x.dups.clear();
                if !x.moves.is_empty() && bad(&x) {
                    cur = x;
                }
            }
            if cur.moves.len() == n {
                break;
            }
        }
        let mut x = cur.clone();
        x.dups.clear();
        if bad(&x) {
            cur = x;
        }
        for i in 0..cur.free.len() {
            let mut x = cur.clone();
            x.free[i] = true;
            if bad(&x) {
                cur = x;
            }
        }
        cur
    }
    fn show(&self) -> Vec<String> {
        vec![
            format!(
                "parallel moves: {}",
                self.moves.iter().map(|m| format!("{} := {}", name(m.1), name(m.0))).collect::<Vec<_>>().join(", ")
            ),
            format!("duplicated: {:?}; searches for a free register: {:?}; may borrow {}", self.dups, self.free, name(self.borrowed)),
        ]
    }
}

#[cfg(feature = "movehook")]
fn list(seq: &[(Allocation, Allocation, u32)]) -> String {
    let s: Vec<String> = seq.iter().map(|m| format!("{}->{}", m.0, m.1)).collect();
    format!("[{}]", s.join(", "))
}
