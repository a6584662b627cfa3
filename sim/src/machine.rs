//! The simulated target machine. It loads the allocator's output for a
//! function and runs it in lockstep with a reference machine that has one
//! storage cell per virtual register. Control flow (which successor a branch
//! takes) and every value an instruction is allowed to destroy are decided by
//! the run's PRNG: clobbered registers, the dedicated scratch registers inside
//! an instruction, and everything uninitialised hold poison.

use crate::prog::*;
use crate::rng::Rng;
use regalloc2::*;
use std::collections::BTreeMap as HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// An operand read a value that is not the one the program defines.
    Value,
    /// A value was destroyed by something the client had announced (clobber,
    /// dedicated scratch), or lived in a register that was not granted.
    Resource,
    /// A constraint of an operand is not met, or operands of one instruction
    /// destroy each other.
    Constraint,
    /// The output cannot be consumed as a stream of instructions and edits.
    Stream,
    /// A debug location is wrong.
    Debug,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: Kind,
    /// Stable short class for minimisation and known-finding matching.
    pub class: &'static str,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct ExecStats {
    pub steps: u64,
    pub insts: u64,
    pub moves: u64,
    pub walks: u64,
    pub edges_total: u64,
    pub edges_taken: u64,
    pub clob_poison: u64,
    pub scratch_poison: u64,
    pub init_poison: u64,
    pub clob_hit_live: u64,
    pub dbg_obs: u64,
    pub dbg_cover: u64,
    pub slots: u64,
    pub loads: u64,
    pub stores: u64,
    pub trace_hash: u64,
}

const K_VAL: u64 = 1;
const K_CLOB: u64 = 2;
const K_SCRATCH: u64 = 3;
const K_INIT: u64 = 4;
const K_TORN: u64 = 5;

fn kind_of(t: u64) -> u64 {
    t >> 56
}

fn descr(t: u64, origin: &[(u32, u32)]) -> String {
    let n = (t & 0xffff_ffff) as usize;
    match kind_of(t) {
        K_VAL => format!("value of v{} made by inst{}", origin[n].0, origin[n].1 as i32),
        K_CLOB => format!("poison of the clobbers of inst{}", n),
        K_SCRATCH => format!("poison put in the scratch register by inst{}", n),
        K_INIT => "uninitialised storage".to_string(),
        _ => "parts of different values (overlapping spill slots)".to_string(),
    }
}

/// Who decides the branches.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Sched {
    Seeded { seed: u64, walks: u32, steps: u32 },
    /// One execution: the successor index taken at the end of each block.
    Script(Vec<u16>),
}

/// One flattened stream element per block.
#[derive(Clone, Copy, Debug)]
enum El {
    Mv(usize),
    In(usize),
}

pub struct Machine<'a> {
    p: &'a Prog,
    f: &'a SimFunc<NoGate>,
    e: &'a Env,
    out: &'a Output,
    pub viols: Vec<Viol>,
    want: &'a dyn Fn(Kind) -> bool,
    pub stats: ExecStats,
    stream: Vec<Vec<El>>,
    regs: Vec<u64>,
    slots: Vec<(u64, u8, u8)>,
    /// Every store to a spill slot in this execution: (words, token).
    mem_log: Vec<(u32, u32, u64)>,
    /// Per register: the spill slot its content was loaded from, and the token.
    prov: Vec<(u32, u32, u64)>,
    vals: Vec<u64>,
    origin: Vec<(u32, u32)>,
    init_ctr: u64,
    /// per program point: (label, alloc, class)
    dbg_at: HashMap<u32, Vec<(u32, Allocation)>>,
    edge_count: Vec<Vec<u32>>,
    vclass_of_label: HashMap<(u32, u32), Vec<u32>>,
    /// Locations may extend beyond the requested range and over points where
    /// the value does not exist yet (fastalloc).
    pub loose_dbg: bool,
    /// Instructions leave the dedicated scratch registers alone.
    pub quiet_scratch: bool,
    /// Whether an instruction's outputs survive it shows when they are used.
    pub inputs_only: bool,
    /// Successor chosen at each branch of the current execution.
    pub taken: Vec<u16>,
    scope: Vec<Vec<bool>>,
}

fn err<T>(v: &mut Vec<Viol>, want: &dyn Fn(Kind) -> bool, k: Kind, c: &'static str, m: String, t: T) -> T {
    if want(k) && v.len() < 8 {
        v.push(Viol { kind: k, class: c, msg: m });
    }
    t
}

impl<'a> Machine<'a> {
    pub fn new(
        p: &'a Prog,
        f: &'a SimFunc<NoGate>,
        e: &'a Env,
        out: &'a Output,
        want: &'a dyn Fn(Kind) -> bool,
    ) -> Machine<'a> {
        Machine {
            p,
            f,
            e,
            out,
            viols: vec![],
            want,
            stats: ExecStats::default(),
            stream: vec![],
            regs: vec![0; 256],
            slots: vec![],
            mem_log: vec![],
            prov: vec![(0, 0, 0); 256],
            vals: vec![0; f.nvregs],
            origin: vec![],
            init_ctr: 0,
            dbg_at: HashMap::new(),
            edge_count: vec![],
            vclass_of_label: HashMap::new(),
            loose_dbg: false,
            quiet_scratch: false,
            inputs_only: false,
            taken: vec![],
            scope: vec![],
        }
    }

    fn bad(&mut self, k: Kind, c: &'static str, m: String) {
        err(&mut self.viols, self.want, k, c, m, ())
    }
    fn stop(&self) -> bool {
        !self.viols.is_empty()
    }

    fn slot_base(&self, s: SpillSlot, class: RegClass) -> Option<(usize, usize)> {
        let n = self.f.slot_size[class as usize] as usize;
        let i = s.index();
        let base = if self.f.by_last {
            (i + 1).checked_sub(n)?
        } else {
            i
        };
        if base + n > self.out.num_spillslots {
            return None;
        }
        Some((base, n))
    }

    fn is_fixed_stack(&self, r: PReg) -> bool {
        self.e.is_fixed_stack(r.class() as u8, r.hw_enc() as u8)
    }
    fn is_mem(&self, a: Allocation) -> bool {
        a.is_stack() || a.as_reg().map_or(false, |r| self.is_fixed_stack(r))
    }
    fn granted(&self, r: PReg) -> bool {
        let (c, h) = (r.class() as u8, r.hw_enc() as u8);
        self.e.is_alloc(c, h) || self.e.is_fixed_stack(c, h)
    }

    fn check_slot(&mut self, a: Allocation, class: RegClass, what: &str) {
        if let Some(s) = a.as_stack() {
            match self.slot_base(s, class) {
                None => self.bad(
                    Kind::Stream,
                    "slot-range",
                    format!("{what}: {s} (class {class:?}) outside the frame of {} slots", self.out.num_spillslots),
                ),
                Some((b, n)) => {
                    if b % n != 0 {
                        self.bad(
                            Kind::Stream,
                            "slot-align",
                            format!("{what}: {s} not aligned to {n} slots"),
                        )
                    }
                }
            }
        }
    }

    /// Load the output: everything a consumer relies on before running it.
    pub fn load(&mut self) -> bool {
        let f = self.f;
        let out = self.out;
        let ni = f.insts.len();
        let mut total = 0usize;
        if out.inst_alloc_offsets.len() != ni {
            self.bad(
                Kind::Stream,
                "alloc-table",
                format!("inst_alloc_offsets has {} entries for {ni} instructions", out.inst_alloc_offsets.len()),
            );
            self.viols_or_internal();
            return false;
        }
        for i in 0..ni {
            let n = f.insts[i].0.len();
            let got = out.inst_alloc_offsets[i] as usize;
            let next = if i + 1 == ni {
                out.allocs.len()
            } else {
                out.inst_alloc_offsets[i + 1] as usize
            };
            if got != total || next != got + n || next > out.allocs.len() {
                self.bad(
                    Kind::Stream,
                    "alloc-table",
                    format!("inst{i} has {n} operands but allocations {got}..{next}"),
                );
                return false;
            }
            total += n;
        }
        // edits
        let mut blk_of = vec![0usize; ni];
        for (b, r) in f.ranges.iter().enumerate() {
            for i in r.iter() {
                blk_of[i.index()] = b;
            }
        }
        let mut per_block: Vec<Vec<usize>> = vec![vec![]; f.ranges.len()];
        let mut last: Option<ProgPoint> = None;
        for (k, (pt, ed)) in out.edits.iter().enumerate() {
            if let Some(l) = last {
                if l > *pt {
                    self.bad(Kind::Stream, "edit-order", format!("edit {k} at {pt:?} follows one at {l:?}"));
                    return false;
                }
            }
            last = Some(*pt);
            let i = pt.inst().index();
            if i >= ni {
                self.bad(Kind::Stream, "edit-range", format!("edit {k} at {pt:?}, only {ni} instructions"));
                return false;
            }
            let b = blk_of[i];
            if pt.pos() == InstPosition::After && f.ranges[b].last().index() == i {
                self.bad(
                    Kind::Stream,
                    "edit-after-terminator",
                    format!("edit {k} {ed:?} placed after the terminator inst{i}"),
                );
            } else {
                per_block[b].push(k);
            }
            let Edit::Move { from, to } = *ed;
            if from.is_none() || to.is_none() {
                self.bad(Kind::Stream, "edit-none", format!("edit {k} {ed:?} names no location"));
                return false;
            }
            let class = match (from.as_reg(), to.as_reg()) {
                (Some(a), Some(b)) => {
                    if a.class() != b.class() {
                        self.bad(Kind::Stream, "edit-class", format!("edit {k} {ed:?} crosses classes"));
                    }
                    Some(a.class())
                }
                (Some(a), None) => Some(a.class()),
                (None, Some(b)) => Some(b.class()),
                (None, None) => None,
            };
            if self.is_mem(from) && self.is_mem(to) && from != to {
                self.bad(
                    Kind::Stream,
                    "stack-to-stack",
                    format!("edit {k} at {pt:?}: {ed:?} moves between two stack locations"),
                );
            }
            match class {
                Some(c) => {
                    self.check_slot(from, c, "edit source");
                    self.check_slot(to, c, "edit destination");
                }
                None => {
                    // both named by spillslot: class unknown
                    if from != to {
                        self.bad(
                            Kind::Stream,
                            "stack-to-stack",
                            format!("edit {k} at {pt:?}: {ed:?} moves between two spill slots"),
                        );
                        return false;
                    }
                }
            }
            for a in [from, to] {
                if let Some(r) = a.as_reg() {
                    let (c, h) = (r.class() as u8, r.hw_enc() as u8);
                    if !self.granted(r) && self.e.scratch[c as usize] != Some(h) {
                        self.bad(
                            Kind::Resource,
                            "ungranted-move",
                            format!("edit {k} at {pt:?}: {ed:?} uses {r}, which the client did not grant"),
                        );
                    }
                }
            }
        }
        // operands
        for i in 0..ni {
            self.check_operands(i);
        }
        if self.stop() {
            return false;
        }
        // the public iterator has to hand out exactly the block's instructions
        // and edits, in order
        for b in 0..f.ranges.len() {
            let mut got = vec![];
            for x in out.block_insts_and_edits(f, Block::new(b)) {
                match x {
                    InstOrEdit::Inst(i) => got.push(El::In(i.index())),
                    InstOrEdit::Edit(ed) => {
                        let base = out.edits.as_ptr() as usize;
                        let sz = std::mem::size_of::<(ProgPoint, Edit)>();
                        let off = (ed as *const Edit as usize).wrapping_sub(base) / sz;
                        got.push(El::Mv(off));
                    }
                }
            }
            let mut exp = vec![];
            let mut it = per_block[b].iter().peekable();
            for i in f.ranges[b].iter() {
                while let Some(&&k) = it.peek() {
                    if out.edits[k].0 <= ProgPoint::before(i) {
                        exp.push(El::Mv(k));
                        it.next();
                    } else {
                        break;
                    }
                }
                exp.push(El::In(i.index()));
                while let Some(&&k) = it.peek() {
                    if out.edits[k].0 <= ProgPoint::after(i) {
                        exp.push(El::Mv(k));
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            let same = got.len() == exp.len()
                && got.iter().zip(&exp).all(|(a, b)| match (a, b) {
                    (El::In(x), El::In(y)) => x == y,
                    (El::Mv(x), El::Mv(y)) => x == y,
                    _ => false,
                });
            if !same {
                self.bad(
                    Kind::Stream,
                    "iterator",
                    format!("block{b}: iterator yields {got:?}, the output holds {exp:?}"),
                );
                return false;
            }
            self.stream.push(exp);
        }
        self.stats.slots = out.num_spillslots as u64;
        self.load_debug();
        !self.stop()
    }

    fn viols_or_internal(&self) {}

    fn check_operands(&mut self, i: usize) {
        let f = self.f;
        let ops = &f.insts[i].0;
        let al = self.out.inst_allocs(Inst::new(i)).to_vec();
        for (x, o) in ops.iter().enumerate() {
            let a = al[x];
            if a.is_none() {
                self.bad(Kind::Constraint, "no-location", format!("inst{i} operand {x} ({o}) has no location"));
                self.bad(Kind::Value, "no-location", format!("inst{i} operand {x} ({o}) has no location"));
                continue;
            }
            if let Some(r) = a.as_reg() {
                if r.class() != o.class() {
                    self.bad(Kind::Constraint, "class", format!("inst{i} operand {x} ({o}) put in {r}"));
                }
                if o.as_fixed_nonallocatable().is_none() && !self.granted(r) {
                    self.bad(
                        Kind::Resource,
                        "ungranted-operand",
                        format!("inst{i} operand {x} ({o}) put in {r}, which is not allocatable"),
                    );
                }
            }
            self.check_slot(a, o.class(), "operand");
            let ok = match o.constraint() {
                OperandConstraint::Any => true,
                OperandConstraint::Reg => a.is_reg() && !self.is_mem(a),
                OperandConstraint::Stack => self.is_mem(a),
                OperandConstraint::FixedReg(r) => a.as_reg() == Some(r),
                OperandConstraint::Reuse(t) => al.get(t) == Some(&a) && !self.is_mem(a),
                OperandConstraint::Limit(n) => {
                    a.is_reg() && !self.is_mem(a) && a.as_reg().unwrap().hw_enc() < n
                }
            };
            if !ok {
                self.bad(
                    Kind::Constraint,
                    "constraint",
                    format!("inst{i} operand {x} ({o}) allocated to {a}"),
                );
            }
            // all defs of one vreg at one instruction share a location
            for y in 0..x {
                if o.kind() == OperandKind::Def
                    && ops[y].kind() == OperandKind::Def
                    && ops[y].vreg() == o.vreg()
                    && o.as_fixed_nonallocatable().is_none()
                    && al[y] != a
                {
                    self.bad(
                        Kind::Constraint,
                        "multi-def",
                        format!("inst{i}: defs of {} in {} and {}", o.vreg(), al[y], a),
                    );
                }
            }
        }
    }

    fn load_debug(&mut self) {
        if !(self.want)(Kind::Debug) {
            return;
        }
        let dl = &self.out.debug_locations;
        let np = self.f.insts.len() as u32 * 2;
        for w in dl.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            if a.0 > b.0 || (a.0 == b.0 && a.1 > b.1) {
                let m = format!("debug_locations not sorted: {a:?} before {b:?}");
                self.bad(Kind::Debug, "dbg-order", m);
                return;
            }
        }
        // Are the labels themselves unambiguous on the input side?
        let mut ambiguous: Vec<u32> = vec![];
        let mut by_label: HashMap<u32, Vec<(u32, u32, u32)>> = HashMap::new();
        for &(v, a, z, l) in &self.p.dbg {
            by_label.entry(l).or_default().push((a, z, v));
        }
        for (l, v) in by_label.iter_mut() {
            v.sort();
            for w in v.windows(2) {
                if w[1].0 < w[0].1 {
                    ambiguous.push(*l);
                }
            }
        }
        for w in dl.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            if a.0 == b.0 && b.1 < a.2 && !ambiguous.contains(&a.0) {
                let m = format!("debug_locations overlap: {a:?} and {b:?}");
                self.bad(Kind::Debug, "dbg-overlap", m);
                return;
            }
        }
        for &(l, from, to, a) in dl.iter() {
            let Some(ranges) = by_label.get(&l) else {
                self.bad(Kind::Debug, "dbg-label", format!("location for label {l}, which was never requested"));
                return;
            };
            if from > to || to.to_index() > np {
                self.bad(Kind::Debug, "dbg-range", format!("label {l}: empty or out-of-function range {from:?}..{to:?}"));
                return;
            }
            for pt in from.to_index()..to.to_index() {
                let vs: Vec<u32> = ranges
                    .iter()
                    .filter(|(s, z, _)| s * 2 <= pt && pt < z * 2)
                    .map(|x| x.2)
                    .collect();
                if self.loose_dbg && ambiguous.contains(&l) {
                    continue;
                }
                if vs.is_empty() {
                    if self.loose_dbg {
                        // fastalloc reports a value for as long as it lives
                        continue;
                    }
                    self.bad(
                        Kind::Debug,
                        "dbg-subset",
                        format!("label {l} located in {a} at point {pt} (range {from:?}..{to:?}), outside every requested range {ranges:?}"),
                    );
                    return;
                }
                self.dbg_at.entry(pt).or_default().push((l, a));
                self.vclass_of_label.insert((pt, l), vs);
            }
        }
        if self.loose_dbg || self.p.dbg.is_empty() {
            return;
        }
        // Every requested point at which the vreg is certainly live has a
        // location.
        let live = live_points(self.f);
        for &(v, a, z, l) in &self.p.dbg {
            if ambiguous.contains(&l) {
                continue;
            }
            for pt in a * 2..z * 2 {
                let i = pt as usize / 2;
                if pt % 2 == 1 && (self.f.insts[i].2 || self.f.insts[i].3) {
                    continue;
                }
                if live[pt as usize][v as usize]
                    && !self.dbg_at.get(&pt).map_or(false, |x| x.iter().any(|y| y.0 == l))
                {
                    let m = format!(
                        "no location for label {l} at {:?}, where v{v} is live (requested inst{a}..inst{z})",
                        ProgPoint::from_index(pt)
                    );
                    self.bad(Kind::Debug, "dbg-missing", m);
                    return;
                }
                self.stats.dbg_cover += 1;
            }
        }
    }

    // ---------------------------------------------------------------- storage

    fn fresh_init(&mut self) -> u64 {
        self.init_ctr += 1;
        (K_INIT << 56) | self.init_ctr
    }

    fn read(&mut self, a: Allocation, class: RegClass) -> u64 {
        if let Some(r) = a.as_reg() {
            return self.regs[r.index()];
        }
        let s = a.as_stack().unwrap();
        let Some((b, n)) = self.slot_base(s, class) else {
            return K_TORN << 56;
        };
        let t = self.slots[b].0;
        for k in 0..n {
            let w = self.slots[b + k];
            if w.0 != t || w.1 as usize != k || w.2 as usize != n {
                return if kind_of(t) == K_INIT && kind_of(w.0) == K_INIT {
                    t
                } else {
                    K_TORN << 56
                };
            }
        }
        t
    }

    fn write(&mut self, a: Allocation, class: RegClass, t: u64) {
        if let Some(r) = a.as_reg() {
            self.regs[r.index()] = t;
            return;
        }
        let s = a.as_stack().unwrap();
        if let Some((b, n)) = self.slot_base(s, class) {
            for k in 0..n {
                self.slots[b + k] = (t, k as u8, n as u8);
            }
            if (self.want)(Kind::Stream) {
                self.mem_log.push((b as u32, n as u32, t));
            }
        }
    }

    fn reset(&mut self) {
        for i in 0..256 {
            let t = self.fresh_init();
            self.regs[i] = t;
        }
        self.slots.clear();
        for _ in 0..self.out.num_spillslots.min(1 << 20) {
            let t = self.fresh_init();
            self.slots.push((t, 0, 0));
        }
        self.mem_log.clear();
        self.prov.fill((0, 0, 0));
        self.stats.init_poison += 256 + self.slots.len() as u64;
        for v in self.vals.iter_mut() {
            *v = 0;
        }
        self.origin.clear();
        self.origin.push((u32::MAX, u32::MAX));
    }

    fn new_val(&mut self, v: usize, inst: usize) -> u64 {
        self.origin.push((v as u32, inst as u32));
        (K_VAL << 56) | (self.origin.len() as u64 - 1)
    }

    fn mismatch(&mut self, i: usize, x: usize, o: Operand, a: Allocation, got: u64, exp: u64, when: &str) {
        let m = format!(
            "inst{i} operand {x} ({o}) {when}: {a} holds {}, expected {}",
            descr(got, &self.origin),
            descr(exp, &self.origin)
        );
        self.bad(Kind::Value, "value", m.clone());
        if (self.want)(Kind::Stream) {
            // the expected value was in the spill slot this was read from
            let from = match a.as_reg() {
                Some(r) => Some(self.prov[r.index()]).filter(|s| s.1 > 0 && s.2 == got).map(|s| (s.0, s.1)),
                None => self.slot_base(a.as_stack().unwrap(), o.class()).map(|(b, n)| (b as u32, n as u32)),
            };
            let lost = from.is_some_and(|(b, n)| {
                self.mem_log.iter().any(|&(c, k, t)| t == exp && c < b + n && b < c + k)
            });
            if lost || kind_of(got) == K_TORN {
                self.bad(Kind::Stream, "slot-overlap", format!("{m}; the spill slot was overwritten while the value in it was live"));
            }
        }
        if matches!(kind_of(got), K_CLOB | K_SCRATCH) {
            self.bad(Kind::Resource, "poison-read", m.clone());
        }
        let this = match kind_of(got) {
            K_VAL => self.origin[(got & 0xffff_ffff) as usize].1 == i as u32,
            K_CLOB | K_SCRATCH => got & 0xffff_ffff == i as u64,
            _ => false,
        };
        let class = if this { "interference" } else { "wrong-value-in-operand" };
        self.bad(Kind::Constraint, class, m);
    }

    // -------------------------------------------------------------- execution

    fn step_inst(&mut self, i: usize) {
        self.stats.insts += 1;
        let f = self.f;
        let (ops, clob, _, _) = &f.insts[i];
        let base = self.out.inst_alloc_offsets[i] as usize;
        let out = self.out;
        let al = &out.allocs[base..base + ops.len()];
        // tokens for the defs; several defs of one vreg are one value
        let mut tok: [(usize, u64); 24] = [(usize::MAX, 0); 24];
        let mut nt = 0;
        for o in ops.iter() {
            if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() {
                let v = o.vreg().vreg();
                if !tok[..nt].iter().any(|t| t.0 == v) && nt < 24 {
                    tok[nt] = (v, self.new_val(v, i));
                    nt += 1;
                }
            }
        }
        let tok_of = |v: usize| tok[..nt].iter().find(|t| t.0 == v).unwrap().1;
        // 1. early writes happen first (an early def must not share a place
        //    with any input)
        for (x, o) in ops.iter().enumerate() {
            if o.kind() == OperandKind::Def
                && o.pos() == OperandPos::Early
                && o.as_fixed_nonallocatable().is_none()
            {
                self.write(al[x], o.class(), tok_of(o.vreg().vreg()));
            }
        }
        // 2. all inputs are read
        for (x, o) in ops.iter().enumerate() {
            if o.kind() == OperandKind::Use && o.as_fixed_nonallocatable().is_none() {
                let exp = self.vals[o.vreg().vreg()];
                let got = self.read(al[x], o.class());
                if got != exp {
                    self.mismatch(i, x, *o, al[x], got, exp, "read early");
                    if self.stop() {
                        return;
                    }
                }
            }
        }
        // 3. the body of the instruction is free to use the dedicated scratch
        for c in 0..3u8 {
            if let Some(h) = self.e.scratch[c as usize].filter(|_| !self.quiet_scratch) {
                self.regs[preg(c, h).index()] = (K_SCRATCH << 56) | i as u64;
                self.stats.scratch_poison += 1;
            }
        }
        // 4. late writes
        for (x, o) in ops.iter().enumerate() {
            if o.kind() == OperandKind::Def
                && o.pos() == OperandPos::Late
                && o.as_fixed_nonallocatable().is_none()
            {
                self.write(al[x], o.class(), tok_of(o.vreg().vreg()));
            }
        }
        // 5. clobbers
        for r in *clob {
            let old = self.regs[r.index()];
            if kind_of(old) == K_VAL {
                self.stats.clob_hit_live += 1;
            }
            self.regs[r.index()] = (K_CLOB << 56) | i as u64;
            self.stats.clob_poison += 1;
        }
        // 6. late inputs are read again
        for (x, o) in ops.iter().enumerate() {
            if o.kind() == OperandKind::Use
                && o.pos() == OperandPos::Late
                && o.as_fixed_nonallocatable().is_none()
            {
                let exp = self.vals[o.vreg().vreg()];
                let got = self.read(al[x], o.class());
                if got != exp {
                    self.mismatch(i, x, *o, al[x], got, exp, "read late");
                }
            }
        }
        // 7. all outputs are there
        let skip = self.inputs_only;
        for (x, o) in ops.iter().enumerate().filter(|_| !skip) {
            if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() {
                let exp = tok_of(o.vreg().vreg());
                let got = self.read(al[x], o.class());
                if got != exp {
                    self.mismatch(i, x, *o, al[x], got, exp, "after the instruction");
                }
            }
        }
        for t in &tok[..nt] {
            self.vals[t.0] = t.1;
        }
    }

    fn step_move(&mut self, k: usize) {
        self.stats.moves += 1;
        let Edit::Move { from, to } = self.out.edits[k].1;
        let class = match (from.as_reg(), to.as_reg()) {
            (Some(a), _) => a.class(),
            (_, Some(b)) => b.class(),
            _ => return, // slot to itself
        };
        let t = self.read(from, class);
        if self.is_mem(from) {
            self.stats.loads += 1;
        }
        if self.is_mem(to) {
            self.stats.stores += 1;
        }
        if let Some(r) = to.as_reg() {
            self.prov[r.index()] = match from.as_reg() {
                Some(q) => self.prov[q.index()],
                None => self
                    .slot_base(from.as_stack().unwrap(), class)
                    .map_or((0, 0, 0), |(b, n)| (b as u32, n as u32, t)),
            };
        }
        self.write(to, class, t);
    }

    fn dbg_observe(&mut self, pt: u32, sat: &mut Vec<bool>) {
        let Some(list) = self.dbg_at.get(&pt) else {
            return;
        };
        let list = list.clone();
        if sat.is_empty() {
            sat.resize(list.len(), false);
        }
        for (x, (l, a)) in list.iter().enumerate() {
            if sat[x] {
                continue;
            }
            let vs = self.vclass_of_label[&(pt, *l)].clone();
            for v in vs {
                let c = class_of(self.p.vclass[v as usize]);
                let got = self.read(*a, c);
                if got == self.vals[v as usize] && got != 0 {
                    sat[x] = true;
                }
            }
        }
    }

    fn dbg_finish(&mut self, pt: u32, sat: &[bool]) {
        let Some(list) = self.dbg_at.get(&pt) else {
            return;
        };
        let list = list.clone();
        for (x, (l, a)) in list.iter().enumerate() {
            self.stats.dbg_obs += 1;
            if !sat.get(x).copied().unwrap_or(false) {
                let vs = self.vclass_of_label[&(pt, *l)].clone();
                // An early def claims its register from the Before point on,
                // where the instruction has not run yet.
                let i = (pt / 2) as usize;
                if pt % 2 == 0
                    && self.f.insts[i].0.iter().any(|o| {
                        o.kind() == OperandKind::Def
                            && o.pos() == OperandPos::Early
                            && vs.contains(&(o.vreg().vreg() as u32))
                    })
                {
                    continue;
                }
                if self.loose_dbg && !vs.iter().any(|v| self.in_scope(*v, pt)) {
                    continue;
                }
                let c = class_of(self.p.vclass[vs[0] as usize]);
                let got = self.read(*a, c);
                let m = format!(
                    "debugger stopped at {:?}: label {l} (v{:?}) should be in {a}, which holds {}; the value is {}",
                    ProgPoint::from_index(pt),
                    vs,
                    descr(got, &self.origin),
                    if self.vals[vs[0] as usize] == 0 { "not yet defined".into() } else { descr(self.vals[vs[0] as usize], &self.origin) }
                );
                self.bad(Kind::Debug, "dbg-value", m);
            }
        }
    }

    /// Does the definition of `v` dominate the program point?
    fn in_scope(&mut self, v: u32, pt: u32) -> bool {
        if self.scope.is_empty() {
            let dom = dominators(self.p).unwrap_or_default();
            let mut def = vec![None; self.f.nvregs];
            let mut blk = vec![0; self.f.insts.len()];
            for (b, r) in self.f.ranges.iter().enumerate() {
                for q in &self.f.params[b] {
                    def[q.vreg()] = Some((b, 0));
                }
                for i in r.iter() {
                    blk[i.index()] = b;
                    for o in &self.f.insts[i.index()].0 {
                        if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() {
                            def[o.vreg().vreg()] = Some((b, i.index() as u32 * 2 + 1));
                        }
                    }
                }
            }
            self.scope = (0..self.f.insts.len() as u32 * 2)
                .map(|pt| {
                    let b = blk[pt as usize / 2];
                    def.iter()
                        .map(|d| match d {
                            None => false,
                            Some((db, dp)) if *db == b => pt >= *dp,
                            Some((db, _)) => dom[b][*db],
                        })
                        .collect()
                })
                .collect();
        }
        self.scope[pt as usize][v as usize]
    }

    /// Run executions from the entry under the given schedule. The decisions
    /// of the last (on a violation: the violating) execution are left in
    /// `taken`.
    pub fn run(&mut self, sched: &Sched) {
        match sched {
            Sched::Seeded { seed, walks, steps } => {
                self.walks(&mut Rng::new(*seed), None, *walks as usize, *steps as usize)
            }
            Sched::Script(s) => self.walks(&mut Rng::new(0), Some(s), 1, usize::MAX),
        }
    }

    fn walks(&mut self, r: &mut Rng, script: Option<&[u16]>, walks: usize, steps: usize) {
        let f = self.f;
        self.edge_count = f.succs.iter().map(|s| vec![0; s.len()]).collect();
        self.stats.edges_total = f.succs.iter().map(|s| s.len() as u64).sum();
        let debug = (self.want)(Kind::Debug) && !self.dbg_at.is_empty();
        for w in 0..walks {
            self.reset();
            self.taken.clear();
            self.stats.walks += 1;
            let mut b = f.entry.index();
            let mut n = 0;
            'walk: loop {
                let len = self.stream[b].len();
                let mut sat: Vec<bool> = vec![];
                let mut cur_pt: u32 = u32::MAX;
                for x in 0..len {
                    let el = self.stream[b][x];
                    if debug {
                        // advance the observation point
                        let pt = match el {
                            El::Mv(k) => self.out.edits[k].0.to_index(),
                            El::In(i) => ProgPoint::before(Inst::new(i)).to_index(),
                        };
                        if pt != cur_pt {
                            if cur_pt != u32::MAX {
                                self.dbg_finish(cur_pt, &sat);
                            }
                            sat.clear();
                            cur_pt = pt;
                            self.dbg_observe(pt, &mut sat);
                        }
                    }
                    match el {
                        El::Mv(k) => {
                            self.step_move(k);
                            if debug {
                                self.dbg_observe(cur_pt, &mut sat);
                            }
                        }
                        El::In(i) => {
                            if debug {
                                self.dbg_finish(cur_pt, &sat);
                                sat.clear();
                            }
                            self.step_inst(i);
                            if debug {
                                cur_pt = ProgPoint::after(Inst::new(i)).to_index();
                                if x + 1 < len {
                                    self.dbg_observe(cur_pt, &mut sat);
                                } else {
                                    cur_pt = u32::MAX;
                                }
                            }
                            n += 1;
                        }
                    }
                    if self.stop() {
                        return;
                    }
                }
                self.stats.steps += len as u64;
                if f.succs[b].is_empty() || (script.is_none() && n >= steps) {
                    break 'walk;
                }
                let ns = f.succs[b].len();
                let s = if let Some(sc) = script {
                    match sc.get(self.taken.len()) {
                        Some(&x) if (x as usize) < ns => x as usize,
                        _ => break 'walk,
                    }
                } else if ns == 1 {
                    0
                } else if r.pct(if w == 0 { 80 } else { 55 }) {
                    // the least travelled edge
                    let m = *self.edge_count[b].iter().min().unwrap();
                    let c: Vec<usize> = (0..ns).filter(|&x| self.edge_count[b][x] == m).collect();
                    *r.pick(&c)
                } else {
                    r.below(ns)
                };
                if self.edge_count[b][s] == 0 {
                    self.stats.edges_taken += 1;
                }
                self.edge_count[b][s] += 1;
                self.taken.push(s as u16);
                let t = f.succs[b][s].index();
                self.stats.trace_hash = crate::rng::mix2(self.stats.trace_hash, ((b as u64) << 20) | s as u64);
                let args: Vec<u64> = f.args[b][s].iter().map(|v| self.vals[v.vreg()]).collect();
                for (q, a) in f.params[t].iter().zip(args) {
                    self.vals[q.vreg()] = a;
                }
                b = t;
            }
        }
    }
}


/// For every program point, which vregs certainly hold a value that is used
/// later (or right there).
fn live_points(f: &SimFunc<NoGate>) -> Vec<Vec<bool>> {
    let nb = f.ranges.len();
    let nv = f.nvregs;
    let mut live_in = vec![vec![false; nv]; nb];
    let mut pts = vec![vec![false; nv]; f.insts.len() * 2];
    loop {
        let mut changed = false;
        for b in (0..nb).rev() {
            let mut cur = vec![false; nv];
            for (x, s) in f.succs[b].iter().enumerate() {
                for v in 0..nv {
                    cur[v] |= live_in[s.index()][v];
                }
                for q in &f.params[s.index()] {
                    cur[q.vreg()] = false;
                }
                let _ = x;
            }
            for a in &f.args[b] {
                for v in a {
                    cur[v.vreg()] = true;
                }
            }
            let r = f.ranges[b];
            for i in r.iter().collect::<Vec<_>>().into_iter().rev() {
                let i = i.index();
                pts[i * 2 + 1] = cur.clone();
                for o in &f.insts[i].0 {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Def {
                        cur[o.vreg().vreg()] = false;
                    }
                }
                for o in &f.insts[i].0 {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Use {
                        cur[o.vreg().vreg()] = true;
                    }
                }
                pts[i * 2] = cur.clone();
            }
            if cur != live_in[b] {
                live_in[b] = cur;
                changed = true;
            }
        }
        if !changed {
            return pts;
        }
    }
}
