//! Programs given to the allocator: an editable, serialisable form (`Prog`),
//! the lowered form that implements `regalloc2::Function` (`SimFunc`), the
//! register environment, and the rules a client has to respect (`check_valid`).

use regalloc2::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Cons {
    Any,
    Reg,
    Stack,
    /// Physical register hw number, in the class of the vreg.
    Fixed(u8),
    Reuse(u8),
    Limit(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Opnd {
    pub v: u32,
    pub c: Cons,
    pub def: bool,
    pub late: bool,
}

/// A fixed non-allocatable operand: (class, hw).
pub type NonAlloc = (u8, u8);

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Ins {
    pub ops: Vec<Opnd>,
    /// (class, hw)
    #[serde(default)]
    pub clob: Vec<(u8, u8)>,
    /// Non-allocatable fixed registers named after the ordinary operands.
    #[serde(default)]
    pub nonalloc: Vec<NonAlloc>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Blk {
    pub params: Vec<u32>,
    pub ins: Vec<Ins>,
    /// The terminator: a branch if there are successors, else a return.
    pub term: Ins,
    /// Successors with their block-parameter arguments.
    pub succs: Vec<(u32, Vec<u32>)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Prog {
    pub entry: u32,
    pub blocks: Vec<Blk>,
    /// Class of each vreg.
    pub vclass: Vec<u8>,
    /// (vreg, first instruction, end instruction, label)
    #[serde(default)]
    pub dbg: Vec<(u32, u32, u32, u32)>,
    pub slot_size: [u8; 3],
    #[serde(default)]
    pub by_last: bool,
    #[serde(default)]
    pub multi_defs: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Env {
    pub pref: [Vec<u8>; 3],
    pub nonpref: [Vec<u8>; 3],
    pub scratch: [Option<u8>; 3],
    /// (class, hw)
    pub fixed_stack: Vec<(u8, u8)>,
}

pub fn class_of(c: u8) -> RegClass {
    match c {
        0 => RegClass::Int,
        1 => RegClass::Float,
        _ => RegClass::Vector,
    }
}

pub fn preg(c: u8, hw: u8) -> PReg {
    PReg::new(hw as usize, class_of(c))
}

impl Env {
    pub fn lower(&self) -> MachineEnv {
        let set = |c: usize, v: &Vec<u8>| -> PRegSet {
            let mut s = PRegSet::empty();
            for &h in v {
                s.add(preg(c as u8, h));
            }
            s
        };
        MachineEnv {
            preferred_regs_by_class: [
                set(0, &self.pref[0]),
                set(1, &self.pref[1]),
                set(2, &self.pref[2]),
            ],
            non_preferred_regs_by_class: [
                set(0, &self.nonpref[0]),
                set(1, &self.nonpref[1]),
                set(2, &self.nonpref[2]),
            ],
            scratch_by_class: [
                self.scratch[0].map(|h| preg(0, h)),
                self.scratch[1].map(|h| preg(1, h)),
                self.scratch[2].map(|h| preg(2, h)),
            ],
            fixed_stack_slots: self.fixed_stack.iter().map(|&(c, h)| preg(c, h)).collect(),
        }
    }
    pub fn is_alloc(&self, c: u8, hw: u8) -> bool {
        self.pref[c as usize].contains(&hw) || self.nonpref[c as usize].contains(&hw)
    }
    pub fn is_fixed_stack(&self, c: u8, hw: u8) -> bool {
        self.fixed_stack.contains(&(c, hw))
    }
    pub fn num(&self, c: u8) -> usize {
        self.pref[c as usize].len() + self.nonpref[c as usize].len()
    }
    pub fn all(&self, c: u8) -> Vec<u8> {
        let mut v = self.pref[c as usize].clone();
        v.extend(self.nonpref[c as usize].iter());
        v
    }
}

/// Observation points a simulator can put into the client side of the API.
/// Every `Function` callback goes through `tick` before it answers.
pub trait Gate {
    fn tick(&self, _cb: Cb, _arg: usize) {}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Cb {
    NumInsts,
    NumBlocks,
    Entry,
    BlockInsns,
    BlockSuccs,
    BlockPreds,
    BlockParams,
    IsRet,
    IsBranch,
    BranchParams,
    Operands,
    Clobbers,
    NumVregs,
    DebugLabels,
    SlotSize,
    ByLast,
    MultiDefs,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct NoGate;
impl Gate for NoGate {}

#[derive(Clone, Debug)]
pub struct SimFunc<G: Gate = NoGate> {
    pub insts: Vec<(Vec<Operand>, PRegSet, bool, bool)>, // operands, clobbers, is_ret, is_branch
    pub ranges: Vec<InstRange>,
    pub succs: Vec<Vec<Block>>,
    pub preds: Vec<Vec<Block>>,
    pub params: Vec<Vec<VReg>>,
    pub args: Vec<Vec<Vec<VReg>>>,
    pub entry: Block,
    pub nvregs: usize,
    pub dbg: Vec<(VReg, Inst, Inst, u32)>,
    pub slot_size: [u8; 3],
    pub by_last: bool,
    pub multi_defs: bool,
    pub gate: G,
}

impl Prog {
    pub fn num_insts(&self) -> usize {
        self.blocks.iter().map(|b| b.ins.len() + 1).sum()
    }
    pub fn vreg(&self, v: u32) -> VReg {
        VReg::new(v as usize, class_of(self.vclass[v as usize]))
    }
    pub fn lower(&self) -> SimFunc<NoGate> {
        self.lower_with(NoGate)
    }
    pub fn operand(&self, o: &Opnd) -> Operand {
        let v = self.vreg(o.v);
        let c = match o.c {
            Cons::Any => OperandConstraint::Any,
            Cons::Reg => OperandConstraint::Reg,
            Cons::Stack => OperandConstraint::Stack,
            Cons::Fixed(h) => OperandConstraint::FixedReg(preg(self.vclass[o.v as usize], h)),
            Cons::Reuse(i) => OperandConstraint::Reuse(i as usize),
            Cons::Limit(n) => OperandConstraint::Limit(n as usize),
        };
        // Clients state operands through the named constructors or through
        // `Operand::new`; which one is used must not matter. Odd vregs take
        // the named form where there is one.
        if o.v % 2 == 1 {
            let named = match (o.c, o.def, o.late) {
                (Cons::Reg, false, false) => Some(Operand::reg_use(v)),
                (Cons::Reg, false, true) => Some(Operand::reg_use_at_end(v)),
                (Cons::Reg, true, true) => Some(Operand::reg_def(v)),
                (Cons::Reg, true, false) if o.v % 4 == 1 => Some(Operand::reg_def_at_start(v)),
                (Cons::Reg, true, false) => Some(Operand::reg_temp(v)),
                (Cons::Reuse(i), true, true) => Some(Operand::reg_reuse_def(v, i as usize)),
                (Cons::Fixed(h), d, l) => {
                    let p = preg(self.vclass[o.v as usize], h);
                    Some(match (d, l) {
                        (false, false) => Operand::reg_fixed_use(v, p),
                        (false, true) => Operand::reg_fixed_use_at_end(v, p),
                        (true, true) => Operand::reg_fixed_def(v, p),
                        (true, false) => Operand::reg_fixed_def_at_start(v, p),
                    })
                }
                (Cons::Any, false, false) => Some(Operand::any_use(v)),
                (Cons::Any, true, true) => Some(Operand::any_def(v)),
                _ => None,
            };
            if let Some(op) = named {
                return op;
            }
        }
        Operand::new(
            v,
            c,
            if o.def { OperandKind::Def } else { OperandKind::Use },
            if o.late { OperandPos::Late } else { OperandPos::Early },
        )
    }
    pub fn lower_with<G: Gate>(&self, gate: G) -> SimFunc<G> {
        let nb = self.blocks.len();
        let mut f = SimFunc {
            insts: vec![],
            ranges: vec![],
            succs: vec![vec![]; nb],
            preds: vec![vec![]; nb],
            params: vec![],
            args: vec![],
            entry: Block::new(self.entry as usize),
            nvregs: self.vclass.len(),
            dbg: self
                .dbg
                .iter()
                .map(|&(v, a, b, l)| {
                    (self.vreg(v), Inst::new(a as usize), Inst::new(b as usize), l)
                })
                .collect(),
            slot_size: self.slot_size,
            by_last: self.by_last,
            multi_defs: self.multi_defs,
            gate,
        };
        for (bi, b) in self.blocks.iter().enumerate() {
            let start = f.insts.len();
            for (k, i) in b.ins.iter().chain(std::iter::once(&b.term)).enumerate() {
                let last = k == b.ins.len();
                let mut ops: Vec<Operand> = i.ops.iter().map(|o| self.operand(o)).collect();
                for &(c, h) in &i.nonalloc {
                    ops.push(Operand::fixed_nonallocatable(preg(c, h)));
                }
                let mut cl = PRegSet::empty();
                for &(c, h) in &i.clob {
                    cl.add(preg(c, h));
                }
                f.insts.push((
                    ops,
                    cl,
                    last && b.succs.is_empty(),
                    last && !b.succs.is_empty(),
                ));
            }
            f.ranges
                .push(InstRange::new(Inst::new(start), Inst::new(f.insts.len())));
            f.params.push(b.params.iter().map(|&v| self.vreg(v)).collect());
            let mut a = vec![];
            for (s, args) in &b.succs {
                f.succs[bi].push(Block::new(*s as usize));
                f.preds[*s as usize].push(Block::new(bi));
                a.push(args.iter().map(|&v| self.vreg(v)).collect());
            }
            f.args.push(a);
        }
        f
    }
}

impl<G: Gate> Function for SimFunc<G> {
    fn num_insts(&self) -> usize {
        self.gate.tick(Cb::NumInsts, 0);
        self.insts.len()
    }
    fn num_blocks(&self) -> usize {
        self.gate.tick(Cb::NumBlocks, 0);
        self.ranges.len()
    }
    fn entry_block(&self) -> Block {
        self.gate.tick(Cb::Entry, 0);
        self.entry
    }
    fn block_insns(&self, b: Block) -> InstRange {
        self.gate.tick(Cb::BlockInsns, b.index());
        self.ranges[b.index()]
    }
    fn block_succs(&self, b: Block) -> &[Block] {
        crate::poison::probe_stack();
        self.gate.tick(Cb::BlockSuccs, b.index());
        &self.succs[b.index()]
    }
    fn block_preds(&self, b: Block) -> &[Block] {
        crate::poison::probe_stack();
        self.gate.tick(Cb::BlockPreds, b.index());
        &self.preds[b.index()]
    }
    fn block_params(&self, b: Block) -> &[VReg] {
        self.gate.tick(Cb::BlockParams, b.index());
        &self.params[b.index()]
    }
    fn is_ret(&self, i: Inst) -> bool {
        self.gate.tick(Cb::IsRet, i.index());
        self.insts[i.index()].2
    }
    fn is_branch(&self, i: Inst) -> bool {
        self.gate.tick(Cb::IsBranch, i.index());
        self.insts[i.index()].3
    }
    fn branch_blockparams(&self, b: Block, i: Inst, s: usize) -> &[VReg] {
        self.gate.tick(Cb::BranchParams, i.index());
        // The interface asks about the branch at the end of the block only.
        assert!(
            i == self.ranges[b.index()].last() && self.insts[i.index()].3 && s < self.succs[b.index()].len(),
            "client asked for the arguments of successor {s} of {b:?}, {i:?}, which has none"
        );
        &self.args[b.index()][s]
    }
    fn inst_operands(&self, i: Inst) -> &[Operand] {
        crate::poison::probe_stack();
        self.gate.tick(Cb::Operands, i.index());
        &self.insts[i.index()].0
    }
    fn inst_clobbers(&self, i: Inst) -> PRegSet {
        self.gate.tick(Cb::Clobbers, i.index());
        self.insts[i.index()].1
    }
    fn num_vregs(&self) -> usize {
        self.gate.tick(Cb::NumVregs, 0);
        self.nvregs
    }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] {
        self.gate.tick(Cb::DebugLabels, 0);
        if self.dbg.is_empty() {
            return Terse.debug_value_labels();
        }
        &self.dbg
    }
    fn spillslot_size(&self, c: RegClass) -> usize {
        self.gate.tick(Cb::SlotSize, c as usize);
        self.slot_size[c as usize] as usize
    }
    fn multi_spillslot_named_by_last_slot(&self) -> bool {
        self.gate.tick(Cb::ByLast, 0);
        self.by_last || Terse.multi_spillslot_named_by_last_slot()
    }
    fn allow_multiple_vreg_defs(&self) -> bool {
        self.gate.tick(Cb::MultiDefs, 0);
        self.multi_defs || Terse.allow_multiple_vreg_defs()
    }
}

/// A client that leaves everything to the interface's defaults. A client that
/// has no labels, wants slots named by the first of them and is in SSA form
/// need not say so.
struct Terse;

impl Function for Terse {
    fn num_insts(&self) -> usize {
        unreachable!()
    }
    fn num_blocks(&self) -> usize {
        unreachable!()
    }
    fn entry_block(&self) -> Block {
        unreachable!()
    }
    fn block_insns(&self, _: Block) -> InstRange {
        unreachable!()
    }
    fn block_succs(&self, _: Block) -> &[Block] {
        unreachable!()
    }
    fn block_preds(&self, _: Block) -> &[Block] {
        unreachable!()
    }
    fn block_params(&self, _: Block) -> &[VReg] {
        unreachable!()
    }
    fn is_ret(&self, _: Inst) -> bool {
        unreachable!()
    }
    fn is_branch(&self, _: Inst) -> bool {
        unreachable!()
    }
    fn branch_blockparams(&self, _: Block, _: Inst, _: usize) -> &[VReg] {
        unreachable!()
    }
    fn inst_operands(&self, _: Inst) -> &[Operand] {
        unreachable!()
    }
    fn inst_clobbers(&self, _: Inst) -> PRegSet {
        unreachable!()
    }
    fn num_vregs(&self) -> usize {
        unreachable!()
    }
    fn spillslot_size(&self, _: RegClass) -> usize {
        unreachable!()
    }
}

// ---------------------------------------------------------------------------
// Dominance and validity
// ---------------------------------------------------------------------------

/// Dominator sets as bitmaps (`dom[b]` has bit a set iff a dominates b);
/// unreachable blocks are reported as None.
pub fn dominators(p: &Prog) -> Option<Vec<Vec<bool>>> {
    let n = p.blocks.len();
    let mut preds = vec![vec![]; n];
    for (b, bl) in p.blocks.iter().enumerate() {
        for (s, _) in &bl.succs {
            if *s as usize >= n {
                return None;
            }
            preds[*s as usize].push(b);
        }
    }
    // postorder DFS from the entry
    let mut seen = vec![false; n];
    let mut order = vec![];
    let mut stack = vec![(p.entry as usize, 0usize)];
    seen[p.entry as usize] = true;
    while let Some(&mut (b, ref mut i)) = stack.last_mut() {
        if *i < p.blocks[b].succs.len() {
            let s = p.blocks[b].succs[*i].0 as usize;
            *i += 1;
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            order.push(b);
            stack.pop();
        }
    }
    if seen.iter().any(|s| !s) {
        return None;
    }
    order.reverse();
    let mut dom = vec![vec![true; n]; n];
    dom[p.entry as usize] = vec![false; n];
    dom[p.entry as usize][p.entry as usize] = true;
    loop {
        let mut changed = false;
        for &b in &order {
            if b == p.entry as usize {
                continue;
            }
            let mut d = vec![true; n];
            for &q in &preds[b] {
                for k in 0..n {
                    d[k] &= dom[q][k];
                }
            }
            d[b] = true;
            if d != dom[b] {
                dom[b] = d;
                changed = true;
            }
        }
        if !changed {
            return Some(dom);
        }
    }
}

pub fn pred_counts(p: &Prog) -> Vec<usize> {
    let mut c = vec![0; p.blocks.len()];
    for b in &p.blocks {
        for (s, _) in &b.succs {
            c[*s as usize] += 1;
        }
    }
    c[p.entry as usize] += 1;
    c
}

/// What a particular consumer can take, beyond the rules common to both
/// algorithms.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Limits {
    pub fastalloc: bool,
}

/// Is `p` a function a well-behaved client may pass? (SSA, CFG rules, and
/// constraints that do not contradict each other.) Used by the generator's
/// self-check and by the minimiser, which must not leave the valid space.
pub fn check_valid(p: &Prog, e: &Env, lim: Limits) -> Result<(), String> {
    let n = p.blocks.len();
    if n == 0 || p.entry as usize >= n {
        return Err("no blocks".into());
    }
    let dom = dominators(p).ok_or("unreachable block")?;
    let pc = pred_counts(p);
    if !p.blocks[p.entry as usize].params.is_empty() {
        return Err("entry has params".into());
    }
    for (b, bl) in p.blocks.iter().enumerate() {
        for (s, args) in &bl.succs {
            let s = *s as usize;
            if pc[s] > 1 && bl.succs.len() > 1 {
                return Err(format!("critical edge {b}->{s}"));
            }
            if pc[s] > 1 && (!bl.term.ops.is_empty() || !bl.term.nonalloc.is_empty()) {
                return Err("branch operands".into());
            }
            if args.len() != p.blocks[s].params.len() {
                return Err("arg count".into());
            }
            for (a, q) in args.iter().zip(&p.blocks[s].params) {
                if *a as usize >= p.vclass.len()
                    || p.vclass[*a as usize] != p.vclass[*q as usize]
                {
                    return Err("arg class".into());
                }
            }
        }
    }
    // single defs
    let nv = p.vclass.len();
    let mut def: Vec<Option<(usize, usize)>> = vec![None; nv]; // (block, pos) params at 0, inst i at i+1
    for (b, bl) in p.blocks.iter().enumerate() {
        for &v in &bl.params {
            if v as usize >= nv || def[v as usize].is_some() {
                return Err("param def".into());
            }
            def[v as usize] = Some((b, 0));
        }
        for (k, i) in bl.ins.iter().chain(std::iter::once(&bl.term)).enumerate() {
            for o in &i.ops {
                if o.v as usize >= nv {
                    return Err("vreg range".into());
                }
                if o.def {
                    match def[o.v as usize] {
                        Some((bb, kk)) if bb == b && kk == k + 1 && p.multi_defs => {}
                        Some(_) => return Err("multiple def".into()),
                        None => def[o.v as usize] = Some((b, k + 1)),
                    }
                }
            }
        }
    }
    let ok_use = |v: u32, b: usize, k: usize| -> bool {
        match def[v as usize] {
            None => false,
            Some((bb, kk)) => {
                if bb == b {
                    kk < k
                } else {
                    dom[b][bb]
                }
            }
        }
    };
    for (b, bl) in p.blocks.iter().enumerate() {
        for (k, i) in bl.ins.iter().chain(std::iter::once(&bl.term)).enumerate() {
            for o in &i.ops {
                if !o.def && !ok_use(o.v, b, k + 1) {
                    return Err(format!("use of v{} in block {b} inst {k}", o.v));
                }
            }
            check_inst(p, e, i, lim)?;
        }
        let kt = bl.ins.len() + 1;
        for (_, args) in &bl.succs {
            for &a in args {
                // A branch argument may also be defined by the branch itself.
                if !ok_use(a, b, kt + 1) {
                    return Err("branch arg undefined".into());
                }
            }
        }
        if lim.fastalloc {
            // Documented restriction of fastalloc (it panics otherwise): a
            // value defined on a branch and flowing out of the block must be
            // fixed/stack/any.
            for o in &bl.term.ops {
                if o.def && !matches!(o.c, Cons::Any | Cons::Stack | Cons::Fixed(_)) {
                    return Err("fastalloc branch def".into());
                }
            }
        }
    }
    let ni = p.num_insts() as u32;
    let mut last = 0;
    for &(v, a, z, _) in &p.dbg {
        if v < last || v as usize >= nv || a > z || z > ni {
            return Err("debug labels".into());
        }
        last = v;
    }
    Ok(())
}

/// Constraint rules for one instruction.
pub fn check_inst(p: &Prog, e: &Env, i: &Ins, lim: Limits) -> Result<(), String> {
    let cls = |o: &Opnd| p.vclass[o.v as usize];
    for (x, o) in i.ops.iter().enumerate() {
        match o.c {
            Cons::Reuse(t) => {
                if !o.def || !o.late {
                    return Err("reuse on non-late-def".into());
                }
                let t = t as usize;
                if t >= i.ops.len() || t > 31 {
                    return Err("reuse index".into());
                }
                let u = &i.ops[t];
                if u.def || u.late || u.c != Cons::Reg || cls(u) != cls(o) {
                    return Err("reuse target".into());
                }
                if i.ops
                    .iter()
                    .enumerate()
                    .any(|(y, q)| y != x && q.c == o.c)
                {
                    return Err("reuse twice".into());
                }
            }
            Cons::Limit(nn) => {
                if lim.fastalloc {
                    return Err("fastalloc has no limit".into());
                }
                if !nn.is_power_of_two() || nn > 64 {
                    return Err("limit value".into());
                }
            }
            Cons::Fixed(h) => {
                let c = cls(o);
                if h > 63 || (c == 0 && h == 63) {
                    return Err("fixed hw".into());
                }
                if !e.is_alloc(c, h) && !e.is_fixed_stack(c, h) {
                    return Err("fixed reg not allocatable".into());
                }
                let late_part = o.def || o.late;
                if late_part && i.clob.contains(&(c, h)) {
                    return Err("fixed collides with clobber".into());
                }
            }
            _ => {}
        }
    }
    // fixed/fixed collisions
    for (x, o) in i.ops.iter().enumerate() {
        for (y, q) in i.ops.iter().enumerate() {
            if y <= x {
                continue;
            }
            let eo = !o.def || !o.late; // occupies early
            let lo = o.def || o.late;
            let eq = !q.def || !q.late;
            let lq = q.def || q.late;
            let overlap = (eo && eq) || (lo && lq);
            if let (Cons::Fixed(a), Cons::Fixed(b)) = (o.c, q.c) {
                // "The only situation where the same physical register can be
                // used multiple times in the same instruction is with an
                // early-use and a late-def. Anything else is a user error."
                let dup_def = o.v == q.v && o.def && q.def;
                if a == b && cls(o) == cls(q) && overlap && !dup_def {
                    return Err("fixed/fixed".into());
                }
            }
            if o.v == q.v && !o.def && !q.def {
                // Documented panic: several uses of one vreg with a Stack constraint.
                if o.c == Cons::Stack || q.c == Cons::Stack {
                    return Err("multi stack use".into());
                }
            }
            if o.v == q.v && (o.def || q.def) {
                if !(o.def && q.def && p.multi_defs && multi_ok(o.c, q.c) && o.late == q.late) {
                    return Err("def+other of one vreg".into());
                }
                let fs = |c: Cons| matches!(c, Cons::Fixed(h) if e.is_fixed_stack(cls(o), h));
                if o.c == Cons::Stack
                    || (fs(o.c) && q.c == Cons::Reg)
                    || (fs(q.c) && o.c == Cons::Reg)
                {
                    return Err("contradictory defs".into());
                }
            }
        }
    }
    for &(c, h) in &i.nonalloc {
        if e.is_alloc(c, h) || e.is_fixed_stack(c, h) || e.scratch[c as usize] == Some(h) {
            return Err("nonalloc is allocatable".into());
        }
        if i.clob.contains(&(c, h)) {
            return Err("nonalloc clobbered".into());
        }
    }
    for &(c, h) in &i.clob {
        if e.is_fixed_stack(c, h) {
            return Err("fixed stack clobbered".into());
        }
    }
    Ok(())
}

fn multi_ok(a: Cons, b: Cons) -> bool {
    match (a, b) {
        (Cons::Any, Cons::Any | Cons::Reg | Cons::Fixed(_)) => true,
        (Cons::Reg, Cons::Any | Cons::Reg | Cons::Fixed(_)) => true,
        (Cons::Fixed(_), Cons::Any | Cons::Reg) => true,
        (a, b) => a == b,
    }
}
