//! Client mistakes: ways in which a client may hand over an ill-formed
//! function, each with the error documented for it.

use crate::prog::*;
use crate::rng::Rng;
use regalloc2::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MKind {
    /// An operand uses a vreg whose definition does not dominate it.
    UseUndominated,
    /// A branch argument likewise.
    ArgUndominated,
    /// An operand uses a vreg that is never defined.
    UseUndefined,
    ArgUndefined,
    /// An operand uses a vreg beyond `num_vregs`.
    UseMisnumbered,
    ArgMisnumbered,
    DefMisnumbered,
    ParamMisnumbered,
    /// Another instruction defines an already defined vreg.
    SecondDef,
    /// The same instruction defines it again, with that not being allowed.
    SecondDefSameInst,
    /// A block parameter is a vreg defined elsewhere, too.
    ParamAndDef,
    NoTerminator,
    BranchInMiddle,
    RetInMiddle,
    ArgMissing,
    ArgExtra,
    CritEdge,
    BranchOperand,
    EntryParam,
    TooManyOperands,
}

pub const ALL: &[MKind] = &[
    MKind::UseUndominated,
    MKind::ArgUndominated,
    MKind::UseUndefined,
    MKind::ArgUndefined,
    MKind::UseMisnumbered,
    MKind::ArgMisnumbered,
    MKind::DefMisnumbered,
    MKind::ParamMisnumbered,
    MKind::SecondDef,
    MKind::SecondDefSameInst,
    MKind::ParamAndDef,
    MKind::NoTerminator,
    MKind::BranchInMiddle,
    MKind::RetInMiddle,
    MKind::ArgMissing,
    MKind::ArgExtra,
    MKind::CritEdge,
    MKind::BranchOperand,
    MKind::EntryParam,
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exp {
    Ssa(Option<u32>, Option<u32>),
    Bb(Option<u32>),
    Branch(u32),
    Crit(u32, Option<u32>),
    Disallowed(u32),
    EntryLivein,
    TooManyOperands,
}

impl Exp {
    pub fn matches(&self, e: &RegAllocError) -> bool {
        match (self, e) {
            (Exp::Ssa(v, i), RegAllocError::SSA(w, j)) => {
                v.map_or(true, |v| v as usize == w.vreg())
                    && i.map_or(true, |i| i as usize == j.index())
            }
            (Exp::Bb(b), RegAllocError::BB(c)) => b.map_or(true, |b| b as usize == c.index()),
            (Exp::Branch(i), RegAllocError::Branch(j)) => *i as usize == j.index(),
            (Exp::Crit(a, b), RegAllocError::CritEdge(c, d)) => {
                *a as usize == c.index() && b.map_or(true, |b| b as usize == d.index())
            }
            (Exp::Disallowed(i), RegAllocError::DisallowedBranchArg(j)) => *i as usize == j.index(),
            (Exp::EntryLivein, RegAllocError::EntryLivein) => true,
            (Exp::TooManyOperands, RegAllocError::TooManyOperands) => true,
            _ => false,
        }
    }
}

/// The ill-formed function: the program plus terminator flags set by hand.
#[derive(Clone, Debug)]
pub struct Broken {
    pub p: Prog,
    /// (instruction, is_ret, is_branch)
    pub flags: Vec<(u32, bool, bool)>,
    /// Any of these answers is right.
    pub expect: Vec<Exp>,
    pub what: String,
}

impl Broken {
    pub fn lower<G: Gate>(&self, g: G) -> SimFunc<G> {
        let mut f = self.p.lower_with(g);
        for &(i, r, b) in &self.flags {
            f.insts[i as usize].2 = r;
            f.insts[i as usize].3 = b;
        }
        // a vreg beyond num_vregs has an entry in vclass only
        f.nvregs = f.nvregs.min(self.nvregs());
        f
    }
    fn nvregs(&self) -> usize {
        if self.what.starts_with("misnumbered") {
            self.p.vclass.len() - 1
        } else {
            self.p.vclass.len()
        }
    }
}

struct Info {
    dom: Vec<Vec<bool>>,
    def: Vec<Option<(usize, usize)>>,
    first: Vec<u32>,
}

impl Info {
    fn new(p: &Prog) -> Info {
        let dom = dominators(p).unwrap();
        let mut def = vec![None; p.vclass.len()];
        let mut first = vec![];
        let mut n = 0;
        for (b, bl) in p.blocks.iter().enumerate() {
            first.push(n);
            n += bl.ins.len() as u32 + 1;
            for &v in &bl.params {
                def[v as usize] = Some((b, 0));
            }
            for (k, i) in bl.ins.iter().chain(std::iter::once(&bl.term)).enumerate() {
                for o in i.ops.iter().filter(|o| o.def) {
                    def[o.v as usize] = Some((b, k + 1));
                }
            }
        }
        Info { dom, def, first }
    }
    fn ok(&self, v: u32, b: usize, k: usize) -> bool {
        match self.def[v as usize] {
            None => false,
            Some((bb, kk)) if bb == b => kk < k,
            Some((bb, _)) => self.dom[b][bb],
        }
    }
    fn inst(&self, b: usize, k: usize) -> u32 {
        self.first[b] + k as u32
    }
}

fn ins_at(p: &mut Prog, b: usize, k: usize) -> &mut Ins {
    let bl = &mut p.blocks[b];
    if k == bl.ins.len() {
        &mut bl.term
    } else {
        &mut bl.ins[k]
    }
}

/// Put one mistake of the given kind into `p`, at a place chosen by `seed`.
pub fn inject(p: &Prog, kind: MKind, seed: u64) -> Option<Broken> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let inf = Info::new(p);
    let mut q = p.clone();
    let mut flags = vec![];
    let mut expect = vec![];
    let what;
    let pc = pred_counts(p);
    let nb = p.blocks.len();
    // all operand and argument sites
    let mut uses = vec![];
    let mut defs = vec![];
    let mut args = vec![];
    let mut all_ins = vec![];
    for (b, bl) in p.blocks.iter().enumerate() {
        for (k, i) in bl.ins.iter().chain(std::iter::once(&bl.term)).enumerate() {
            // A branch to a join must stay without operands.
            let open = k < bl.ins.len() || bl.succs.iter().all(|s| pc[s.0 as usize] == 1);
            if open {
                all_ins.push((b, k));
            }
            for (x, o) in i.ops.iter().enumerate() {
                if o.def {
                    defs.push((b, k, x));
                } else {
                    uses.push((b, k, x));
                }
            }
        }
        for (s, (_, a)) in bl.succs.iter().enumerate() {
            for x in 0..a.len() {
                args.push((b, s, x));
            }
        }
    }
    macro_rules! pick {
        ($v:expr) => {{
            if $v.is_empty() {
                return None;
            }
            *r.pick(&$v)
        }};
    }
    match kind {
        MKind::UseUndominated => {
            let mut c = vec![];
            for &(b, k, x) in &uses {
                let cls = p.vclass[ins_at(&mut q, b, k).ops[x].v as usize];
                for v in 0..p.vclass.len() as u32 {
                    if p.vclass[v as usize] == cls
                        && inf.def[v as usize].is_some()
                        && !inf.ok(v, b, k + 1)
                    {
                        c.push((b, k, x, v));
                    }
                }
                if c.len() > 4000 {
                    break;
                }
            }
            let (b, k, x, v) = pick!(c);
            ins_at(&mut q, b, k).ops[x].v = v;
            expect.push(Exp::Ssa(Some(v), Some(inf.inst(b, k))));
            what = format!("inst{} uses v{v}, whose definition does not dominate it", inf.inst(b, k));
        }
        MKind::ArgUndominated => {
            let mut c = vec![];
            for &(b, s, x) in &args {
                let kt = p.blocks[b].ins.len();
                let cls = p.vclass[p.blocks[b].succs[s].1[x] as usize];
                for v in 0..p.vclass.len() as u32 {
                    if p.vclass[v as usize] == cls
                        && inf.def[v as usize].is_some()
                        && !inf.ok(v, b, kt + 2)
                    {
                        c.push((b, s, x, v));
                    }
                }
                if c.len() > 4000 {
                    break;
                }
            }
            let (b, s, x, v) = pick!(c);
            q.blocks[b].succs[s].1[x] = v;
            let i = inf.inst(b, p.blocks[b].ins.len());
            expect.push(Exp::Ssa(Some(v), Some(i)));
            expect.push(Exp::EntryLivein);
            what = format!("inst{i} passes v{v}, whose definition does not dominate it, to a block parameter");
        }
        MKind::UseUndefined | MKind::UseMisnumbered => {
            let (b, k, x) = pick!(uses);
            let cls = p.vclass[ins_at(&mut q, b, k).ops[x].v as usize];
            let v = q.vclass.len() as u32;
            q.vclass.push(cls);
            ins_at(&mut q, b, k).ops[x].v = v;
            if kind == MKind::UseUndefined {
                expect.push(Exp::Ssa(Some(v), Some(inf.inst(b, k))));
                what = format!("inst{} uses v{v}, which is not defined", inf.inst(b, k));
            } else {
                expect.push(Exp::Ssa(Some(v), Some(inf.inst(b, k))));
                expect.push(Exp::Bb(None));
                what = format!("misnumbered: inst{} uses v{v}", inf.inst(b, k));
            }
        }
        MKind::ArgUndefined | MKind::ArgMisnumbered => {
            let (b, s, x) = pick!(args);
            let cls = p.vclass[p.blocks[b].succs[s].1[x] as usize];
            let v = q.vclass.len() as u32;
            q.vclass.push(cls);
            q.blocks[b].succs[s].1[x] = v;
            let i = inf.inst(b, p.blocks[b].ins.len());
            expect.push(Exp::Ssa(Some(v), Some(i)));
            if kind == MKind::ArgUndefined {
                expect.push(Exp::EntryLivein);
                what = format!("inst{i} passes v{v}, which is not defined");
            } else {
                expect.push(Exp::Bb(None));
                what = format!("misnumbered: inst{i} passes v{v}");
            }
        }
        MKind::DefMisnumbered => {
            let (b, k) = pick!(all_ins);
            let v = q.vclass.len() as u32;
            q.vclass.push(r.below(3) as u8);
            ins_at(&mut q, b, k).ops.push(Opnd { v, c: Cons::Any, def: true, late: true });
            expect.push(Exp::Ssa(Some(v), Some(inf.inst(b, k))));
            expect.push(Exp::Bb(None));
            what = format!("misnumbered: inst{} defines v{v}", inf.inst(b, k));
        }
        MKind::ParamMisnumbered => {
            let mut c = vec![];
            for (b, bl) in p.blocks.iter().enumerate() {
                for x in 0..bl.params.len() {
                    c.push((b, x));
                }
            }
            let (b, x) = pick!(c);
            let v = q.vclass.len() as u32;
            q.vclass.push(p.vclass[p.blocks[b].params[x] as usize]);
            q.blocks[b].params[x] = v;
            expect.push(Exp::Ssa(None, None));
            expect.push(Exp::Bb(None));
            what = format!("misnumbered: block{b} has parameter v{v}");
        }
        MKind::SecondDef => {
            let (b, k) = pick!(all_ins);
            let c: Vec<u32> = (0..p.vclass.len() as u32)
                .filter(|&v| matches!(inf.def[v as usize], Some(d) if d != (b, k + 1)))
                .collect();
            let v = pick!(c);
            let at = r.below(ins_at(&mut q, b, k).ops.len() + 1);
            let late = r.pct(70);
            ins_at(&mut q, b, k).ops.insert(at, Opnd { v, c: Cons::Any, def: true, late });
            expect.push(Exp::Ssa(Some(v), None));
            what = format!("inst{} defines v{v} again", inf.inst(b, k));
        }
        MKind::SecondDefSameInst => {
            if p.multi_defs {
                return None;
            }
            let (b, k, x) = pick!(defs);
            let o = ins_at(&mut q, b, k).ops[x];
            ins_at(&mut q, b, k).ops.push(Opnd { v: o.v, c: Cons::Any, def: true, late: true });
            expect.push(Exp::Ssa(Some(o.v), Some(inf.inst(b, k))));
            what = format!("inst{} defines v{} twice", inf.inst(b, k), o.v);
        }
        MKind::ParamAndDef => {
            let mut c = vec![];
            for (b, bl) in p.blocks.iter().enumerate() {
                for x in 0..bl.params.len() {
                    c.push((b, x));
                }
            }
            let (b, x) = pick!(c);
            let old = p.blocks[b].params[x];
            let c: Vec<u32> = (0..p.vclass.len() as u32)
                .filter(|&v| v != old && inf.def[v as usize].is_some() && p.vclass[v as usize] == p.vclass[old as usize])
                .collect();
            let v = pick!(c);
            q.blocks[b].params[x] = v;
            expect.push(Exp::Ssa(Some(v), None));
            what = format!("block{b} has parameter v{v}, which is defined elsewhere, too");
        }
        MKind::NoTerminator => {
            let b = r.below(nb);
            let i = inf.inst(b, p.blocks[b].ins.len());
            flags.push((i, false, false));
            expect.push(Exp::Bb(Some(b as u32)));
            what = format!("block{b} ends in neither a branch nor a return");
        }
        MKind::BranchInMiddle | MKind::RetInMiddle => {
            let c: Vec<usize> = (0..nb).filter(|&b| !p.blocks[b].ins.is_empty()).collect();
            let b = pick!(c);
            let i = inf.inst(b, r.below(p.blocks[b].ins.len()));
            let br = kind == MKind::BranchInMiddle;
            flags.push((i, !br, br));
            expect.push(Exp::Bb(Some(b as u32)));
            what = format!("inst{i} in the middle of block{b} is a {}", if br { "branch" } else { "return" });
        }
        MKind::ArgMissing => {
            let (b, s, x) = pick!(args);
            q.blocks[b].succs[s].1.remove(x);
            let i = inf.inst(b, p.blocks[b].ins.len());
            expect.push(Exp::Branch(i));
            what = format!("inst{i} passes too few arguments to successor {s}");
        }
        MKind::ArgExtra => {
            let mut c = vec![];
            for (b, bl) in p.blocks.iter().enumerate() {
                for s in 0..bl.succs.len() {
                    c.push((b, s));
                }
            }
            let (b, s) = pick!(c);
            let kt = p.blocks[b].ins.len();
            let c: Vec<u32> = (0..p.vclass.len() as u32).filter(|&v| inf.ok(v, b, kt + 1)).collect();
            let v = pick!(c);
            let at = r.below(p.blocks[b].succs[s].1.len() + 1);
            q.blocks[b].succs[s].1.insert(at, v);
            let i = inf.inst(b, kt);
            expect.push(Exp::Branch(i));
            what = format!("inst{i} passes too many arguments to successor {s}");
        }
        MKind::CritEdge => {
            // Another successor for a block with some already, to a block
            // which has predecessors.
            let c: Vec<usize> = (0..nb).filter(|&b| !p.blocks[b].succs.is_empty()).collect();
            let b = pick!(c);
            let c: Vec<u32> = (0..nb as u32).filter(|&t| pc[t as usize] > 0).collect();
            let t = pick!(c);
            let mut a = vec![];
            let kt = p.blocks[b].ins.len();
            for &q in &p.blocks[t as usize].params {
                let c: Vec<u32> = (0..p.vclass.len() as u32)
                    .filter(|&v| inf.ok(v, b, kt + 1) && p.vclass[v as usize] == p.vclass[q as usize])
                    .collect();
                a.push(pick!(c));
            }
            let at = r.below(p.blocks[b].succs.len() + 1);
            q.blocks[b].succs.insert(at, (t, a));
            // The new successor has several predecessors now, as may have the
            // ones there were.
            let joins = q.blocks[b].succs.iter().filter(|s| pc[s.0 as usize] > 1).count();
            expect.push(Exp::Crit(b as u32, if joins == 0 { Some(t) } else { None }));
            // other predecessors of t may have several successors, too
            for (o, bl) in p.blocks.iter().enumerate() {
                if bl.succs.len() > 1 && bl.succs.iter().any(|s| s.0 == t) {
                    expect.push(Exp::Crit(o as u32, Some(t)));
                }
                // their branches may have operands
                if bl.succs.iter().any(|s| s.0 == t) && !(bl.term.ops.is_empty() && bl.term.nonalloc.is_empty()) {
                    expect.push(Exp::Disallowed(inf.inst(o, bl.ins.len())));
                }
            }
            let bt = &p.blocks[b].term;
            if !(bt.ops.is_empty() && bt.nonalloc.is_empty()) {
                expect.push(Exp::Disallowed(inf.inst(b, kt)));
            }
            what = format!("block{b} gets successor block{t}");
        }
        MKind::BranchOperand => {
            let c: Vec<usize> = (0..nb)
                .filter(|&b| p.blocks[b].succs.iter().any(|s| pc[s.0 as usize] > 1))
                .collect();
            let b = pick!(c);
            let kt = p.blocks[b].ins.len();
            let c: Vec<u32> = (0..p.vclass.len() as u32).filter(|&v| inf.ok(v, b, kt + 1)).collect();
            let i = inf.inst(b, kt);
            if c.is_empty() || r.pct(30) {
                let v = q.vclass.len() as u32;
                q.vclass.push(r.below(3) as u8);
                q.blocks[b].term.ops.push(Opnd { v, c: Cons::Any, def: true, late: true });
            } else {
                let v = pick!(c);
                q.blocks[b].term.ops.push(Opnd { v, c: Cons::Any, def: false, late: false });
            }
            expect.push(Exp::Disallowed(i));
            what = format!("inst{i}, a branch to a join, gets an operand");
        }
        MKind::EntryParam => {
            let v = q.vclass.len() as u32;
            q.vclass.push(r.below(3) as u8);
            let e = p.entry as usize;
            q.blocks[e].params.push(v);
            expect.push(Exp::Bb(Some(p.entry)));
            // a branch back to the entry passes too few arguments then
            for (b, bl) in p.blocks.iter().enumerate() {
                if bl.succs.iter().any(|s| s.0 == p.entry) {
                    expect.push(Exp::Branch(inf.inst(b, bl.ins.len())));
                }
            }
            what = format!("the entry block has parameter v{v}");
        }
        MKind::TooManyOperands => {
            let (b, k) = pick!(all_ins);
            let c: Vec<u32> = (0..p.vclass.len() as u32)
                .filter(|&v| inf.ok(v, b, k + 1) && ins_at(&mut q, b, k).ops.iter().all(|o| o.v != v))
                .collect();
            let v = pick!(c);
            let n = 65_537 + r.below(3);
            let ops = &mut ins_at(&mut q, b, k).ops;
            while ops.len() < n {
                ops.push(Opnd { v, c: Cons::Any, def: false, late: false });
            }
            expect.push(Exp::TooManyOperands);
            what = format!("inst{} has {n} operands", inf.inst(b, k));
        }
    }
    Some(Broken { p: q, flags, expect, what })
}
