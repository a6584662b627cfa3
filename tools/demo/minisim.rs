//! Stand-alone demonstration: allocate the function of a case file and run the
//! result on a small simulated machine next to a machine with one cell per vreg.
//! Usage: minisim CASE...   exit 0: all fine, 1: something is wrong.
use regalloc2::*;
use std::collections::HashMap;

struct F {
    insts: Vec<(Vec<Operand>, PRegSet, bool, bool)>,
    ranges: Vec<InstRange>,
    succs: Vec<Vec<Block>>,
    preds: Vec<Vec<Block>>,
    params: Vec<Vec<VReg>>,
    args: Vec<Vec<Vec<VReg>>>,
    entry: Block,
    nvregs: usize,
    dbg: Vec<(VReg, Inst, Inst, u32)>,
    slot: [usize; 3],
    by_last: bool,
    multi: bool,
}
impl Function for F {
    fn num_insts(&self) -> usize { self.insts.len() }
    fn num_blocks(&self) -> usize { self.ranges.len() }
    fn entry_block(&self) -> Block { self.entry }
    fn block_insns(&self, b: Block) -> InstRange { self.ranges[b.index()] }
    fn block_succs(&self, b: Block) -> &[Block] { &self.succs[b.index()] }
    fn block_preds(&self, b: Block) -> &[Block] { &self.preds[b.index()] }
    fn block_params(&self, b: Block) -> &[VReg] { &self.params[b.index()] }
    fn is_ret(&self, i: Inst) -> bool { self.insts[i.index()].2 }
    fn is_branch(&self, i: Inst) -> bool { self.insts[i.index()].3 }
    fn branch_blockparams(&self, b: Block, _: Inst, s: usize) -> &[VReg] { &self.args[b.index()][s] }
    fn inst_operands(&self, i: Inst) -> &[Operand] { &self.insts[i.index()].0 }
    fn inst_clobbers(&self, i: Inst) -> PRegSet { self.insts[i.index()].1 }
    fn num_vregs(&self) -> usize { self.nvregs }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] { &self.dbg }
    fn spillslot_size(&self, c: RegClass) -> usize { self.slot[c as usize] }
    fn multi_spillslot_named_by_last_slot(&self) -> bool { self.by_last }
    fn allow_multiple_vreg_defs(&self) -> bool { self.multi }
}

fn class(c: usize) -> RegClass {
    [RegClass::Int, RegClass::Float, RegClass::Vector][c]
}
fn n(s: &str) -> usize { s.parse().unwrap() }
/// "1:5" is register 5 of class 1
fn preg(s: &str) -> PReg {
    let (c, h) = s.split_once(':').unwrap();
    PReg::new(n(h), class(n(c)))
}

struct Case { f: F, env: MachineEnv, alg: Algorithm, alloc: Vec<PReg>, refuse: bool }

fn parse(text: &str) -> Case {
    let mut f = F { insts: vec![], ranges: vec![], succs: vec![], preds: vec![], params: vec![], args: vec![],
        entry: Block::new(0), nvregs: 0, dbg: vec![], slot: [1, 1, 1], by_last: false, multi: false };
    let mut env = MachineEnv { preferred_regs_by_class: [PRegSet::empty(); 3], non_preferred_regs_by_class: [PRegSet::empty(); 3],
        scratch_by_class: [None; 3], fixed_stack_slots: vec![] };
    let mut alg = Algorithm::Ion;
    let mut alloc = vec![];
    let mut cls: Vec<usize> = vec![];
    let mut refuse = false;
    let mut start = 0;
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') { continue; }
        let vr = |cls: &Vec<usize>, s: &str| VReg::new(n(s), class(cls[n(s)]));
        match w[0] {
            "algo" => alg = if w[1] == "fast" { Algorithm::Fastalloc } else { Algorithm::Ion },
            "pref" => for r in &w[1..] { let p = preg(r); env.preferred_regs_by_class[p.class() as usize].add(p); alloc.push(p) },
            "nonpref" => for r in &w[1..] { let p = preg(r); env.non_preferred_regs_by_class[p.class() as usize].add(p); alloc.push(p) },
            "scratch" => for r in &w[1..] { let p = preg(r); env.scratch_by_class[p.class() as usize] = Some(p) },
            "fixedstack" => for r in &w[1..] { env.fixed_stack_slots.push(preg(r)) },
            "slots" => for c in 0..3 { f.slot[c] = n(w[1 + c]) },
            "bylast" => f.by_last = true,
            "multidefs" => f.multi = true,
            "mayrefuse" => refuse = true,
            "entry" => f.entry = Block::new(n(w[1])),
            "vregs" => { cls = w[1..].iter().map(|s| n(s)).collect(); f.nvregs = cls.len() }
            "dbg" => f.dbg.push((vr(&cls, w[1]), Inst::new(n(w[2])), Inst::new(n(w[3])), n(w[4]) as u32)),
            "block" => { start = f.insts.len(); f.params.push(w[1..].iter().map(|s| vr(&cls, s)).collect()) }
            "inst" | "term" => {
                let (mut ops, mut clob) = (vec![], PRegSet::empty());
                for o in &w[1..] {
                    // clob=1:5  nonalloc=1:5  use|def,early|late,VREG,any|reg|stack|fixedN|reuseN|limitN
                    if let Some(r) = o.strip_prefix("clob=") { clob.add(preg(r)); continue; }
                    if let Some(r) = o.strip_prefix("nonalloc=") { ops.push(Operand::fixed_nonallocatable(preg(r))); continue; }
                    let p: Vec<&str> = o.split(',').collect();
                    let v = vr(&cls, p[2]);
                    let c = match p[3] {
                        "any" => OperandConstraint::Any,
                        "reg" => OperandConstraint::Reg,
                        "stack" => OperandConstraint::Stack,
                        s if s.starts_with("fixed") => OperandConstraint::FixedReg(PReg::new(n(&s[5..]), v.class())),
                        s if s.starts_with("reuse") => OperandConstraint::Reuse(n(&s[5..])),
                        s => OperandConstraint::Limit(n(&s[5..])),
                    };
                    ops.push(Operand::new(v, c,
                        if p[0] == "def" { OperandKind::Def } else { OperandKind::Use },
                        if p[1] == "late" { OperandPos::Late } else { OperandPos::Early }));
                }
                f.insts.push((ops, clob, false, w[0] == "term"));
            }
            // succs B(ARG,ARG) B()
            "succs" => {
                let (mut s, mut a) = (vec![], vec![]);
                for x in &w[1..] {
                    let (b, r) = x.trim_end_matches(')').split_once('(').unwrap();
                    s.push(Block::new(n(b)));
                    a.push(r.split(',').filter(|s| !s.is_empty()).map(|s| vr(&cls, s)).collect());
                }
                let l = f.insts.last_mut().unwrap();
                l.2 = s.is_empty();
                l.3 = !s.is_empty();
                f.succs.push(s);
                f.args.push(a);
                f.ranges.push(InstRange::new(Inst::new(start), Inst::new(f.insts.len())));
            }
            x => panic!("{x}?"),
        }
    }
    f.preds = vec![vec![]; f.succs.len()];
    for (b, s) in f.succs.iter().enumerate() {
        for s in s { f.preds[s.index()].push(Block::new(b)); }
    }
    Case { f, env, alg, alloc, refuse }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Val(usize, usize), Junk(usize), Clob(usize) } // Val(vreg, serial)

struct Mach<'a> { f: &'a F, env: &'a MachineEnv, out: &'a Output, regs: HashMap<PReg, T>, mem: Vec<(T, usize, usize)>, vals: Vec<Option<T>>, ctr: usize }
type R = Result<(), String>;

impl<'a> Mach<'a> {
    fn is_mem(&self, a: Allocation) -> bool {
        a.is_stack() || a.as_reg().map_or(false, |r| self.env.fixed_stack_slots.contains(&r))
    }
    fn base(&self, s: SpillSlot, c: RegClass) -> Result<(usize, usize), String> {
        let k = self.f.slot[c as usize];
        let b = if self.f.by_last { (s.index() + 1).checked_sub(k) } else { Some(s.index()) };
        match b {
            Some(b) if b + k <= self.out.num_spillslots && b % k == 0 => Ok((b, k)),
            _ => Err(format!("{s} for {c:?}: outside the frame or misaligned")),
        }
    }
    fn read(&mut self, a: Allocation, c: RegClass) -> Result<T, String> {
        if let Some(r) = a.as_reg() {
            self.ctr += 1;
            let j = T::Junk(self.ctr);
            return Ok(*self.regs.entry(r).or_insert(j));
        }
        let (b, k) = self.base(a.as_stack().ok_or("no location")?, c)?;
        let t = self.mem[b].0;
        for i in 0..k {
            if self.mem[b + i] != (t, i, k) { self.ctr += 1; return Ok(T::Junk(self.ctr)); }
        }
        Ok(t)
    }
    fn write(&mut self, a: Allocation, c: RegClass, t: T) -> R {
        if let Some(r) = a.as_reg() { self.regs.insert(r, t); return Ok(()); }
        let (b, k) = self.base(a.as_stack().ok_or("no location")?, c)?;
        for i in 0..k { self.mem[b + i] = (t, i, k); }
        Ok(())
    }
    fn inst(&mut self, i: usize) -> R {
        let (ops, clob, _, _) = &self.f.insts[i];
        let al = self.out.inst_allocs(Inst::new(i));
        let mut new: HashMap<usize, T> = HashMap::new();
        for o in ops.iter().filter(|o| o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none()) {
            self.ctr += 1;
            let t = T::Val(o.vreg().vreg(), self.ctr);
            new.entry(o.vreg().vreg()).or_insert(t);
        }
        let sel = |k: OperandKind, p: OperandPos| {
            let ops = ops.clone();
            (0..ops.len()).filter(move |&x| ops[x].kind() == k && ops[x].pos() == p && ops[x].as_fixed_nonallocatable().is_none())
        };
        use {OperandKind::*, OperandPos::*};
        for x in sel(Def, Early) { self.write(al[x], ops[x].class(), new[&ops[x].vreg().vreg()])?; }
        for x in sel(Use, Early) { self.check(i, x)?; }
        for x in sel(Use, Late) { self.check(i, x)?; }
        for c in 0..3 {
            if let Some(p) = self.env.scratch_by_class[c] { self.regs.insert(p, T::Clob(i)); }
        }
        for x in sel(Def, Late) { self.write(al[x], ops[x].class(), new[&ops[x].vreg().vreg()])?; }
        for x in sel(Use, Late) { self.check(i, x)?; }
        for p in *clob {
            let def = (0..ops.len()).any(|x| ops[x].kind() == Def && al[x].as_reg() == Some(p));
            if !def { self.regs.insert(p, T::Clob(i)); }
        }
        for x in sel(Use, Late) { self.check(i, x)?; }
        for (v, t) in new { self.vals[v] = Some(t); }
        for x in 0..ops.len() {
            let o = ops[x];
            if o.kind() == Def && o.as_fixed_nonallocatable().is_none() {
                let t = self.read(al[x], o.class())?;
                if Some(t) != self.vals[o.vreg().vreg()] { return Err(format!("inst{i}: def {o} in {} is lost", al[x])); }
            }
        }
        Ok(())
    }
    fn check(&mut self, i: usize, x: usize) -> R {
        let o = self.f.insts[i].0[x];
        let a = self.out.inst_allocs(Inst::new(i))[x];
        let t = self.read(a, o.class())?;
        if Some(t) != self.vals[o.vreg().vreg()] {
            return Err(format!("inst{i}: {o} reads {a} = {t:?}, expected {:?}", self.vals[o.vreg().vreg()]));
        }
        Ok(())
    }
}

fn run(c: &Case, validate: bool) -> R {
    let f = &c.f;
    let opts = RegallocOptions { verbose_log: false, validate_ssa: validate, algorithm: c.alg };
    let out = match regalloc2::run(f, &c.env, &opts) {
        Ok(o) => o,
        Err(RegAllocError::TooManyLiveRegs) if c.refuse => return Ok(()),
        Err(e) => return Err(format!("refused: {e:?}")),
    };
    let mut m = Mach { f, env: &c.env, out: &out, regs: HashMap::new(), mem: vec![], vals: vec![], ctr: 0 };
    // the output as such
    let granted = |r: PReg| c.alloc.contains(&r) || c.env.fixed_stack_slots.contains(&r);
    for w in out.edits.windows(2) {
        if w[0].0 > w[1].0 { return Err("edits are not sorted".into()); }
    }
    for (pt, e) in &out.edits {
        let Edit::Move { from, to } = *e;
        if m.is_mem(from) && m.is_mem(to) && from != to { return Err(format!("{e:?}: stack to stack")); }
        if pt.pos() == InstPosition::After && (f.insts[pt.inst().index()].2 || f.insts[pt.inst().index()].3) {
            return Err(format!("{e:?} after the terminator inst{}", pt.inst().index()));
        }
        if let (Some(a), Some(b)) = (from.as_reg(), to.as_reg()) {
            if a.class() != b.class() { return Err(format!("{e:?} across classes")); }
        }
        for r in [from, to].iter().filter_map(|a| a.as_reg()) {
            if !granted(r) && c.env.scratch_by_class[r.class() as usize] != Some(r) { return Err(format!("{e:?} uses {r}")); }
        }
    }
    for i in 0..f.insts.len() {
        let al = out.inst_allocs(Inst::new(i));
        if al.len() != f.insts[i].0.len() { return Err(format!("inst{i}: {} locations", al.len())); }
        for (x, o) in f.insts[i].0.iter().enumerate() {
            let a = al[x];
            let reg = a.as_reg().filter(|_| !m.is_mem(a));
            let ok = match o.constraint() {
                OperandConstraint::Any => !a.is_none(),
                OperandConstraint::Reg => reg.is_some(),
                OperandConstraint::Stack => m.is_mem(a),
                OperandConstraint::FixedReg(r) => a.as_reg() == Some(r),
                OperandConstraint::Reuse(t) => al[t] == a && reg.is_some(),
                OperandConstraint::Limit(l) => reg.map_or(false, |r| r.hw_enc() < l),
            };
            let g = a.as_reg().map_or(true, |r| o.as_fixed_nonallocatable().is_some() || (granted(r) && r.class() == o.class()));
            if !ok || !g { return Err(format!("inst{i}: {o} put in {a}")); }
        }
    }
    // debug locations
    let dl = &out.debug_locations;
    for w in dl.windows(2) {
        if w[0].0 > w[1].0 || (w[0].0 == w[1].0 && (w[0].1 > w[1].1 || w[0].2 > w[1].1)) { return Err(format!("debug locations {w:?}")); }
    }
    let mut at: HashMap<u32, Vec<(usize, Allocation, u32)>> = HashMap::new();
    for &(l, a, b, loc) in dl {
        for p in a.to_index()..b.to_index() {
            match f.dbg.iter().find(|d| d.3 == l && d.1.index() as u32 * 2 <= p && p < d.2.index() as u32 * 2) {
                Some(d) => at.entry(p).or_default().push((d.0.vreg(), loc, l)),
                None if matches!(c.alg, Algorithm::Ion) => return Err(format!("label {l} at point {p}: not asked for")),
                None => (),
            }
        }
    }
    // executions
    let mut seed = 1u64;
    let mut rnd = |k: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) as usize % k
    };
    for _ in 0..300 {
        m.regs.clear();
        m.mem = (0..out.num_spillslots).map(|i| (T::Junk(1_000_000 + i), 0, 0)).collect();
        m.vals = vec![None; f.nvregs];
        let mut b = f.entry;
        for _ in 0..60 {
            for x in out.block_insts_and_edits(f, b) {
                match x {
                    InstOrEdit::Edit(&Edit::Move { from, to }) => {
                        if from == to { continue; }
                        let k = from.as_reg().or(to.as_reg()).ok_or("move between slots")?.class();
                        let t = m.read(from, k)?;
                        m.write(to, k, t)?;
                    }
                    InstOrEdit::Inst(i) => {
                        for late in 0..2 {
                            if late == 1 {
                                m.inst(i.index())?;
                                if f.insts[i.index()].2 || f.insts[i.index()].3 { break; }
                            }
                            for &(v, loc, l) in at.get(&(i.index() as u32 * 2 + late)).unwrap_or(&vec![]) {
                                let k = f.insts.iter().flat_map(|x| &x.0).map(|o| o.vreg())
                                    .chain(f.params.iter().flatten().copied()).find(|x| x.vreg() == v).unwrap().class();
                                let t = m.read(loc, k)?;
                                if m.vals[v].is_some() && Some(t) != m.vals[v] || (m.vals[v].is_none() && matches!(c.alg, Algorithm::Ion)) {
                                    return Err(format!("stopped at inst{}+{late}: label {l} (v{v}) in {loc} = {t:?}, expected {:?}", i.index(), m.vals[v]));
                                }
                            }
                        }
                    }
                }
            }
            let s = &f.succs[b.index()];
            if s.is_empty() { break; }
            let k = rnd(s.len());
            let a: Vec<_> = f.args[b.index()][k].iter().map(|v| m.vals[v.vreg()]).collect();
            b = s[k];
            for (p, t) in f.params[b.index()].iter().zip(a) { m.vals[p.vreg()] = t; }
        }
    }
    Ok(())
}

fn main() {
    let mut bad = false;
    for p in std::env::args().skip(1) {
        let c = parse(&std::fs::read_to_string(&p).unwrap());
        for v in [true, false] {
            match std::panic::catch_unwind(|| run(&c, v)) {
                Ok(Ok(())) => println!("{p}: fine"),
                Ok(Err(e)) => { println!("{p}: WRONG: {e}"); bad = true }
                Err(_) => { println!("{p}: WRONG: panic"); bad = true }
            }
        }
    }
    std::process::exit(bad as i32);
}
