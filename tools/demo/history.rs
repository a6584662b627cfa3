//! Stand-alone demonstration: allocate the functions of several case files in one
//! context.
#![allow(dead_code)]
use regalloc2::*;

struct F {
    insts: Vec<(Vec<Operand>, PRegSet, bool, bool)>,
    ranges: Vec<InstRange>,
    succs: Vec<Vec<Block>>,
    preds: Vec<Vec<Block>>,
    params: Vec<Vec<VReg>>,
    args: Vec<Vec<Vec<VReg>>>,
    entry: Block,
    nvregs: usize,
    dbg: Vec<(VReg, Inst, Inst, u32)>,
    slot: [usize; 3],
    by_last: bool,
    multi: bool,
    fuse: std::cell::Cell<i64>,
}
impl Function for F {
    fn num_insts(&self) -> usize { self.insts.len() }
    fn num_blocks(&self) -> usize { self.ranges.len() }
    fn entry_block(&self) -> Block { self.entry }
    fn block_insns(&self, b: Block) -> InstRange { self.ranges[b.index()] }
    fn block_succs(&self, b: Block) -> &[Block] { &self.succs[b.index()] }
    fn block_preds(&self, b: Block) -> &[Block] { &self.preds[b.index()] }
    fn block_params(&self, b: Block) -> &[VReg] { &self.params[b.index()] }
    fn is_ret(&self, i: Inst) -> bool { self.insts[i.index()].2 }
    fn is_branch(&self, i: Inst) -> bool { self.insts[i.index()].3 }
    fn branch_blockparams(&self, b: Block, _: Inst, s: usize) -> &[VReg] { &self.args[b.index()][s] }
    fn inst_operands(&self, i: Inst) -> &[Operand] {
        self.fuse.set(self.fuse.get() - 1);
        if self.fuse.get() == 0 { panic!("the client panics") }
        &self.insts[i.index()].0 }
    fn inst_clobbers(&self, i: Inst) -> PRegSet { self.insts[i.index()].1 }
    fn num_vregs(&self) -> usize { self.nvregs }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] { &self.dbg }
    fn spillslot_size(&self, c: RegClass) -> usize { self.slot[c as usize] }
    fn multi_spillslot_named_by_last_slot(&self) -> bool { self.by_last }
    fn allow_multiple_vreg_defs(&self) -> bool { self.multi }
}

fn class(c: usize) -> RegClass {
    [RegClass::Int, RegClass::Float, RegClass::Vector][c]
}
fn n(s: &str) -> usize { s.parse().unwrap() }
/// "1:5" is register 5 of class 1
fn preg(s: &str) -> PReg {
    let (c, h) = s.split_once(':').unwrap();
    PReg::new(n(h), class(n(c)))
}

struct Case { f: F, env: MachineEnv, alg: Algorithm, alloc: Vec<PReg>, refuse: bool, validate: bool }

fn parse(text: &str) -> Case {
    let mut f = F { insts: vec![], ranges: vec![], succs: vec![], preds: vec![], params: vec![], args: vec![],
        entry: Block::new(0), nvregs: 0, dbg: vec![], slot: [1, 1, 1], by_last: false, multi: false, fuse: std::cell::Cell::new(-1) };
    let mut env = MachineEnv { preferred_regs_by_class: [PRegSet::empty(); 3], non_preferred_regs_by_class: [PRegSet::empty(); 3],
        scratch_by_class: [None; 3], fixed_stack_slots: vec![] };
    let mut alg = Algorithm::Ion;
    let mut alloc = vec![];
    let mut cls: Vec<usize> = vec![];
    let mut refuse = false;
    let mut validate = false;
    let mut start = 0;
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') { continue; }
        let vr = |cls: &Vec<usize>, s: &str| VReg::new(n(s), class(cls[n(s)]));
        match w[0] {
            "algo" => alg = if w[1] == "fast" { Algorithm::Fastalloc } else { Algorithm::Ion },
            "pref" => for r in &w[1..] { let p = preg(r); env.preferred_regs_by_class[p.class() as usize].add(p); alloc.push(p) },
            "nonpref" => for r in &w[1..] { let p = preg(r); env.non_preferred_regs_by_class[p.class() as usize].add(p); alloc.push(p) },
            "scratch" => for r in &w[1..] { let p = preg(r); env.scratch_by_class[p.class() as usize] = Some(p) },
            "fixedstack" => for r in &w[1..] { env.fixed_stack_slots.push(preg(r)) },
            "slots" => for c in 0..3 { f.slot[c] = n(w[1 + c]) },
            "bylast" => f.by_last = true,
            "multidefs" => f.multi = true,
            "mayrefuse" => refuse = true,
            "fuse" => f.fuse.set(n(w[1]) as i64),
            "validate" => validate = true,
            "entry" => f.entry = Block::new(n(w[1])),
            "vregs" => { cls = w[1..].iter().map(|s| n(s)).collect(); f.nvregs = cls.len() }
            "dbg" => f.dbg.push((vr(&cls, w[1]), Inst::new(n(w[2])), Inst::new(n(w[3])), n(w[4]) as u32)),
            "block" => { start = f.insts.len(); f.params.push(w[1..].iter().map(|s| vr(&cls, s)).collect()) }
            "inst" | "term" => {
                let (mut ops, mut clob) = (vec![], PRegSet::empty());
                for o in &w[1..] {
                    // clob=1:5  nonalloc=1:5  use|def,early|late,VREG,any|reg|stack|fixedN|reuseN|limitN
                    if let Some(r) = o.strip_prefix("clob=") { clob.add(preg(r)); continue; }
                    if let Some(r) = o.strip_prefix("nonalloc=") { ops.push(Operand::fixed_nonallocatable(preg(r))); continue; }
                    let p: Vec<&str> = o.split(',').collect();
                    let v = vr(&cls, p[2]);
                    let c = match p[3] {
                        "any" => OperandConstraint::Any,
                        "reg" => OperandConstraint::Reg,
                        "stack" => OperandConstraint::Stack,
                        s if s.starts_with("fixed") => OperandConstraint::FixedReg(PReg::new(n(&s[5..]), v.class())),
                        s if s.starts_with("reuse") => OperandConstraint::Reuse(n(&s[5..])),
                        s => OperandConstraint::Limit(n(&s[5..])),
                    };
                    ops.push(Operand::new(v, c,
                        if p[0] == "def" { OperandKind::Def } else { OperandKind::Use },
                        if p[1] == "late" { OperandPos::Late } else { OperandPos::Early }));
                }
                f.insts.push((ops, clob, false, w[0] == "term"));
            }
            // succs B(ARG,ARG) B()
            "succs" => {
                let (mut s, mut a) = (vec![], vec![]);
                for x in &w[1..] {
                    let (b, r) = x.trim_end_matches(')').split_once('(').unwrap();
                    s.push(Block::new(n(b)));
                    a.push(r.split(',').filter(|s| !s.is_empty()).map(|s| vr(&cls, s)).collect());
                }
                let l = f.insts.last_mut().unwrap();
                l.2 = s.is_empty();
                l.3 = !s.is_empty();
                f.succs.push(s);
                f.args.push(a);
                f.ranges.push(InstRange::new(Inst::new(start), Inst::new(f.insts.len())));
            }
            x => panic!("{x}?"),
        }
    }
    f.preds = vec![vec![]; f.succs.len()];
    for (b, s) in f.succs.iter().enumerate() {
        for s in s { f.preds[s.index()].push(Block::new(b)); }
    }
    Case { f, env, alg, alloc, refuse, validate }
}

fn main() {
    // The cases are allocated one after the other in one context; each result
    // must be that of a fresh context.
    let mut ctx = Ctx::default();
    let mut bad = false;
    for p in std::env::args().skip(1) {
        let c = parse(&std::fs::read_to_string(&p).unwrap());
        let opts = RegallocOptions { verbose_log: false, validate_ssa: c.validate, algorithm: c.alg };
        let f = &c.f;
        let show = |r: Result<Output, RegAllocError>| match r {
            Ok(o) => format!("{o:?}"),
            Err(e) => format!("{e:?}"),
        };
        if f.fuse.get() > 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_with_ctx(f, &c.env, &opts, &mut ctx).is_ok()));
            println!("{p}: {}", if r.is_err() { "aborted" } else { "finished" });
            continue;
        }
        let fresh = show(regalloc2::run(f, &c.env, &opts));
        let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(run_with_ctx(f, &c.env, &opts, &mut ctx).map(|o| o.clone()))));
        match again {
            Ok(a) if a == fresh => println!("{p}: same"),
            Ok(a) => { println!("{p}: DIFFERENT\n{fresh}\n{a}"); bad = true }
            Err(_) => { println!("{p}: PANIC"); bad = true }
        }
    }
    std::process::exit(bad as i32);
}
