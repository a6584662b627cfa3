//! Workload generation: swarm-configured random environments and functions.
//! Everything is drawn from the run's PRNG.

use crate::prog::*;
use crate::rng::Rng;

/// Per-run knobs; each run draws its own (swarm style).
#[derive(Clone, Debug)]
pub struct Knobs {
    pub lim: Limits,
    /// May the function legitimately need more registers than there are?
    pub tight: bool,
    pub nblocks: usize,
    pub ins_per_block: usize,
    pub max_uses: usize,
    pub max_defs: usize,
    pub w_any: usize,
    pub w_reg: usize,
    pub w_fixed: usize,
    pub w_stack: usize,
    pub w_limit: usize,
    pub pct_reuse: u32,
    pub pct_late_use: u32,
    pub pct_early_def: u32,
    pub pct_clob: u32,
    pub pct_call: u32,
    pub pct_nonalloc: u32,
    pub pct_fixed_stack: u32,
    pub pct_branch_ops: u32,
    pub pct_params: u32,
    pub max_params: usize,
    pub pct_param_shuffle: u32,
    pub pct_dup_use: u32,
    pub pct_far: u32,
    pub pct_move_like: u32,
    pub entry_defs: usize,
    pub extra_edges: usize,
    pub pct_loop: u32,
    pub reorder: bool,
    pub labels: usize,
    pub classes: Vec<u8>,
    pub multi_defs: bool,
    pub max_succs: usize,
    /// Permille of instructions with very many operands.
    pub pm_wide: u32,
    /// Distance between vreg indices (1: dense).
    pub vreg_stride: usize,
}

pub fn gen_env(r: &mut Rng, classes: &[u8], min_regs: usize) -> Env {
    let mut e = Env::default();
    let style = r.below(10);
    for c in 0..3u8 {
        if !classes.contains(&c) && r.pct(60) {
            continue;
        }
        let k = match style {
            0 | 1 => {
                if r.pct(10) {
                    r.range(33, 54)
                } else {
                    32
                }
            }
            2 | 3 => r.range(12, 24),
            4 | 5 | 6 => r.range(6, 11),
            _ => r.range(3, 7),
        }
        .max(min_regs);
        // integer register 63 is the encoding of "no register"
        let mut hws: Vec<u8> = (0..if c == 0 { 63 } else { 64 }).collect();
        if r.pct(40) {
            r.shuffle(&mut hws);
        }
        let take: Vec<u8> = hws.drain(..k).collect();
        let split = match r.below(4) {
            0 => k,
            1 => k * 3 / 4,
            2 => k / 2,
            _ => r.below(k + 1),
        };
        e.pref[c as usize] = take[..split].to_vec();
        e.nonpref[c as usize] = take[split..].to_vec();
        if r.pct(35) {
            e.scratch[c as usize] = Some(hws.remove(0));
        }
        if r.pct(50) {
            let nfs = r.range(1, 8);
            for _ in 0..nfs {
                let h = hws.remove(r.below(hws.len()));
                e.fixed_stack.push((c, h));
            }
        }
    }
    e
}

pub fn gen_knobs(r: &mut Rng, lim: Limits, tight: bool) -> Knobs {
    let on = |r: &mut Rng, p: u32, lo: u32, hi: u32| -> u32 {
        if r.pct(p) {
            r.range(lo as usize, hi as usize) as u32
        } else {
            0
        }
    };
    let nblocks = match r.below(12) {
        0 | 1 => 1,
        2..=6 => r.range(2, 6),
        7..=10 => r.range(5, 14),
        _ => r.range(12, 36),
    };
    let mut classes = match r.below(6) {
        0 | 1 => vec![0],
        2 => vec![r.below(3) as u8],
        3 => vec![0, 1],
        4 => vec![1, 2],
        _ => vec![0, 1, 2],
    };
    r.shuffle(&mut classes);
    Knobs {
        lim,
        tight,
        nblocks,
        ins_per_block: r.range(1, if nblocks > 12 { 4 } else { 9 }),
        max_uses: r.range(1, 8),
        max_defs: r.range(1, 4),
        w_any: r.range(0, 6),
        w_reg: r.range(1, 6),
        w_fixed: if r.pct(65) { r.range(1, 5) } else { 0 },
        w_stack: if r.pct(35) { r.range(1, 2) } else { 0 },
        w_limit: if !lim.fastalloc && r.pct(35) { r.range(1, 3) } else { 0 },
        pct_reuse: on(r, 60, 5, 60),
        pct_late_use: on(r, 40, 3, 30),
        pct_early_def: on(r, 40, 3, 30),
        pct_clob: on(r, 50, 5, 40),
        pct_call: on(r, 45, 3, 40),
        pct_nonalloc: on(r, 20, 3, 20),
        pct_fixed_stack: on(r, 50, 5, 60),
        pct_branch_ops: on(r, 50, 10, 60),
        pct_params: on(r, 85, 20, 90),
        max_params: match r.below(5) {
            0 => 12,
            1 => 6,
            _ => 3,
        },
        pct_param_shuffle: on(r, 70, 20, 90),
        pct_dup_use: on(r, 40, 3, 25),
        pct_far: r.range(5, 70) as u32,
        pct_move_like: on(r, 30, 5, 30),
        entry_defs: match r.below(4) {
            0 => 1,
            1 => r.range(8, 24),
            _ => r.range(1, 6),
        },
        extra_edges: r.below(nblocks + 1),
        pct_loop: on(r, 75, 10, 80),
        reorder: r.pct(30),
        labels: if r.pct(50) { r.range(1, 12) } else { 0 },
        classes,
        multi_defs: !lim.fastalloc && r.pct(10),
        max_succs: if r.pct(10) { r.range(5, 16) } else { 4 },
        pm_wide: if r.pct(6) { r.range(5, 60) as u32 } else { 0 },
        vreg_stride: if r.pct(5) { r.range(2, 130) } else { 1 },
    }
}

struct G<'a> {
    r: &'a mut Rng,
    k: &'a Knobs,
    e: &'a Env,
    p: Prog,
}

/// A function no correct allocator may refuse or get wrong.
pub fn gen_prog(r: &mut Rng, k: &Knobs, e: &Env) -> Prog {
    loop {
        let p = gen_once(r, k, e);
        if prog_valid(&p, e, k.lim, k.tight).is_ok() {
            return p;
        }
    }
}

pub fn prog_valid(p: &Prog, e: &Env, lim: Limits, tight: bool) -> Result<(), String> {
    check_valid(p, e, lim)?;
    let mut ins = p.blocks.iter().flat_map(|b| b.ins.iter().chain(std::iter::once(&b.term)));
    if ins.all(|i| inst_feasible(p, e, i, tight, lim)) {
        Ok(())
    } else {
        Err("infeasible".into())
    }
}

fn gen_once(r: &mut Rng, k: &Knobs, e: &Env) -> Prog {
    let mut g = G {
        r,
        k,
        e,
        p: Prog::default(),
    };
    g.p.slot_size = match g.r.below(6) {
        5 => {
            let mut s = [1, 2, 4];
            for x in s.iter_mut() {
                *x = 1 << g.r.below(5);
            }
            s
        }
        0 => [1, 2, 4],
        1 => [2, 2, 2],
        2 => [1, 4, 2],
        3 => [1, 1, 1],
        _ => [1, 1, 2],
    };
    g.p.by_last = g.r.pct(35);
    g.p.multi_defs = k.multi_defs;
    g.cfg();
    g.body();
    if k.reorder {
        g.reorder();
    }
    g.labels();
    let mut p = g.p;
    spread_vregs(&mut p, r, k.vreg_stride, &k.classes);
    p
}

impl<'a> G<'a> {
    fn cfg(&mut self) {
        let n = self.k.nblocks;
        let mut succs: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 1..n {
            // mostly a spine, sometimes a branch off an earlier block
            let j = if self.r.pct(60) {
                i - 1
            } else {
                self.r.below(i)
            };
            succs[j].push(i);
        }
        for _ in 0..self.k.extra_edges {
            let a = self.r.below(n);
            if succs[a].len() >= self.k.max_succs {
                continue;
            }
            let back = self.r.pct(self.k.pct_loop);
            let b = if back {
                self.r.below(a + 1)
            } else if a + 1 < n {
                self.r.range(a + 1, (a + 4).min(n - 1))
            } else {
                continue;
            };
            // an edge back to the entry is legal but unusual
            if b == 0 && !self.r.pct(15) {
                continue;
            }
            succs[a].push(b);
        }
        for s in succs.iter_mut() {
            self.r.shuffle(s);
        }
        // split critical edges
        let mut pc = vec![0; n];
        pc[0] = 1;
        for s in &succs {
            for &t in s {
                pc[t] += 1;
            }
        }
        let mut all: Vec<Vec<usize>> = succs.clone();
        for a in 0..n {
            if succs[a].len() > 1 {
                for x in 0..succs[a].len() {
                    let t = succs[a][x];
                    if pc[t] > 1 {
                        let nb = all.len();
                        all.push(vec![t]);
                        all[a][x] = nb;
                    }
                }
            }
        }
        // order blocks in reverse postorder so that dominators come first
        let m = all.len();
        let mut seen = vec![false; m];
        let mut order = vec![];
        let mut st = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some(&mut (b, ref mut i)) = st.last_mut() {
            if *i < all[b].len() {
                let s = all[b][*i];
                *i += 1;
                if !seen[s] {
                    seen[s] = true;
                    st.push((s, 0));
                }
            } else {
                order.push(b);
                st.pop();
            }
        }
        order.reverse();
        let mut ren = vec![0; m];
        for (i, &b) in order.iter().enumerate() {
            ren[b] = i;
        }
        self.p.blocks = order
            .iter()
            .map(|&b| Blk {
                succs: all[b].iter().map(|&s| (ren[s] as u32, vec![])).collect(),
                ..Default::default()
            })
            .collect();
        self.p.entry = 0;
    }

    fn new_vreg(&mut self) -> u32 {
        let c = *self.r.pick(&self.k.classes);
        self.p.vclass.push(c);
        self.p.vclass.len() as u32 - 1
    }
    fn new_vreg_c(&mut self, c: u8) -> u32 {
        self.p.vclass.push(c);
        self.p.vclass.len() as u32 - 1
    }

    fn body(&mut self) {
        let n = self.p.blocks.len();
        let dom = dominators(&self.p).unwrap();
        let pc = pred_counts(&self.p);
        // params
        for b in 1..n {
            if self.r.pct(self.k.pct_params) {
                let m = self.r.range(1, self.k.max_params);
                for _ in 0..m {
                    let v = self.new_vreg();
                    self.p.blocks[b].params.push(v);
                }
            }
        }
        let mut defs: Vec<Vec<u32>> = vec![vec![]; n];
        let mut branch_defs: Vec<Vec<u32>> = vec![vec![]; n];
        for b in 0..n {
            // values visible on entry to b, far ones first
            let mut avail: Vec<u32> = vec![];
            for d in 0..n {
                if d != b && dom[b][d] {
                    avail.extend(&self.p.blocks[d].params);
                    avail.extend(&defs[d]);
                    avail.extend(&branch_defs[d]);
                }
            }
            let far = avail.len();
            avail.extend(&self.p.blocks[b].params);
            let mut ins = vec![];
            if b == 0 {
                // make at least one value of each class
                let mut todo: Vec<u8> = self.k.classes.clone();
                for _ in 0..self.k.entry_defs {
                    let c = *self.r.pick(&self.k.classes);
                    todo.push(c);
                }
                while !todo.is_empty() {
                    let mut i = Ins::default();
                    let m = self.r.range(1, 3).min(todo.len());
                    for _ in 0..m {
                        let c = todo.pop().unwrap();
                        let v = self.new_vreg_c(c);
                        let o = Opnd {
                            v,
                            c: if self.r.pct(20) { Cons::Any } else { Cons::Reg },
                            def: true,
                            late: true,
                        };
                        if self.fits(&i, &o) {
                            i.ops.push(o);
                        } else {
                            i.ops.push(Opnd { c: Cons::Any, ..o });
                        }
                        avail.push(v);
                        defs[b].push(v);
                    }
                    if self.r.pct(25) && !self.k.lim.fastalloc {
                        self.fixed_defs(&mut i);
                    }
                    ins.push(i);
                }
            }
            let m = self.r.below(self.k.ins_per_block + 1);
            for _ in 0..m {
                let i = self.inst(&avail, far, false);
                for o in &i.ops {
                    if o.def && !avail.contains(&o.v) {
                        avail.push(o.v);
                        defs[b].push(o.v);
                    }
                }
                ins.push(i);
            }
            self.p.blocks[b].ins = ins;
            // terminator
            let single_pred_succs = self.p.blocks[b]
                .succs
                .iter()
                .all(|(s, _)| pc[*s as usize] == 1);
            if single_pred_succs && self.r.pct(self.k.pct_branch_ops) {
                let is_ret = self.p.blocks[b].succs.is_empty();
                let mut t = self.inst(&avail, far, true);
                if is_ret || !self.r.pct(30) {
                    // plain conditional branch / return: uses only
                    let keep: Vec<Opnd> = t.ops.iter().filter(|o| !o.def).cloned().collect();
                    t.ops = keep;
                } else if self.k.lim.fastalloc {
                    for o in t.ops.iter_mut() {
                        if o.def && !matches!(o.c, Cons::Any | Cons::Stack | Cons::Fixed(_)) {
                            o.c = Cons::Any;
                        }
                    }
                }
                if check_inst(&self.p, self.e, &t, self.k.lim).is_err() {
                    t = Ins::default();
                }
                for o in &t.ops {
                    if o.def && !branch_defs[b].contains(&o.v) {
                        branch_defs[b].push(o.v);
                    }
                }
                self.p.blocks[b].term = t;
            }
        }
        // branch arguments
        for b in 0..n {
            let mut vis: Vec<u32> = vec![];
            for d in 0..n {
                if dom[b][d] {
                    vis.extend(&self.p.blocks[d].params);
                    vis.extend(&defs[d]);
                    if d != b {
                        vis.extend(&branch_defs[d]);
                    }
                }
            }
            for s in 0..self.p.blocks[b].succs.len() {
                let t = self.p.blocks[b].succs[s].0 as usize;
                let params = self.p.blocks[t].params.clone();
                let mut args = vec![];
                // rotated/permuted own parameters make move cycles
                let own: Vec<u32> = if dom[b][t] { params.clone() } else { vec![] };
                for &q in &params {
                    let c = self.p.vclass[q as usize];
                    let cand_own: Vec<u32> = own
                        .iter()
                        .cloned()
                        .filter(|v| self.p.vclass[*v as usize] == c)
                        .collect();
                    let bd: Vec<u32> = branch_defs[b]
                        .iter()
                        .cloned()
                        .filter(|v| self.p.vclass[*v as usize] == c)
                        .collect();
                    let a = if !cand_own.is_empty() && self.r.pct(self.k.pct_param_shuffle) {
                        *self.r.pick(&cand_own)
                    } else if !bd.is_empty() && self.r.pct(50) {
                        *self.r.pick(&bd)
                    } else {
                        let all: Vec<u32> = vis
                            .iter()
                            .cloned()
                            .filter(|v| self.p.vclass[*v as usize] == c)
                            .collect();
                        if self.r.pct(50) {
                            all[all.len() - 1 - self.r.below(all.len().min(4))]
                        } else {
                            *self.r.pick(&all)
                        }
                    };
                    args.push(a);
                }
                self.p.blocks[b].succs[s].1 = args;
            }
        }
    }

    fn fixed_defs(&mut self, i: &mut Ins) {
        for x in 0..i.ops.len() {
            let c = self.p.vclass[i.ops[x].v as usize];
            if let Some(h) = self.pick_fixed(c) {
                let old = i.ops[x].c;
                i.ops[x].c = Cons::Fixed(h);
                if check_inst(&self.p, self.e, i, self.k.lim).is_err()
                    || !self.count_ok(i)
                {
                    i.ops[x].c = old;
                }
            }
        }
    }

    fn pick_fixed(&mut self, c: u8) -> Option<u8> {
        if self.r.pct(self.k.pct_fixed_stack) {
            let fs: Vec<u8> = self
                .e
                .fixed_stack
                .iter()
                .filter(|x| x.0 == c)
                .map(|x| x.1)
                .collect();
            if !fs.is_empty() {
                return Some(*self.r.pick(&fs));
            }
        }
        let all = self.e.all(c);
        if all.is_empty() {
            return None;
        }
        // prefer a few registers so that collisions between instructions are common
        let n = if self.r.pct(60) {
            all.len().min(3)
        } else {
            all.len()
        };
        Some(all[self.r.below(n)])
    }

    /// Would `i` plus `o` still leave the instruction allocatable with the
    /// margin this run asks for?
    fn fits(&mut self, i: &Ins, o: &Opnd) -> bool {
        let mut j = i.clone();
        j.ops.push(*o);
        check_inst(&self.p, self.e, &j, self.k.lim).is_ok() && self.count_ok(&j)
    }

    fn count_ok(&self, i: &Ins) -> bool {
        inst_feasible(&self.p, self.e, i, self.k.tight, self.k.lim)
    }

    fn pick_use(&mut self, avail: &[u32], far: usize) -> Option<u32> {
        if avail.is_empty() {
            return None;
        }
        let near = avail.len() - far;
        if far > 0 && (near == 0 || self.r.pct(self.k.pct_far)) {
            Some(avail[self.r.below(far)])
        } else if self.r.pct(60) {
            Some(avail[avail.len() - 1 - self.r.below(near.min(3))])
        } else {
            Some(avail[far + self.r.below(near)])
        }
    }

    fn pick_cons(&mut self, c: u8) -> Cons {
        let k = self.k;
        let tot = k.w_any + k.w_reg + k.w_fixed + k.w_stack + k.w_limit;
        let mut x = self.r.below(tot);
        if x < k.w_any {
            return Cons::Any;
        }
        x -= k.w_any;
        if x < k.w_reg {
            return Cons::Reg;
        }
        x -= k.w_reg;
        if x < k.w_fixed {
            return match self.pick_fixed(c) {
                Some(h) => Cons::Fixed(h),
                None => Cons::Reg,
            };
        }
        x -= k.w_fixed;
        if x < k.w_stack {
            return Cons::Stack;
        }
        // Limit: a power of two that leaves some allocatable registers
        let all = self.e.all(c);
        let mut opts = vec![];
        for l in 0..=6 {
            let n = 1u8 << l;
            let cnt = all.iter().filter(|h| **h < n).count();
            if cnt >= 3 || (self.k.tight && cnt >= 1) {
                opts.push(n);
            }
        }
        if opts.is_empty() {
            Cons::Reg
        } else {
            Cons::Limit(*self.r.pick(&opts))
        }
    }

    fn inst(&mut self, avail: &[u32], far: usize, term: bool) -> Ins {
        let mut i = Ins::default();
        let k = self.k;
        let call = !term && self.r.pct(k.pct_call);
        if call {
            // clobber most registers of some classes
            for &c in &k.classes {
                if self.r.pct(70) {
                    let all = self.e.all(c);
                    let keep = self.r.below(all.len() / 2 + 1);
                    for (x, h) in all.iter().enumerate() {
                        if x >= keep {
                            i.clob.push((c, *h));
                        }
                    }
                }
            }
        } else if self.r.pct(k.pct_clob) {
            for _ in 0..self.r.range(1, 5) {
                let c = *self.r.pick(&k.classes);
                let h = if self.r.pct(85) {
                    let all = self.e.all(c);
                    *self.r.pick(&all)
                } else if let Some(s) = self.e.scratch[c as usize] {
                    s
                } else {
                    continue;
                };
                if !i.clob.contains(&(c, h)) {
                    i.clob.push((c, h));
                }
            }
        }
        if !self.count_ok(&i) {
            i.clob.clear();
        }
        if self.r.pct(k.pct_move_like) && !avail.is_empty() && !term {
            // two-operand copy-like instruction
            let u = self.pick_use(avail, far).unwrap();
            let c = self.p.vclass[u as usize];
            let d = self.new_vreg_c(c);
            let o = Opnd { v: u, c: Cons::Reg, def: false, late: false };
            let q = Opnd { v: d, c: Cons::Reg, def: true, late: true };
            let mut j = Ins::default();
            j.ops.push(o);
            if self.fits(&j, &q) {
                j.ops.push(q);
            } else {
                j.ops.push(Opnd { c: Cons::Any, ..q });
            }
            if self.count_ok(&j) {
                return j;
            }
        }
        let wide = self.r.permille(k.pm_wide);
        let nu = if wide {
            self.r.range(10, 60)
        } else {
            self.r.below(k.max_uses + 1)
        };
        for _ in 0..nu {
            let v = if self.r.pct(k.pct_dup_use) && !i.ops.is_empty() {
                i.ops[self.r.below(i.ops.len())].v
            } else {
                match self.pick_use(avail, far) {
                    Some(v) => v,
                    None => break,
                }
            };
            let c = self.p.vclass[v as usize];
            let mut o = Opnd {
                v,
                c: self.pick_cons(c),
                def: false,
                late: self.r.pct(k.pct_late_use),
            };
            if call && self.r.pct(50) {
                o.c = match self.pick_fixed(c) {
                    Some(h) => Cons::Fixed(h),
                    None => Cons::Any,
                };
            }
            if self.fits(&i, &o) {
                i.ops.push(o);
            } else {
                o.c = Cons::Any;
                if self.fits(&i, &o) {
                    i.ops.push(o);
                }
            }
        }
        let nd = if self.r.pct(15) {
            0
        } else {
            self.r.range(1, if wide { 12 } else { k.max_defs })
        };
        for _ in 0..nd {
            // a reuse?
            if self.r.pct(k.pct_reuse) {
                let cands: Vec<usize> = (0..i.ops.len())
                    .filter(|&x| {
                        let o = &i.ops[x];
                        x < 32 && !o.def && !o.late && o.c == Cons::Reg
                    })
                    .collect();
                if !cands.is_empty() {
                    let t = *self.r.pick(&cands);
                    let c = self.p.vclass[i.ops[t].v as usize];
                    let v = self.new_vreg_c(c);
                    let o = Opnd { v, c: Cons::Reuse(t as u8), def: true, late: true };
                    if self.fits(&i, &o) {
                        i.ops.push(o);
                    } else {
                        self.p.vclass.pop();
                    }
                    continue;
                }
            }
            let v = self.new_vreg();
            let c = self.p.vclass[v as usize];
            let mut o = Opnd {
                v,
                c: self.pick_cons(c),
                def: true,
                late: !self.r.pct(k.pct_early_def),
            };
            if call && self.r.pct(50) {
                o.c = match self.pick_fixed(c) {
                    Some(h) => Cons::Fixed(h),
                    None => Cons::Any,
                };
                if let Cons::Fixed(h) = o.c {
                    // a call's result register is a def, not a clobber
                    i.clob.retain(|x| *x != (c, h));
                }
            }
            if self.fits(&i, &o) {
                i.ops.push(o);
            } else {
                o.c = Cons::Any;
                if self.fits(&i, &o) {
                    i.ops.push(o);
                } else {
                    self.p.vclass.pop();
                    continue;
                }
            }
            if self.p.multi_defs && self.r.pct(20) {
                let mut q = *i.ops.last().unwrap();
                if self.r.pct(30) && !matches!(q.c, Cons::Limit(_)) {
                    q.c = if self.r.pct(50) { Cons::Any } else { Cons::Reg };
                }
                if !matches!(q.c, Cons::Reuse(_) | Cons::Stack) && self.fits(&i, &q) {
                    i.ops.push(q);
                }
            }
        }
        if self.r.pct(k.pct_nonalloc) {
            let c = *self.r.pick(&k.classes);
            for _ in 0..8 {
                let h = self.r.below(if c == 0 { 63 } else { 64 }) as u8;
                if !self.e.is_alloc(c, h)
                    && !self.e.is_fixed_stack(c, h)
                    && self.e.scratch[c as usize] != Some(h)
                {
                    i.nonalloc.push((c, h));
                    break;
                }
            }
        }
        // permute operand order
        if self.r.pct(50) {
            let n = i.ops.len();
            let mut perm: Vec<usize> = (0..n).collect();
            self.r.shuffle(&mut perm);
            let mut inv = vec![0; n];
            for (new, &old) in perm.iter().enumerate() {
                inv[old] = new;
            }
            // the index of a reused operand has five bits
            let ok = i.ops.iter().all(|o| match o.c {
                Cons::Reuse(t) => inv[t as usize] < 32,
                _ => true,
            });
            let perm = if ok { perm } else { (0..n).collect() };
            if !ok {
                inv = perm.clone();
            }
            i.ops = perm
                .iter()
                .map(|&old| {
                    let mut o = i.ops[old];
                    if let Cons::Reuse(t) = o.c {
                        o.c = Cons::Reuse(inv[t as usize] as u8);
                    }
                    o
                })
                .collect();
        }
        i
    }

    fn reorder(&mut self) {
        let n = self.p.blocks.len();
        let mut perm: Vec<usize> = (0..n).collect();
        if self.r.pct(50) {
            self.r.shuffle(&mut perm);
        } else {
            // local swaps
            for _ in 0..self.r.range(1, 3) {
                let a = self.r.below(n);
                let b = self.r.below(n);
                perm.swap(a, b);
            }
        }
        if self.r.pct(60) {
            // keep the entry first
            let x = perm.iter().position(|&b| b == 0).unwrap();
            perm.swap(0, x);
        }
        permute_blocks(&mut self.p, &perm);
    }

    fn labels(&mut self) {
        let ni = self.p.num_insts();
        let nv = self.p.vclass.len();
        if self.k.labels == 0 || nv == 0 {
            return;
        }
        let mut d = vec![];
        let overlap = self.r.pct(15);
        // Each label walks over the function, moving from vreg to vreg; the
        // ranges of one label never overlap unless `overlap` is set.
        for l in 0..self.k.labels {
            let mut at = self.r.below(ni);
            let pieces = self.r.range(1, 4);
            for _ in 0..pieces {
                if at >= ni {
                    break;
                }
                let span = self.r.below(ni);
                let end = self.r.range(at, ni.min(at + 1 + span));
                let v = self.r.below(nv) as u32;
                d.push((v, at as u32, end as u32, l as u32 * 3 % 17));
                at = if overlap { self.r.below(ni) } else { end };
            }
        }
        // Sorted by vreg is all the interface asks for.
        if self.r.pct(50) {
            d.sort();
        } else {
            self.r.shuffle(&mut d);
            d.sort_by_key(|x| x.0);
        }
        self.p.dbg = d;
    }
}

/// Spread the vregs over a larger index space, in a shuffled order. The new
/// indices in between belong to vregs that occur nowhere.
fn spread_vregs(p: &mut Prog, r: &mut Rng, stride: usize, classes: &[u8]) {
    let n = p.vclass.len();
    let stride = stride.min(2500 / n.max(1));
    if stride < 2 || n == 0 {
        return;
    }
    let mut place: Vec<usize> = (0..n).collect();
    if r.pct(50) {
        r.shuffle(&mut place);
    }
    let jitter = r.pct(50);
    let map: Vec<u32> = place
        .iter()
        .map(|&x| (x * stride + if jitter { r.below(stride) } else { 0 }) as u32)
        .collect();
    let mut nc: Vec<u8> = (0..n * stride).map(|_| *r.pick(classes)).collect();
    for (v, &m) in map.iter().enumerate() {
        nc[m as usize] = p.vclass[v];
    }
    p.vclass = nc;
    rename_vregs(p, &map);
    p.dbg.sort_by_key(|x| x.0);
}

pub fn rename_vregs(p: &mut Prog, map: &[u32]) {
    for b in p.blocks.iter_mut() {
        for v in b.params.iter_mut() {
            *v = map[*v as usize];
        }
        for i in b.ins.iter_mut().chain(std::iter::once(&mut b.term)) {
            for o in i.ops.iter_mut() {
                o.v = map[o.v as usize];
            }
        }
        for s in b.succs.iter_mut() {
            for v in s.1.iter_mut() {
                *v = map[*v as usize];
            }
        }
    }
    for d in p.dbg.iter_mut() {
        d.0 = map[d.0 as usize];
    }
}

pub fn permute_blocks(p: &mut Prog, perm: &[usize]) {
    let mut ren = vec![0u32; perm.len()];
    for (new, &old) in perm.iter().enumerate() {
        ren[old] = new as u32;
    }
    let mut nb: Vec<Blk> = perm.iter().map(|&o| p.blocks[o].clone()).collect();
    for b in nb.iter_mut() {
        for s in b.succs.iter_mut() {
            s.0 = ren[s.0 as usize];
        }
    }
    p.blocks = nb;
    p.entry = ren[p.entry as usize];
}

/// Register demand of one instruction against the environment. With `tight`
/// the demand may reach the number of registers; otherwise a margin is kept
/// so that a correct allocator always has a solution.
pub fn inst_feasible(p: &Prog, e: &Env, i: &Ins, tight: bool, lim: Limits) -> bool {
    let any_reuse = i.ops.iter().any(|o| matches!(o.c, Cons::Reuse(_)));
    for c in 0..3u8 {
        let mut early = 0usize;
        let mut late = 0usize;
        let mut both = 0usize;
        let mut reused = 0usize;
        let mut limits: Vec<(u8, bool, bool)> = vec![];
        let mut fixed_regs: Vec<u8> = vec![];
        for o in &i.ops {
            if p.vclass[o.v as usize] != c {
                continue;
            }
            let need = match o.c {
                Cons::Any | Cons::Stack => false,
                Cons::Fixed(h) => {
                    let r = !e.is_fixed_stack(c, h);
                    if r && !fixed_regs.contains(&h) {
                        fixed_regs.push(h);
                    }
                    r
                }
                Cons::Reg | Cons::Limit(_) | Cons::Reuse(_) => true,
            };
            if !need {
                continue;
            }
            let eo = !o.def || !o.late;
            let lo = o.def || o.late;
            if let Cons::Limit(n) = o.c {
                limits.push((n, eo, lo));
            }
            if let Cons::Reuse(_) = o.c {
                // the reused input's register is shared, but the input may
                // have to be copied
                both += 1;
                late += 1;
                reused += 1;
                continue;
            }
            if eo {
                early += 1;
            }
            if lo {
                late += 1;
            }
            if eo && lo {
                both += 1;
            }
        }
        // fastalloc without a dedicated scratch register takes one of the
        // allocatable registers to move between stack locations
        let spare = (lim.fastalloc && e.scratch[c as usize].is_none()) as usize;
        let touched = i.ops.iter().any(|o| p.vclass[o.v as usize] == c);
        if early == 0 && late == 0 && (spare == 0 || !touched) {
            continue;
        }
        let k = e.num(c);
        let cl = i
            .clob
            .iter()
            .filter(|x| x.0 == c && e.is_alloc(c, x.1))
            .count();
        if tight {
            if early.max(both) > k || late + cl > k {
                return false;
            }
        } else {
            // Operands that are live in one phase only cannot get in each
            // other's way; one that is live in both can be kept from every
            // register by operands of either phase. Where an input is reused,
            // all inputs are taken to live on in the late phase.
            let fit = if both + spare == 0 && !any_reuse {
                early.max(late + cl)
            } else {
                early + late + cl
            };
            if fit + spare > k {
                return false;
            }
        }
        for &(n, _, _) in &limits {
            let cnt = e.all(c).iter().filter(|h| **h < n).count();
            let fixed_in = fixed_regs.iter().filter(|h| **h < n).count();
            let cl_in = i
                .clob
                .iter()
                .filter(|x| x.0 == c && x.1 < n && e.is_alloc(c, x.1))
                .count();
            if tight {
                if cnt == 0 || limits.len() + fixed_in > cnt {
                    return false;
                }
            } else {
                // Tighter limits have precedence, so only operands that are
                // limited at least as much can be in the way.
                let rivals = limits.iter().filter(|l| l.0 <= n).count();
                if rivals + reused + cl_in + fixed_in > cnt {
                    return false;
                }
            }
        }
    }
    true
}
