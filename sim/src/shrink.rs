//! Minimisation of a function/environment pair, staying inside the space of
//! inputs a well-behaved client may pass.

use crate::prog::*;

/// Reduce `p`/`e` while `bad` keeps answering true. `bad` is responsible for
/// requiring the same class of failure.
pub fn shrink(
    p: &Prog,
    e: &Env,
    valid: &dyn Fn(&Prog, &Env) -> bool,
    bad: &mut dyn FnMut(&Prog, &Env) -> bool,
    budget: usize,
) -> (Prog, Env, usize) {
    let mut s = Sh {
        p: p.clone(),
        e: e.clone(),
        valid,
        bad,
        left: budget,
        tries: 0,
    };
    loop {
        let before = (s.p.clone(), s.e.clone());
        s.pass();
        if (s.p == before.0 && s.e == before.1) || s.left == 0 {
            break;
        }
    }
    (s.p, s.e, s.tries)
}

struct Sh<'a> {
    p: Prog,
    e: Env,
    valid: &'a dyn Fn(&Prog, &Env) -> bool,
    bad: &'a mut dyn FnMut(&Prog, &Env) -> bool,
    left: usize,
    tries: usize,
}

impl<'a> Sh<'a> {
    fn attempt(&mut self, p: Prog, e: Env) -> bool {
        if self.left == 0 || (p == self.p && e == self.e) {
            return false;
        }
        if !(self.valid)(&p, &e) {
            return false;
        }
        self.left -= 1;
        self.tries += 1;
        if (self.bad)(&p, &e) {
            self.p = p;
            self.e = e;
            true
        } else {
            false
        }
    }
    fn with<F: FnOnce(&mut Prog)>(&mut self, f: F) -> bool {
        let mut p = self.p.clone();
        f(&mut p);
        let e = self.e.clone();
        self.attempt(p, e)
    }

    fn pass(&mut self) {
        // debug labels
        if !self.p.dbg.is_empty() {
            self.with(|p| p.dbg.clear());
        }
        let mut x = self.p.dbg.len();
        while x > 0 {
            x -= 1;
            self.with(|p| {
                p.dbg.remove(x);
            });
        }
        // drop whole successors: make a block return
        let mut b = 0;
        while b < self.p.blocks.len() {
            let ns = self.p.blocks[b].succs.len();
            if ns > 0 {
                self.with(|p| {
                    p.blocks[b].succs.clear();
                    p.blocks[b].term.ops.retain(|o| !o.def);
                    prune(p);
                });
            }
            for s in (0..self.p.blocks.get(b).map_or(0, |x| x.succs.len())).rev() {
                self.with(|p| {
                    p.blocks[b].succs.remove(s);
                    prune(p);
                });
            }
            b += 1;
        }
        // bypass an empty-ish block: b -> t with b's preds to t
        let mut b = 0;
        while b < self.p.blocks.len() {
            if self.p.blocks[b].succs.len() == 1 && b != self.p.entry as usize {
                // merge straight-line: pred has one succ b, b has one pred
                self.with(|p| merge(p, b));
            }
            if b < self.p.blocks.len() && b != self.p.entry as usize {
                self.with(|p| merge(p, b));
            }
            b += 1;
        }
        // instructions, in chunks then singly
        for b in 0..self.p.blocks.len() {
            let mut chunk = self.p.blocks[b].ins.len();
            while chunk > 0 {
                let mut x = self.p.blocks[b].ins.len();
                while x >= chunk && x > 0 {
                    let ok = self.with(|p| {
                        let gone: Vec<u32> = p.blocks[b].ins[x - chunk..x]
                            .iter()
                            .flat_map(|i| i.ops.iter().filter(|o| o.def).map(|o| o.v))
                            .collect();
                        let at: u32 = p.blocks[..b].iter().map(|q| q.ins.len() as u32 + 1).sum::<u32>() + (x - chunk) as u32;
                        p.blocks[b].ins.drain(x - chunk..x);
                        fix_labels(p, at, chunk as u32);
                        for v in gone {
                            drop_uses(p, v);
                        }
                    });
                    if ok {
                        x = x.min(self.p.blocks[b].ins.len());
                        x = x.saturating_sub(0);
                    }
                    x = x.saturating_sub(chunk.max(1));
                }
                chunk /= 2;
            }
        }
        // block params
        for b in 0..self.p.blocks.len() {
            let mut x = self.p.blocks[b].params.len();
            while x > 0 {
                x -= 1;
                self.with(|p| {
                    let v = p.blocks[b].params.remove(x);
                    for q in p.blocks.iter_mut() {
                        for s in q.succs.iter_mut() {
                            if s.0 as usize == b {
                                s.1.remove(x);
                            }
                        }
                    }
                    drop_uses(p, v);
                });
            }
        }
        // operands, clobbers
        for b in 0..self.p.blocks.len() {
            for k in 0..=self.p.blocks[b].ins.len() {
                if self.ins(b, k).clob.len() > 1 {
                    self.with(|p| ins_mut(p, b, k).clob.clear());
                }
                let mut x = self.ins(b, k).clob.len();
                while x > 0 {
                    x -= 1;
                    self.with(|p| {
                        ins_mut(p, b, k).clob.remove(x);
                    });
                }
                if !self.ins(b, k).nonalloc.is_empty() {
                    self.with(|p| ins_mut(p, b, k).nonalloc.clear());
                }
                let mut x = self.ins(b, k).ops.len();
                while x > 0 {
                    x -= 1;
                    let o = self.ins(b, k).ops[x];
                    let removed = self.with(|p| {
                        rm_op(ins_mut(p, b, k), x);
                        if o.def {
                            let still = ins_mut(p, b, k).ops.iter().any(|q| q.def && q.v == o.v);
                            if !still {
                                drop_uses(p, o.v);
                            }
                        }
                    });
                    if removed {
                        continue;
                    }
                    if o.c != Cons::Any {
                        if !self.with(|p| ins_mut(p, b, k).ops[x].c = Cons::Any)
                            && o.c != Cons::Reg
                        {
                            self.with(|p| ins_mut(p, b, k).ops[x].c = Cons::Reg);
                        }
                    }
                    let o = self.ins(b, k).ops[x];
                    if o.def && !o.late {
                        self.with(|p| ins_mut(p, b, k).ops[x].late = true);
                    }
                    if !o.def && o.late {
                        self.with(|p| ins_mut(p, b, k).ops[x].late = false);
                    }
                }
            }
        }
        // branch arguments: make them uniform
        for b in 0..self.p.blocks.len() {
            for s in 0..self.p.blocks[b].succs.len() {
                for x in 1..self.p.blocks[b].succs[s].1.len() {
                    let a0 = self.p.blocks[b].succs[s].1[0];
                    self.with(|p| p.blocks[b].succs[s].1[x] = a0);
                }
            }
        }
        // unused vregs
        self.with(compact_vregs);
        // environment
        if self.p.by_last {
            self.with(|p| p.by_last = false);
        }
        if self.p.multi_defs {
            self.with(|p| p.multi_defs = false);
        }
        if self.p.slot_size != [1, 1, 1] {
            self.with(|p| p.slot_size = [1, 1, 1]);
        }
        for c in 0..3 {
            if self.e.scratch[c].is_some() {
                let mut e = self.e.clone();
                e.scratch[c] = None;
                let p = self.p.clone();
                self.attempt(p, e);
            }
            if !self.e.nonpref[c].is_empty() {
                let mut e = self.e.clone();
                let t = std::mem::take(&mut e.nonpref[c]);
                e.pref[c].extend(t);
                let p = self.p.clone();
                self.attempt(p, e);
            }
            let mut x = self.e.pref[c].len();
            while x > 0 {
                x -= 1;
                let mut e = self.e.clone();
                e.pref[c].remove(x);
                let p = self.p.clone();
                self.attempt(p, e);
            }
            let mut x = self.e.nonpref[c].len();
            while x > 0 {
                x -= 1;
                let mut e = self.e.clone();
                e.nonpref[c].remove(x);
                let p = self.p.clone();
                self.attempt(p, e);
            }
        }
        let mut x = self.e.fixed_stack.len();
        while x > 0 {
            x -= 1;
            let mut e = self.e.clone();
            e.fixed_stack.remove(x);
            let p = self.p.clone();
            self.attempt(p, e);
        }
    }

    fn ins(&self, b: usize, k: usize) -> &Ins {
        let bl = &self.p.blocks[b];
        if k == bl.ins.len() {
            &bl.term
        } else {
            &bl.ins[k]
        }
    }
}

pub fn ins_mut(p: &mut Prog, b: usize, k: usize) -> &mut Ins {
    let n = p.blocks[b].ins.len();
    if k == n {
        &mut p.blocks[b].term
    } else {
        &mut p.blocks[b].ins[k]
    }
}

pub fn rm_op(i: &mut Ins, x: usize) {
    i.ops.remove(x);
    let mut y = 0;
    while y < i.ops.len() {
        if let Cons::Reuse(t) = i.ops[y].c {
            if t as usize == x {
                i.ops[y].c = Cons::Reg;
            } else if t as usize > x {
                i.ops[y].c = Cons::Reuse(t - 1);
            }
        }
        y += 1;
    }
}

/// `v` lost its definition: give every use another value of the same class
/// that is defined where v was not needed, or drop the operand.
fn drop_uses(p: &mut Prog, v: u32) {
    for b in 0..p.blocks.len() {
        for k in 0..=p.blocks[b].ins.len() {
            let i = ins_mut(p, b, k);
            let mut x = i.ops.len();
            while x > 0 {
                x -= 1;
                if i.ops[x].v == v && !i.ops[x].def {
                    rm_op(i, x);
                }
            }
        }
    }
    // branch arguments: drop the parameter they feed
    loop {
        let mut hit = None;
        'o: for b in p.blocks.iter() {
            for (t, args) in &b.succs {
                if let Some(x) = args.iter().position(|a| *a == v) {
                    hit = Some((*t as usize, x));
                    break 'o;
                }
            }
        }
        let Some((t, x)) = hit else { break };
        if x >= p.blocks[t].params.len() {
            break;
        }
        let q = p.blocks[t].params.remove(x);
        for b in p.blocks.iter_mut() {
            for s in b.succs.iter_mut() {
                if s.0 as usize == t && x < s.1.len() {
                    s.1.remove(x);
                }
            }
        }
        if q != v {
            drop_uses(p, q);
        }
    }
    p.dbg.retain(|d| d.0 != v);
}

/// Remove unreachable blocks.
pub fn prune(p: &mut Prog) {
    let n = p.blocks.len();
    let mut seen = vec![false; n];
    let mut st = vec![p.entry as usize];
    seen[p.entry as usize] = true;
    while let Some(b) = st.pop() {
        for (s, _) in &p.blocks[b].succs {
            if !seen[*s as usize] {
                seen[*s as usize] = true;
                st.push(*s as usize);
            }
        }
    }
    let mut gone = vec![];
    let mut b = n;
    while b > 0 {
        b -= 1;
        if !seen[b] {
            let at: u32 = p.blocks[..b].iter().map(|q| q.ins.len() as u32 + 1).sum();
            let bl = p.blocks.remove(b);
            fix_labels(p, at, bl.ins.len() as u32 + 1);
            for i in bl.ins.iter().chain(std::iter::once(&bl.term)) {
                gone.extend(i.ops.iter().filter(|o| o.def).map(|o| o.v));
            }
            gone.extend(bl.params.iter());
            for q in p.blocks.iter_mut() {
                for s in q.succs.iter_mut() {
                    if s.0 as usize > b {
                        s.0 -= 1;
                    }
                }
            }
            if p.entry as usize > b {
                p.entry -= 1;
            }
        }
    }
    for v in gone {
        drop_uses(p, v);
    }
}

/// Append block b to its only predecessor (params become renamed args).
fn merge(p: &mut Prog, b: usize) {
    let mut preds = vec![];
    for (q, bl) in p.blocks.iter().enumerate() {
        for (s, _) in &bl.succs {
            if *s as usize == b {
                preds.push(q);
            }
        }
    }
    if preds.len() != 1 || preds[0] == b || p.blocks[preds[0]].succs.len() != 1 {
        return;
    }
    if b == p.entry as usize {
        return;
    }
    let a = preds[0];
    let args = p.blocks[a].succs[0].1.clone();
    let params = p.blocks[b].params.clone();
    let bl = p.blocks[b].clone();
    p.dbg.clear();
    p.blocks[a].ins.extend(bl.ins);
    p.blocks[a].term = bl.term;
    p.blocks[a].succs = bl.succs;
    p.blocks[b].succs.clear();
    p.blocks[b].ins.clear();
    p.blocks[b].params.clear();
    p.blocks[b].term = Ins::default();
    for (q, v) in params.iter().zip(args) {
        rename(p, *q, v);
    }
    // b is unreachable now
    prune(p);
}

fn rename(p: &mut Prog, from: u32, to: u32) {
    for b in p.blocks.iter_mut() {
        for i in b.ins.iter_mut().chain(std::iter::once(&mut b.term)) {
            for o in i.ops.iter_mut() {
                if o.v == from {
                    o.v = to;
                }
            }
        }
        for s in b.succs.iter_mut() {
            for a in s.1.iter_mut() {
                if *a == from {
                    *a = to;
                }
            }
        }
    }
}

fn fix_labels(p: &mut Prog, at: u32, n: u32) {
    for d in p.dbg.iter_mut() {
        for x in [&mut d.1, &mut d.2] {
            if *x >= at + n {
                *x -= n;
            } else if *x > at {
                *x = at;
            }
        }
    }
}

fn compact_vregs(p: &mut Prog) {
    let mut used = vec![false; p.vclass.len()];
    for b in &p.blocks {
        for &v in &b.params {
            used[v as usize] = true;
        }
        for i in b.ins.iter().chain(std::iter::once(&b.term)) {
            for o in &i.ops {
                used[o.v as usize] = true;
            }
        }
        for (_, a) in &b.succs {
            for &v in a {
                used[v as usize] = true;
            }
        }
    }
    for d in &p.dbg {
        used[d.0 as usize] = true;
    }
    let mut map = vec![u32::MAX; used.len()];
    let mut nc = vec![];
    for (v, u) in used.iter().enumerate() {
        if *u {
            map[v] = nc.len() as u32;
            nc.push(p.vclass[v]);
        }
    }
    p.vclass = nc;
    crate::gen::rename_vregs(p, &map);
}

/// Human-readable listing for reports.
pub fn show(p: &Prog, e: &Env) -> Vec<String> {
    let mut o = vec![];
    let reg = |c: u8, h: u8| format!("{}", preg(c, h));
    for c in 0..3u8 {
        let ci = c as usize;
        if e.num(c) == 0 && e.scratch[ci].is_none() {
            continue;
        }
        o.push(format!(
            "class {c}: preferred {:?} non-preferred {:?} scratch {:?} slot size {}",
            e.pref[ci], e.nonpref[ci], e.scratch[ci], p.slot_size[ci]
        ));
    }
    if !e.fixed_stack.is_empty() {
        let v: Vec<String> = e.fixed_stack.iter().map(|&(c, h)| reg(c, h)).collect();
        o.push(format!("fixed stack slots: {}", v.join(" ")));
    }
    let mut n = 0;
    for (b, bl) in p.blocks.iter().enumerate() {
        let ps: Vec<String> = bl.params.iter().map(|v| format!("v{v}")).collect();
        o.push(format!(
            "block{b}({}){}:",
            ps.join(", "),
            if b == p.entry as usize { " [entry]" } else { "" }
        ));
        for (k, i) in bl.ins.iter().chain(std::iter::once(&bl.term)).enumerate() {
            let ops: Vec<String> = i
                .ops
                .iter()
                .map(|q| {
                    let c = match q.c {
                        Cons::Fixed(h) => format!("fixed {}", reg(p.vclass[q.v as usize], h)),
                        x => format!("{x:?}").to_lowercase(),
                    };
                    format!(
                        "{}{} v{} {}",
                        if q.late { "late " } else { "early " },
                        if q.def { "def" } else { "use" },
                        q.v,
                        c
                    )
                })
                .collect();
            let cl: Vec<String> = i.clob.iter().map(|&(c, h)| reg(c, h)).collect();
            let na: Vec<String> = i.nonalloc.iter().map(|&(c, h)| reg(c, h)).collect();
            let mut s = format!("  inst{n}: {}", ops.join("; "));
            if !cl.is_empty() {
                s += &format!(" clobbers {}", cl.join(" "));
            }
            if !na.is_empty() {
                s += &format!(" nonallocatable {}", na.join(" "));
            }
            if k == bl.ins.len() {
                if bl.succs.is_empty() {
                    s += " [ret]";
                } else {
                    let t: Vec<String> = bl
                        .succs
                        .iter()
                        .map(|(t, a)| {
                            let a: Vec<String> = a.iter().map(|v| format!("v{v}")).collect();
                            format!("block{t}({})", a.join(", "))
                        })
                        .collect();
                    s += &format!(" [branch {}]", t.join(" "));
                }
            }
            o.push(s);
            n += 1;
        }
    }
    let vc: Vec<String> = p.vclass.iter().map(|c| c.to_string()).collect();
    o.push(format!("vreg classes: {}", vc.join(" ")));
    for d in &p.dbg {
        o.push(format!("label {} on v{} for inst{}..inst{}", d.3, d.0, d.1, d.2));
    }
    o
}
