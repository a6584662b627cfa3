//! C15: the allocator on a simulated clock. The clock counts the code regions
//! the crate executes (coverage counters of an instrumented build) and the
//! bytes it asks the heap for; both are exact functions of the run. A function
//! is made of k copies of one random piece, and the clock must advance about
//! k times as far.

use crate::alloc::*;
use crate::fw::*;
use crate::gen::*;
use crate::mcheck::{out_hash, prog_hash};
use crate::prog::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Form {
    /// The copies follow each other.
    Chain,
    /// A block with k successors; the copies are joined again.
    Fan,
    /// The copies of a straight piece make up one block.
    Block,
    /// Every copy is the body of a loop of its own.
    Loops,
    /// All copies are in one loop.
    Loop,
    /// A join with k parameters per piece vreg, from two or more predecessors.
    Wide,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct WSc {
    pub form: Form,
    pub fast: bool,
    pub piece: Prog,
    pub env: Env,
    /// Copies: small, medium, large.
    pub ks: [u32; 3],
    /// Values that live from the first to the last copy: (class, every how
    /// many copies they are used, how).
    pub long: Vec<(u8, u32, Cons)>,
    /// Block parameters handed from copy to copy.
    pub carried: Vec<u8>,
    /// Order in which blocks are listed: 0 as made, 1 backwards (not drawn: see
    /// DESIGN.md), 2 shuffled,
    /// 3 some of each copy at the end.
    pub order: u8,
    pub shuffle: u64,
    /// Per cent of the vregs that carry a debug label for a while.
    pub labels: u32,
    /// Size wanted of the largest function.
    pub big: u64,
}

/// What one allocation cost.
#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub work: u64,
    pub bytes: u64,
    pub peak: u64,
    pub stack: u64,
    pub edges: u64,
}

#[cfg(feature = "work")]
mod clock {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *mut u64;
        fn __llvm_profile_end_counters() -> *mut u64;
    }
    fn counters() -> &'static mut [u64] {
        // SAFETY: the counter section of this program; nothing else runs.
        unsafe {
            let b = __llvm_profile_begin_counters();
            let e = __llvm_profile_end_counters();
            std::slice::from_raw_parts_mut(b, (e as usize - b as usize) / 8)
        }
    }
    pub fn reset() {
        counters().fill(0);
    }
    pub fn read() -> u64 {
        counters().iter().sum()
    }
}
/// The second clock: edges of the control flow graph taken in everything that is
/// compiled with the crate, generic code of the standard library (sorting,
/// searching, collections) included.
#[cfg(feature = "work")]
pub mod edges {
    use std::sync::atomic::{AtomicU64, Ordering};
    pub static TAKEN: AtomicU64 = AtomicU64::new(0);
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_from: *mut u32, _to: *mut u32) {}
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
        // one thread only
        TAKEN.store(TAKEN.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    }
    pub fn read() -> u64 {
        TAKEN.load(Ordering::Relaxed)
    }
}
#[cfg(not(feature = "work"))]
mod edges {
    pub fn read() -> u64 {
        0
    }
}
#[cfg(not(feature = "work"))]
mod clock {
    pub fn reset() {}
    pub fn read() -> u64 {
        1
    }
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    crate::poison::meter_start();
    clock::reset();
    let from = edges::read();
    let x = f();
    let edges = edges::read() - from;
    let work = clock::read();
    let (bytes, peak) = crate::poison::meter_stop();
    let stack = crate::poison::meter_stack();
    (x, Cost { work, bytes, peak, stack, edges })
}

impl WSc {
    /// k copies of the piece.
    pub fn build(&self, k: usize) -> Prog {
        let mut q = self.copies(k);
        if self.labels > 0 {
            let mut r = Rng::new(self.shuffle ^ 0x1abe1);
            let mut at = 0;
            for b in &q.blocks {
                // Long-lived values may carry many labels, one after the other.
                if !self.long.is_empty() && self.shuffle % 3 != 0 {
                    for i in (0..=b.ins.len() as u32).step_by(2) {
                        if r.pct(self.labels) {
                            let v = r.below(self.long.len().min(1 + self.shuffle as usize % 4)) as u32;
                            q.dbg.push((v, at + i, at + i + r.range(1, 8) as u32, v % 5));
                        }
                    }
                }
                for v in b.params.iter().copied().chain(b.ins.iter().flat_map(|i| i.ops.iter().filter(|o| o.def).map(|o| o.v))) {
                    if r.pct(self.labels) {
                        q.dbg.push((v, at, at + r.range(1, 30) as u32, v % 5));
                    }
                }
                at += b.ins.len() as u32 + 1;
            }
            q.dbg.iter_mut().for_each(|d| d.2 = d.2.min(at));
            q.dbg.sort();
        }
        q
    }
    fn copies(&self, k: usize) -> Prog {
        let p = &self.piece;
        let n = p.blocks.len();
        let mut q = Prog {
            slot_size: p.slot_size,
            by_last: p.by_last,
            ..Prog::default()
        };
        // block 0: where the long-lived values come from
        let mut head = Blk::default();
        for &(c, _, _) in &self.long {
            let v = q.vclass.len() as u32;
            q.vclass.push(c);
            head.ins.push(Ins { ops: vec![Opnd { v, c: Cons::Any, def: true, late: true }], ..Ins::default() });
        }
        let mut carried: Vec<u32> = vec![];
        for &c in &self.carried {
            let v = q.vclass.len() as u32;
            q.vclass.push(c);
            head.ins.push(Ins { ops: vec![Opnd { v, c: Cons::Any, def: true, late: true }], ..Ins::default() });
            carried.push(v);
        }
        let long_uses = |i: usize| -> Vec<Ins> {
            self.long
                .iter()
                .enumerate()
                .filter(|(_, l)| i as u32 % l.1 == 0)
                .map(|(v, l)| Ins { ops: vec![Opnd { v: v as u32, c: l.2, def: false, late: false }], ..Ins::default() })
                .collect()
        };
        if self.form == Form::Block {
            let mut b = head;
            for i in 0..k {
                let off = q.vclass.len() as u32;
                q.vclass.extend(&p.vclass);
                b.ins.extend(long_uses(i));
                b.ins.extend(p.blocks[0].ins.iter().map(|x| shift(x, off)));
            }
            q.blocks.push(b);
            return q;
        }
        if self.form == Form::Wide {
            // head: 2..4 predecessors, each defines k values and passes them
            let np = 2 + self.shuffle as usize % 3;
            let cls = |j: usize| p.vclass.get(j % p.vclass.len().max(1)).copied().unwrap_or(0);
            let join = np as u32 + 1;
            head.succs = (0..np).map(|x| (x as u32 + 1, vec![])).collect();
            q.blocks.push(head);
            for x in 0..np {
                let mut b = Blk::default();
                let mut args = vec![];
                for j in 0..k {
                    let v = q.vclass.len() as u32;
                    q.vclass.push(cls(j));
                    b.ins.push(Ins { ops: vec![Opnd { v, c: Cons::Any, def: true, late: true }], ..Ins::default() });
                    args.push(v);
                }
                if x % 2 == 1 {
                    // another order, within each class
                    let mut r = Rng::new(self.shuffle);
                    for c in 0..3 {
                        let at: Vec<usize> = (0..k).filter(|&j| cls(j) == c).collect();
                        let mut to = at.clone();
                        r.shuffle(&mut to);
                        let old = args.clone();
                        for (a, t) in at.iter().zip(&to) {
                            args[*a] = old[*t];
                        }
                    }
                }
                b.succs = vec![(join, args)];
                q.blocks.push(b);
            }
            let mut b = Blk::default();
            for j in 0..k {
                let v = q.vclass.len() as u32;
                q.vclass.push(cls(j));
                b.params.push(v);
                if j % 3 != 2 {
                    b.ins.push(Ins { ops: vec![Opnd { v, c: Cons::Any, def: false, late: false }], ..Ins::default() });
                }
            }
            for i in 0..k {
                b.ins.extend(long_uses(i));
            }
            q.blocks.push(b);
            return q;
        }
        // entry block of copy i; the exit is one past the last copy
        let per = n + 1 + (self.form == Form::Loops) as usize;
        let first = |i: usize| (1 + i * per) as u32;
        let exit = first(k);
        match self.form {
            Form::Fan => {
                head.succs = (0..k).map(|i| (first(i), carried.clone())).collect();
            }
            Form::Loop => head.succs = vec![(first(0), carried.clone())],
            _ => head.succs = vec![(first(0), carried.clone())],
        }
        q.blocks.push(head);
        for i in 0..k {
            // A block of its own in front of the copy takes the parameters.
            let mut pre = Blk::default();
            let mut cur = vec![];
            for &c in &self.carried {
                let v = q.vclass.len() as u32;
                q.vclass.push(c);
                pre.params.push(v);
                cur.push(v);
            }
            pre.ins.extend(long_uses(i));
            let off = q.vclass.len() as u32;
            q.vclass.extend(&p.vclass);
            let b0 = first(i) + 1;
            pre.succs = vec![(b0 + p.entry, vec![])];
            q.blocks.push(pre);
            let next = match self.form {
                Form::Fan => exit,
                Form::Loops => b0 + n as u32,
                _ => first(i + 1),
            };
            let mut onward = cur.clone();
            if onward.len() > 1 {
                onward.rotate_left(1);
                if self.carried.windows(2).any(|w| w[0] != w[1]) {
                    onward = cur.clone();
                }
            }
            for b in &p.blocks {
                let mut nb = Blk {
                    params: b.params.iter().map(|v| v + off).collect(),
                    ins: b.ins.iter().map(|x| shift(x, off)).collect(),
                    term: shift(&b.term, off),
                    succs: b.succs.iter().map(|(s, a)| (s + b0, a.iter().map(|v| v + off).collect())).collect(),
                };
                if b.succs.is_empty() {
                    // returns of the piece go on to the next copy
                    let t = std::mem::take(&mut nb.term);
                    nb.ins.push(t);
                    let args = if self.form == Form::Loops { vec![] } else { onward.clone() };
                    nb.succs = vec![(next, args)];
                }
                q.blocks.push(nb);
            }
            if self.form == Form::Loops {
                // the latch has two ways out, and both need a block of their own:
                // the loop header is `pre`, reached by the back edge through
                // block `back`
                let latch = q.blocks.len() as u32;
                debug_assert_eq!(latch, next);
                let mut l = Blk::default();
                l.succs = vec![(exit_stub(k, per, i, true), vec![]), (exit_stub(k, per, i, false), vec![])];
                q.blocks.push(l);
                // arguments are put in when the stubs are made
                carried = onward;
                self.remember(&mut q, i, &carried);
            }
        }
        if self.form == Form::Loops {
            // exit block, then two stubs per copy: back to the header, onward
            let mut tail = Blk::default();
            for &c in &self.carried {
                let v = q.vclass.len() as u32;
                q.vclass.push(c);
                tail.params.push(v);
            }
            q.blocks.push(tail);
            for i in 0..k {
                let args = std::mem::take(&mut q.blocks[first(i) as usize + n + 1].params);
                q.blocks.push(Blk { succs: vec![(first(i), args.clone())], ..Blk::default() });
                q.blocks.push(Blk { succs: vec![(first(i + 1), args)], ..Blk::default() });
            }
        } else {
            let mut tail = Blk::default();
            for &c in &self.carried {
                let v = q.vclass.len() as u32;
                q.vclass.push(c);
                tail.params.push(v);
            }
            if self.form == Form::Loop {
                // tail: back to the first copy, or out
                let t = q.blocks.len() as u32;
                tail.succs = vec![(t + 1, vec![]), (t + 2, vec![])];
                let a = tail.params.clone();
                q.blocks.push(tail);
                q.blocks.push(Blk { succs: vec![(first(0), a)], ..Blk::default() });
                q.blocks.push(Blk::default());
            } else {
                q.blocks.push(tail);
            }
        }
        if self.form == Form::Loops {
            // the stubs belong next to their latch
            let mut perm: Vec<usize> = vec![0];
            for i in 0..k {
                let a = first(i) as usize;
                perm.extend(a..a + per);
                let e = exit as usize + 1 + 2 * i;
                perm.extend([e, e + 1]);
            }
            perm.push(exit as usize);
            permute_blocks(&mut q, &perm);
        }
        let nb = q.blocks.len();
        match self.order {
            1 => permute_blocks(&mut q, &(0..nb).rev().collect::<Vec<_>>()),
            2 => {
                let mut perm: Vec<usize> = (0..nb).collect();
                Rng::new(self.shuffle).shuffle(&mut perm);
                permute_blocks(&mut q, &perm);
            }
            3 => {
                // "Cold" blocks go to the end of the function.
                let per = per + 2 * (self.form == Form::Loops) as usize;
                let mut r = Rng::new(self.shuffle);
                let cold: Vec<bool> = (0..per).map(|_| r.pct(40)).collect();
                let is_cold = |b: usize| b > 0 && b <= k * per && cold[(b - 1) % per];
                let (c, mut perm): (Vec<usize>, Vec<usize>) = (0..nb).partition(|&b| is_cold(b));
                perm.extend(c);
                permute_blocks(&mut q, &perm);
            }
            _ => {}
        }
        q
    }
    /// Parks the arguments for the stubs of loop i with its latch.
    fn remember(&self, q: &mut Prog, i: usize, a: &[u32]) {
        let per = self.piece.blocks.len() + 2;
        let latch = 1 + i * per + self.piece.blocks.len() + 1;
        q.blocks[latch].params = a.to_vec();
    }
    fn small(&self) -> Prog {
        self.build(2)
    }
    /// Chooses the number of copies.
    fn fit(&mut self) {
        let d = size(&self.build(3)).saturating_sub(size(&self.small())).max(1);
        let k = (self.big / d).max(32) as u32;
        self.ks = [k / 16, k / 4, k];
    }
    /// Does the number of values fastalloc carries stay the same?
    fn fair(&self) -> bool {
        if !self.fast {
            return true;
        }
        let [a, b] = [0, 2].map(|i| carried_by_fastalloc(&self.build(self.ks[i] as usize)));
        b <= 1.25 * a + 2.0
    }
    fn valid(&self) -> bool {
        check_valid(&self.small(), &self.env, Limits { fastalloc: self.fast }).is_ok()
    }
}

fn exit_stub(k: usize, per: usize, i: usize, back: bool) -> u32 {
    (1 + k * per + 1 + 2 * i + !back as usize) as u32
}

fn shift(i: &Ins, off: u32) -> Ins {
    let mut j = i.clone();
    for o in j.ops.iter_mut() {
        o.v += off;
    }
    j
}

fn size(p: &Prog) -> u64 {
    p.blocks
        .iter()
        .map(|b| {
            1 + b.params.len()
                + b.succs.iter().map(|s| 1 + s.1.len()).sum::<usize>()
                + b.ins.iter().chain(std::iter::once(&b.term)).map(|i| 1 + i.ops.len() + i.clob.len()).sum::<usize>()
        })
        .sum::<usize>() as u64
}

/// What one unit of function size may cost.
struct Bound {
    /// Growth from the smallest to the largest function.
    sixteen: f64,
    /// Growth from one to the next.
    four: f64,
    /// Cost of a unit.
    unit: f64,
}
/// [work, bytes]. DESIGN.md has what was measured.
fn bounds(fast: bool, form: Form) -> [Bound; 2] {
    // Where k branches meet, caps on quadratic work (200 ranges in a merge, 10
    // probes for a spill slot) are approached late, and fastalloc looks through
    // the k successors of a block.
    let meet = matches!(form, Form::Fan | Form::Wide);
    match (fast, meet) {
        (true, false) => [Bound { sixteen: 1.7, four: 1.5, unit: 1_500.0 }, Bound { sixteen: 4.0, four: 3.0, unit: 600.0 }],
        (true, true) => [Bound { sixteen: 2.7, four: 2.2, unit: 1_500.0 }, Bound { sixteen: 4.0, four: 3.0, unit: 600.0 }],
        (false, false) => [Bound { sixteen: 3.3, four: 2.5, unit: 25_000.0 }, Bound { sixteen: 5.0, four: 4.0, unit: 8_000.0 }],
        (false, true) => [Bound { sixteen: 4.4, four: 3.3, unit: 25_000.0 }, Bound { sixteen: 5.0, four: 4.0, unit: 8_000.0 }],
    }
}

/// Bytes of stack in use, and how many more in the largest function.
const STACK: u64 = 1 << 20;
const STACK_GROWTH: u64 = 1 << 14;

pub struct C15;

impl Check for C15 {
    type Sc = WSc;
    const META: Meta = Meta {
        id: "C15",
        rule: "One run makes functions of three sizes (up to some thousands of instructions) out of copies of one random piece (in sequence, side by side, in one block, in loops, or a join with as many parameters) and allocates each with one algorithm; cost per copy must not grow with the number of copies. Non-trivial: the largest function has at least 2000 instructions, operands and arguments.",
        state_measure: "distinct (function, output) pairs, by hash",
        real: &["regalloc2: everything under run(), instrumented with execution counters"],
        stub: &["the client", "the clock (executed code regions, requested heap bytes)"],
        assumptions: &[
            "executed code regions of the crate, and edges taken in it and in the generic code it uses, stand for time",
            "growth is judged between functions of a few hundred and of several thousand instructions",
        ],
        quick_runs: 3000,
        thorough_runs: 120_000,
        checked_too: false,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, idx: u64, thorough: bool) -> WSc {
        if std::env::var("RASIM_COST").is_ok() {
            eprintln!("run {idx}");
        }
        loop {
            if let Some(s) = gen_once(r, thorough) {
                return s;
            }
        }
    }
    fn exec(sc: &WSc, cov: &mut Cov) -> Result<(), Fail> {
        let env = sc.env.lower();
        let o = opts(sc.fast, false, false);
        let mut got: Vec<(u64, Cost, usize)> = vec![];
        for &k in &sc.ks {
            let p = sc.build(k as usize);
            let f = p.lower();
            let h = prog_hash(&p, &sc.env);
            let (res, c) = measure(|| run_fresh(&f, &env, &o));
            cov.ev(h);
            match res {
                Res::Ok(out) => {
                    let oh = out_hash(&out);
                    cov.ev(oh);
                    cov.states.push(crate::rng::mix2(h, oh));
                }
                // C07 judges this
                _ => {
                    cov.hit("work.refused");
                    return Ok(());
                }
            }
            cov.ev(c.work);
            cov.ev(c.edges);
            cov.ev(c.bytes);
            cov.ev(c.peak);
            cov.max("max.stack_bytes", c.stack);
            cov.steps += c.work;
            got.push((size(&p), c, f.insts.len()));
        }
        cov.hit(if sc.fast { "work.fastalloc_runs" } else { "work.ion_runs" });
        cov.hit(match sc.form {
            Form::Chain => "work.chain",
            Form::Fan => "work.fan",
            Form::Block => "work.block",
            Form::Loops => "work.loops",
            Form::Loop => "work.loop",
            Form::Wide => "work.wide",
        });
        cov.add("work.instructions", got.iter().map(|g| g.2 as u64).sum());
        cov.nontrivial = got[2].0 >= 2000;
        if std::env::var("RASIM_COST").is_ok() {
            let per = |x: usize, f: fn(&Cost) -> u64| f(&got[x].1) as f64 / got[x].0 as f64;
            eprintln!(
                "cost {:?} {} n {} {} {} work {:.1} {:.1} {:.1} bytes {:.1} {:.1} {:.1} peak {:.1} {:.1} {:.1} {:x} edges {:.1} {:.1} {:.1}",
                sc.form, if sc.fast { "fast" } else { "ion" }, got[0].0, got[1].0, got[2].0,
                per(0, |c| c.work), per(1, |c| c.work), per(2, |c| c.work),
                per(0, |c| c.bytes), per(1, |c| c.bytes), per(2, |c| c.bytes),
                per(0, |c| c.peak), per(1, |c| c.peak), per(2, |c| c.peak), prog_hash(&sc.piece, &sc.env),
                per(0, |c| c.edges), per(1, |c| c.edges), per(2, |c| c.edges),
            );
        }
        // Judged: how much more one unit of the function costs, and that no unit
        // costs an absurd amount.
        let lim = bounds(sc.fast, sc.form);
        for (what, get, l) in [
            ("work", (|c: &Cost| c.work) as fn(&Cost) -> u64, &lim[0]),
            ("edges", |c: &Cost| c.edges, &lim[0]),
            ("bytes", |c: &Cost| c.bytes, &lim[1]),
            ("peak", |c: &Cost| c.peak, &lim[1]),
        ] {
            let per: Vec<f64> = got.iter().map(|(n, c, _)| get(c) as f64 / *n as f64).collect();
            let g = [per[1] / per[0], per[2] / per[1], per[2] / per[0]];
            cov.max(match what {
                "work" => "max.work_growth_permille",
                "edges" => "max.edges_growth_permille",
                "bytes" => "max.bytes_growth_permille",
                _ => "max.peak_growth_permille",
            }, (g[2] * 1000.0) as u64);
            let over = if g[2] > l.sixteen {
                format!("grows {:.2} times", g[2])
            } else if g[0].max(g[1]) > l.four {
                format!("grows {:.2} times in one step", g[0].max(g[1]))
            } else if per.iter().any(|&x| x > l.unit) {
                "is beyond any reason".to_string()
            } else {
                continue;
            };
            return fail(
                what,
                format!(
                    "{what} per unit of function size {over}: {:.1}, {:.1}, {:.1} at sizes {}, {}, {}",
                    per[0], per[1], per[2], got[0].0, got[1].0, got[2].0
                ),
            );
        }
        let stack = [0, 2].map(|i: usize| got[i].1.stack);
        cov.max("max.stack_growth_bytes", stack[1].saturating_sub(stack[0]));
        if stack[1] > stack[0] + STACK_GROWTH || stack[1] > STACK {
            return fail("stack", format!("{} bytes of stack in use at size {}, {} at size {}", stack[1], got[2].0, stack[0], got[0].0));
        }
        Ok(())
    }
    fn shrink(sc: &WSc, bad: &mut dyn FnMut(&WSc) -> bool) -> WSc {
        let mut cur = sc.clone();
        let mut left = 250;
        let mut attempt = |cur: &mut WSc, mut x: WSc| -> bool {
            if left == 0 || !x.valid() {
                return false;
            }
            left -= 1;
            x.fit();
            if x.fair() && bad(&x) {
                *cur = x;
                return true;
            }
            false
        };
        let with = |c: &WSc, f: &dyn Fn(&mut WSc)| {
            let mut x = c.clone();
            f(&mut x);
            x
        };
        let x = with(&cur, &|x| x.big = 8000);
        attempt(&mut cur, x);
        for f in [(|x| x.labels = 0) as fn(&mut WSc), |x| x.order = 0, |x| x.long.clear(), |x| x.carried.clear()] {
            let x = with(&cur, &f);
            attempt(&mut cur, x);
        }
        for i in (0..cur.long.len()).rev() {
            let x = with(&cur, &|x| {
                x.long.remove(i);
            });
            attempt(&mut cur, x);
        }
        for i in (0..cur.carried.len()).rev() {
            let x = with(&cur, &|x| {
                x.carried.remove(i);
            });
            attempt(&mut cur, x);
        }
        let base = cur.clone();
        let put = |p: &Prog, e: &Env| {
            let mut x = base.clone();
            x.piece = p.clone();
            x.env = e.clone();
            x
        };
        let ret = |p: &Prog| matches!(base.form, Form::Block | Form::Wide) || p.blocks.iter().any(|b| b.succs.is_empty());
        crate::shrink::shrink(
            &base.piece,
            &base.env,
            &|p, e| !p.blocks.is_empty() && (base.form != Form::Block || p.blocks.len() == 1) && ret(p) && put(p, e).valid(),
            &mut |p, e| {
                let mut c = base.clone();
                attempt(&mut c, put(p, e)) && {
                    cur = c;
                    true
                }
            },
            200,
        );
        cur
    }
    fn show(sc: &WSc) -> Vec<String> {
        let mut s = vec![format!(
            "{:?}, {}; labels on {}% of the values; copies {:?}; long-lived {:?}; carried {:?}; block order {}",
            sc.form, if sc.fast { "fastalloc" } else { "ion" }, sc.labels, sc.ks, sc.long, sc.carried, sc.order
        )];
        s.extend(crate::shrink::show(&sc.piece, &sc.env));
        s
    }
}

fn gen_once(r: &mut Rng, thorough: bool) -> Option<WSc> {
    let fast = r.pct(40);
    let lim = Limits { fastalloc: fast };
    let form = match r.below(12) {
        0..=3 => Form::Chain,
        4 | 5 => Form::Fan,
        6 | 7 => Form::Block,
        8 => Form::Loops,
        9 | 10 => Form::Loop,
        _ => Form::Wide,
    };
    // A few long-lived values, split everywhere, with labels all over.
    let labelled = r.pct(4);
    let form = if labelled { Form::Block } else { form };
    let mut kn = gen_knobs(r, lim, false);
    if form == Form::Block {
        kn.nblocks = 1;
        kn.ins_per_block = if labelled { r.range(1, 4) } else { r.range(2, 30) };
    } else {
        kn.nblocks = r.range(1, 9);
    }
    kn.labels = 0;
    kn.multi_defs = false;
    kn.vreg_stride = 1;
    kn.pm_wide = 0;
    let env = gen_env(r, &kn.classes, if fast { 4 } else { 3 });
    let mut piece = gen_prog(r, &kn, &env);
    piece.dbg.clear();
    if form != Form::Block && form != Form::Wide && !piece.blocks.iter().any(|b| b.succs.is_empty()) {
        return None;
    }
    let mut sc = WSc {
        form,
        fast,
        piece,
        env,
        ks: [2, 3, 4],
        long: vec![],
        carried: vec![],
        order: if r.pct(35) { r.range(2, 3) as u8 } else { 0 },
        shuffle: r.next(),
        labels: if r.pct(20) { r.range(1, 100) as u32 } else { 0 },
        big: match r.below(100) {
            0..=3 => r.range(30_000, 60_000),
            4..=6 if thorough => r.range(60_000, 250_000),
            _ => r.range(6_000, 14_000),
        } as u64,
    };
    let cls = kn.classes.clone();
    if r.pct(60) {
        for _ in 0..r.range(1, 24) {
            let every = *r.pick(&[1u32, 1, 2, 7, 40, 1000]);
            let c = match r.below(4) {
                0 => Cons::Reg,
                _ => Cons::Any,
            };
            sc.long.push((*r.pick(&cls), every, c));
        }
    }
    if labelled || r.pct(20) {
        // More of them than registers.
        let c = *r.pick(&cls);
        let n = sc.env.pref[c as usize].len() + sc.env.nonpref[c as usize].len();
        let reg = if labelled { 100 } else { 50 };
        if labelled {
            sc.labels = r.range(50, 100) as u32;
            sc.long.clear();
            sc.big = r.range(30_000, 60_000) as u64;
        }
        if n <= 24 {
            for _ in 0..n + r.range(1, 6) {
                sc.long.push((c, r.range(1, 4) as u32, if r.pct(reg) { Cons::Reg } else { Cons::Any }));
            }
        }
    }
    if !matches!(form, Form::Block | Form::Wide) && r.pct(50) {
        let c = *r.pick(&cls);
        for _ in 0..r.range(1, 8) {
            sc.carried.push(if r.pct(30) { *r.pick(&cls) } else { c });
        }
    }
    if !sc.valid() {
        return None;
    }
    sc.fit();
    if !sc.fair() {
        return None;
    }
    Some(sc)
}

/// Fastalloc goes once over the blocks in postorder, and carries a value from
/// the first use it meets to the definition. How many values it carries from
/// block to block, on average.
fn carried_by_fastalloc(p: &Prog) -> f64 {
    let n = p.blocks.len();
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut stack = vec![(p.entry as usize, 0)];
    seen[p.entry as usize] = true;
    while let Some((b, i)) = stack.pop() {
        match p.blocks[b].succs.get(i) {
            Some(&(s, _)) => {
                stack.push((b, i + 1));
                if !seen[s as usize] {
                    seen[s as usize] = true;
                    stack.push((s as usize, 0));
                }
            }
            None => post.push(b),
        }
    }
    let mut open = vec![false; p.vclass.len()];
    let (mut now, mut sum) = (0u64, 0u64);
    for b in post {
        let b = &p.blocks[b];
        let mut set = |v: u32, to: bool| {
            let o = &mut open[v as usize];
            now = now + to as u64 - *o as u64;
            *o = to;
        };
        b.succs.iter().flat_map(|s| &s.1).for_each(|&v| set(v, true));
        for i in std::iter::once(&b.term).chain(b.ins.iter().rev()) {
            i.ops.iter().filter(|o| o.def).for_each(|o| set(o.v, false));
            i.ops.iter().filter(|o| !o.def).for_each(|o| set(o.v, true));
        }
        b.params.iter().for_each(|&v| set(v, false));
        sum += now;
    }
    sum as f64 / n as f64
}
