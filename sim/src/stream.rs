//! Functions and outputs through unreliable byte streams (C10).

use crate::alloc::*;
use crate::fw::*;
use crate::history::*;
use crate::mcheck::*;
use crate::prog::*;
use crate::rng::{mix2, Rng};
use regalloc2::serialize::SerializableFunction;
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum WFault {
    None,
    /// The write that would reach this permille of the stream fails.
    Error(u32),
    /// ... takes nothing (full disk).
    Full(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Damage {
    None,
    /// Cut off at this millionth of the stream (crash while writing).
    Cut(u32),
    /// One bit flipped there.
    Flip(u32, u8),
    /// A byte overwritten there.
    Byte(u32, u8),
    /// A stretch of bytes lost there.
    Lost(u32, u8),
    /// Reading fails there.
    ReadError(u32),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct SSc {
    pub units: Vec<Unit>,
    /// (unit, what: 0 function, 1 Ion's output, 2 fastalloc's output)
    pub items: Vec<(usize, u8)>,
    pub json: bool,
    pub wfault: WFault,
    pub damage: Damage,
    /// Seed of the pattern of short and interrupted operations; None: whole
    /// buffers at once.
    pub chop: Option<u64>,
}

struct FaultyW {
    data: Vec<u8>,
    rng: Option<Rng>,
    fail_at: Option<(usize, bool)>,
    ops: u64,
    short: u64,
    intr: u64,
    hit: bool,
}

impl Write for FaultyW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.ops += 1;
        let mut n = b.len();
        if let Some(r) = &mut self.rng {
            match r.below(8) {
                0 => {
                    self.intr += 1;
                    return Err(Error::from(ErrorKind::Interrupted));
                }
                1..=4 if n > 1 => {
                    n = r.range(1, n - 1);
                    self.short += 1;
                }
                _ => {}
            }
        }
        if let Some((at, full)) = self.fail_at {
            let room = at.saturating_sub(self.data.len());
            if room == 0 && n > 0 {
                self.hit = true;
                return if full { Ok(0) } else { Err(Error::new(ErrorKind::Other, "injected write error")) };
            }
            n = n.min(room);
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct FaultyR<'a> {
    data: &'a [u8],
    pos: usize,
    rng: Option<Rng>,
    fail_at: Option<usize>,
    ops: u64,
    short: u64,
    intr: u64,
    after_end: u64,
}

impl<'a> Read for FaultyR<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.ops += 1;
        let mut n = b.len().min(self.data.len() - self.pos);
        if n == 0 && !b.is_empty() {
            self.after_end += 1;
            if self.after_end > 100_000 {
                panic!("reads on and on after the end of the stream");
            }
        }
        if let Some(r) = &mut self.rng {
            match r.below(8) {
                0 => {
                    self.intr += 1;
                    return Err(Error::from(ErrorKind::Interrupted));
                }
                1..=4 if n > 1 => {
                    n = r.range(1, n - 1);
                    self.short += 1;
                }
                _ => {}
            }
        }
        if let Some(at) = self.fail_at {
            let room = at.saturating_sub(self.pos);
            if room == 0 && n > 0 {
                return Err(Error::new(ErrorKind::Other, "injected read error"));
            }
            n = n.min(room);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

enum Item {
    F(SerializableFunction),
    O(Output),
}

fn write_item<W: Write>(w: &mut W, it: &Item, json: bool) -> Result<(), String> {
    match (it, json) {
        (Item::F(f), false) => bincode::serialize_into(w, f).map_err(|e| e.to_string()),
        (Item::F(f), true) => serde_json::to_writer(w, f).map_err(|e| e.to_string()),
        (Item::O(f), false) => bincode::serialize_into(w, f).map_err(|e| e.to_string()),
        (Item::O(f), true) => serde_json::to_writer(w, f).map_err(|e| e.to_string()),
    }
}

fn read_item<R: Read>(mut r: &mut R, func: bool, json: bool) -> Result<Item, String> {
    if json {
        let mut de = serde_json::Deserializer::from_reader(&mut r);
        if func {
            SerializableFunction::deserialize(&mut de).map(Item::F).map_err(|e| e.to_string())
        } else {
            Output::deserialize(&mut de).map(Item::O).map_err(|e| e.to_string())
        }
    } else if func {
        bincode::deserialize_from(&mut r).map(Item::F).map_err(|e| e.to_string())
    } else {
        bincode::deserialize_from(&mut r).map(Item::O).map_err(|e| e.to_string())
    }
}

/// Everything an allocator can see of a function.
fn diff_view(a: &impl Function, b: &impl Function) -> Option<String> {
    macro_rules! same {
        ($x:expr, $y:expr, $($w:tt)*) => {
            if $x != $y {
                return Some(format!("{}: {:?} became {:?}", format!($($w)*), $x, $y));
            }
        };
    }
    same!(a.num_insts(), b.num_insts(), "num_insts");
    same!(a.num_blocks(), b.num_blocks(), "num_blocks");
    same!(a.entry_block(), b.entry_block(), "entry_block");
    same!(a.num_vregs(), b.num_vregs(), "num_vregs");
    for i in (0..a.num_blocks()).map(Block::new) {
        same!(a.block_insns(i).first(), b.block_insns(i).first(), "first inst of {i:?}");
        same!(a.block_insns(i).last(), b.block_insns(i).last(), "last inst of {i:?}");
        same!(a.block_succs(i), b.block_succs(i), "successors of {i:?}");
        same!(a.block_preds(i), b.block_preds(i), "predecessors of {i:?}");
        same!(a.block_params(i), b.block_params(i), "parameters of {i:?}");
        let l = a.block_insns(i).last();
        for s in 0..a.block_succs(i).len() {
            same!(a.branch_blockparams(i, l, s), b.branch_blockparams(i, l, s), "arguments of {i:?} to successor {s}");
        }
    }
    for i in (0..a.num_insts()).map(Inst::new) {
        same!(a.is_ret(i), b.is_ret(i), "is_ret({i:?})");
        same!(a.is_branch(i), b.is_branch(i), "is_branch({i:?})");
        same!(a.inst_operands(i), b.inst_operands(i), "operands of {i:?}");
        same!(a.inst_clobbers(i), b.inst_clobbers(i), "clobbers of {i:?}");
    }
    same!(a.debug_value_labels(), b.debug_value_labels(), "debug labels");
    for c in [RegClass::Int, RegClass::Float, RegClass::Vector] {
        same!(a.spillslot_size(c), b.spillslot_size(c), "spillslot_size({c:?})");
    }
    same!(
        a.multi_spillslot_named_by_last_slot(),
        b.multi_spillslot_named_by_last_slot(),
        "multi_spillslot_named_by_last_slot"
    );
    same!(a.allow_multiple_vreg_defs(), b.allow_multiple_vreg_defs(), "allow_multiple_vreg_defs");
    None
}

fn diff_env(a: &MachineEnv, b: &MachineEnv) -> Option<String> {
    if a.preferred_regs_by_class != b.preferred_regs_by_class
        || a.non_preferred_regs_by_class != b.non_preferred_regs_by_class
        || a.scratch_by_class != b.scratch_by_class
        || a.fixed_stack_slots != b.fixed_stack_slots
    {
        return Some(format!("machine environment {a:?} became {b:?}"));
    }
    None
}

fn go(sc: &SSc, cov: &mut Cov) -> Result<(), Fail> {
    let mut src: Vec<(SimFunc<NoGate>, MachineEnv, [Option<Res>; 2])> = vec![];
    for u in &sc.units {
        let f = u.prog.lower();
        let e = u.env.lower();
        let ion = run_fresh(&f, &e, &opts(false, false, false));
        let fast = u.fast_ok.then(|| run_fresh(&f, &e, &opts(true, false, false)));
        cov.ev(prog_hash(&u.prog, &u.env));
        src.push((f, e, [Some(ion), fast]));
    }
    let mut items: Vec<(Item, usize, u8)> = vec![];
    for &(u, k) in &sc.items {
        let it = match k {
            0 => Item::F(SerializableFunction::new(&src[u].0, src[u].1.clone())),
            k => match &src[u].2[k as usize - 1] {
                Some(Res::Ok(o)) => Item::O((**o).clone()),
                _ => continue,
            },
        };
        items.push((it, u, k));
    }
    if items.is_empty() {
        return Ok(());
    }
    // How long is it all?
    let mut total = 0usize;
    for (it, ..) in &items {
        let mut v = vec![];
        write_item(&mut v, it, sc.json).map_err(|e| Fail { class: "write".into(), msg: e })?;
        total += v.len();
    }
    let mut w = FaultyW {
        data: vec![],
        rng: sc.chop.map(Rng::new),
        fail_at: match sc.wfault {
            WFault::None => None,
            WFault::Error(pm) => Some((total * pm as usize / 1000, false)),
            WFault::Full(pm) => Some((total * pm as usize / 1000, true)),
        },
        ops: 0,
        short: 0,
        intr: 0,
        hit: false,
    };
    let mut ends = vec![];
    let mut ok = true;
    for (n, (it, ..)) in items.iter().enumerate() {
        match write_item(&mut w, it, sc.json) {
            Ok(()) if w.hit => return fail("write-error-hidden", format!("item {n}: the stream failed, the write was reported as done")),
            Ok(()) => ends.push(w.data.len()),
            Err(e) if w.hit => {
                let _ = e;
                cov.hit("probe.write_error_reported");
                ok = false;
                break;
            }
            Err(e) => return fail("write", format!("item {n}: {e}")),
        }
    }
    cov.add("fault.short_write", w.short);
    cov.add("fault.interrupted_write", w.intr);
    cov.add("fault.write_error", w.hit as u64);
    cov.steps += w.ops;
    if !ok && ends.is_empty() {
        cov.nontrivial = true;
        cov.ev(w.data.len() as u64);
        return Ok(());
    }
    // The stored bytes are damaged.
    let mut data = w.data;
    let len = data.len();
    let at = |m: u32| (len as u64 * m as u64 / 1_000_000) as usize;
    let mut fail_at = None;
    let mut limit = len; // items ending at or before are intact
    let mut cut = false;
    match sc.damage {
        Damage::None => {}
        Damage::Cut(m) => {
            data.truncate(at(m));
            limit = at(m);
            cut = true;
            cov.hit("fault.truncated");
        }
        Damage::Flip(m, b) => {
            data[at(m)] ^= 1 << (b % 8);
            limit = at(m);
            cov.hit("fault.bit_flipped");
        }
        Damage::Byte(m, b) => {
            data[at(m)] = b;
            limit = at(m);
            cov.hit("fault.byte_overwritten");
        }
        Damage::Lost(m, b) => {
            let a = at(m);
            let z = (a + 1 + b as usize).min(len);
            data.drain(a..z);
            limit = a;
            cov.hit("fault.bytes_lost");
        }
        Damage::ReadError(m) => {
            fail_at = Some(at(m));
            limit = at(m);
            cut = true;
            cov.hit("fault.read_error");
        }
    }
    let mut r = FaultyR {
        data: &data,
        pos: 0,
        rng: sc.chop.map(|s| Rng::new(s ^ 0x5555)),
        fail_at,
        ops: 0,
        short: 0,
        intr: 0,
        after_end: 0,
    };
    let mut res = Ok(());
    for (n, (it, u, _)) in items.iter().enumerate().take(ends.len()) {
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            read_item(&mut r, matches!(it, Item::F(_)), sc.json)
        }));
        let got = match got {
            Ok(g) => g,
            Err(_) => {
                res = fail("panic", format!("reading item {n}: {}", last_panic()));
                break;
            }
        };
        let intact = ends[n] <= limit;
        match got {
            Err(e) if intact => {
                res = fail("unreadable", format!("item {n} is intact but does not read back: {e}"));
                break;
            }
            Err(_) => {
                cov.hit("probe.damage_reported");
                cov.ev(n as u64 + 77);
                break;
            }
            Ok(_) if !intact && cut => {
                res = fail("truncation-hidden", format!("item {n} reads back as whole although the stream ends before its end"));
                break;
            }
            Ok(_) if !intact => {
                cov.hit("probe.damage_read_as_value");
                break;
            }
            Ok(Item::O(o)) => {
                let Item::O(was) = it else { unreachable!() };
                cov.hit("work.outputs_read_back");
                if let Some(d) = diff_out(was, &o) {
                    res = fail("changed", format!("item {n}: written vs read output: {d}"));
                    break;
                }
            }
            Ok(Item::F(f)) => {
                cov.hit("work.functions_read_back");
                if let Some(d) = diff_view(&src[*u].0, &f).or_else(|| diff_env(&src[*u].1, f.machine_env())) {
                    res = fail("changed", format!("item {n}: {d}"));
                    break;
                }
                let mut bad = None;
                for fast in [false, true] {
                    if let Some(want) = &src[*u].2[fast as usize] {
                        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            regalloc2::run(&f, f.machine_env(), &opts(fast, false, false))
                        }));
                        let got = match got {
                            Ok(Ok(o)) => Res::Ok(Box::new(o)),
                            Ok(Err(e)) => Res::Err(e),
                            Err(_) => Res::Panic(last_panic()),
                        };
                        cov.ev(res_hash(&got));
                        if let Some(d) = diff_res(want, &got) {
                            bad = Some(d);
                        }
                    }
                }
                if let Some(d) = bad {
                    res = fail("allocates-differently", format!("item {n}: before vs after: {d}"));
                    break;
                }
            }
        }
    }
    cov.add("fault.short_read", r.short);
    cov.add("fault.interrupted_read", r.intr);
    cov.steps += r.ops;
    cov.nontrivial = r.short + r.intr > 0 || sc.damage != Damage::None || sc.wfault != WFault::None;
    cov.ev(len as u64);
    let mut h = mix2(len as u64, at(match sc.damage {
        Damage::None => 0,
        Damage::Cut(m) | Damage::Flip(m, _) | Damage::Byte(m, _) | Damage::Lost(m, _) | Damage::ReadError(m) => m,
    }) as u64);
    for u in &sc.units {
        h = mix2(h, prog_hash(&u.prog, &u.env));
    }
    cov.states.push(h);
    res
}

pub struct C10;
impl Check for C10 {
    type Sc = SSc;
    const META: Meta = Meta {
        id: "C10",
        rule: "one run: 1-4 seeded functions and outputs written to one simulated file, damaged, and read back, in bincode or JSON, with short and interrupted reads and writes, write errors, full disk, truncation, flipped, overwritten and lost bytes; what was stored intact must come back the same and allocate the same, damage must surface as an error or a value; non-trivial: some fault fired",
        state_measure: "distinct (functions, stream length, damaged offset) triples, by hash",
        real: &["SerializableFunction", "the serde implementations of Operand, Allocation, PReg, PRegSet, ProgPoint, Edit, Output, Stats, MachineEnv, ...", "bincode 1.3.3 and serde_json", "both allocators"],
        stub: &["the file (in memory, faulty)", "the client functions"],
        assumptions: &["damage that decodes as a value is accepted: the format has no checksum"],
        quick_runs: 400_000,
        thorough_runs: 30_000_000,
        checked_too: true,
        divergence_is_violation: false,
    };
    fn gen(r: &mut Rng, _: u64, _: bool) -> SSc {
        let nu = r.range(1, 2);
        let small = r.pct(75);
        let units: Vec<Unit> = (0..nu)
            .map(|_| {
                let f = r.pct(60);
                let t = r.pct(20);
                gen_unit(r, f, t, small)
            })
            .collect();
        let n = r.range(1, 4);
        let items = (0..n)
            .map(|_| {
                let u = r.below(nu);
                let k = if units[u].fast_ok { r.below(4) } else { r.below(3) };
                (u, k.saturating_sub(1) as u8)
            })
            .collect();
        let wfault = match r.below(10) {
            0 => WFault::Error(r.below(1000) as u32),
            1 => WFault::Full(r.below(1000) as u32),
            _ => WFault::None,
        };
        let damage = match r.below(12) {
            0 | 1 => Damage::Cut(r.below(1_000_000) as u32),
            2 | 3 => Damage::Flip(r.below(1_000_000) as u32, r.below(8) as u8),
            4 => Damage::Byte(r.below(1_000_000) as u32, *r.pick(&[0, 1, 0x7f, 0x80, 0xff])),
            5 => Damage::Lost(r.below(1_000_000) as u32, r.below(20) as u8),
            6 => Damage::ReadError(r.below(1_000_000) as u32),
            _ => Damage::None,
        };
        SSc {
            units,
            items,
            json: r.pct(30),
            wfault,
            damage,
            chop: if r.pct(70) { Some(r.next()) } else { None },
        }
    }
    fn exec(sc: &SSc, cov: &mut Cov) -> Result<(), Fail> {
        go(sc, cov)
    }
    fn shrink(sc: &SSc, bad: &mut dyn FnMut(&SSc) -> bool) -> SSc {
        let mut cur = sc.clone();
        for i in (0..cur.items.len()).rev() {
            if cur.items.len() > 1 {
                let mut x = cur.clone();
                x.items.remove(i);
                if bad(&x) {
                    cur = x;
                }
            }
        }
        for k in 0..3 {
            let mut x = cur.clone();
            match k {
                0 => x.chop = None,
                1 => x.wfault = WFault::None,
                _ => x.damage = Damage::None,
            }
            if bad(&x) {
                cur = x;
            }
        }
        for n in 0..cur.units.len() {
            if !cur.items.iter().any(|i| i.0 == n) {
                let mut x = cur.clone();
                x.units[n] = x.units[cur.items[0].0].clone();
                if bad(&x) {
                    cur = x;
                }
                continue;
            }
            let base = cur.clone();
            cur.units[n] = shrink_unit(
                &cur.units[n],
                &mut |u| {
                    let mut x = base.clone();
                    x.units[n] = u.clone();
                    bad(&x)
                },
                3_000,
            );
        }
        cur
    }
    fn show(sc: &SSc) -> Vec<String> {
        let mut v = vec![format!(
            "{}: items {:?}, write fault {:?}, damage {:?}, short/interrupted operations {:?}",
            if sc.json { "JSON" } else { "bincode" },
            sc.items,
            sc.wfault,
            sc.damage,
            sc.chop
        )];
        for (n, u) in sc.units.iter().enumerate() {
            if sc.items.iter().any(|i| i.0 == n) {
                v.push(format!("unit {n}:"));
                v.extend(crate::shrink::show(&u.prog, &u.env));
            }
        }
        v
    }
}
