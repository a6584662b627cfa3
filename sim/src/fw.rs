//! The framework around the simulators: numbered runs, worker processes, a
//! watchdog, minimisation, replay files and evidence.
//!
//! One run is a pure function of (VERIF_SEED, property, run index): it derives
//! a `Scenario` (workload, schedule and fault script) and executes it. Worker
//! processes only partition the indices among themselves.

use crate::alloc::install_hook;
use crate::rng::{mix, mix2, Rng};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    /// Stable class: what kind of violation this is. Minimisation preserves it.
    pub class: String,
    pub msg: String,
}

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        class: class.to_string(),
        msg: msg.into(),
    })
}

/// What one run contributes to the coverage record.
#[derive(Default)]
pub struct Cov {
    pub n: BTreeMap<&'static str, u64>,
    /// Simulated time: steps of the simulated system.
    pub steps: u64,
    /// Distinct states/interleavings reached, by hash.
    pub states: Vec<u64>,
    /// Hash of the run's event log; equal for equal runs.
    pub log: u64,
    pub nontrivial: bool,
}

impl Cov {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.n.entry(k).or_insert(0) += n;
        }
    }
    /// Keeps the highest. The name must start with "max.".
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.n.entry(k).or_insert(0);
        *e = n.max(*e);
    }
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1);
    }
    pub fn ev(&mut self, x: u64) {
        self.log = mix2(self.log, x);
    }
}

/// Adds up counts, and takes the highest of maxima.
fn tally(into: &mut u64, k: &str, v: u64) {
    *into = if k.starts_with("max.") { v.max(*into) } else { *into + v };
}

pub struct Meta {
    pub id: &'static str,
    /// How runs are made and which count as non-trivial.
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// Half of the workers use the build with the crate's assertions on.
    pub checked_too: bool,
    /// Divergence between two executions of one run is itself a violation.
    pub divergence_is_violation: bool,
}

pub trait Check {
    type Sc: Serialize + DeserializeOwned + Clone;
    const META: Meta;
    fn gen(r: &mut Rng, idx: u64, thorough: bool) -> Self::Sc;
    fn exec(sc: &Self::Sc, cov: &mut Cov) -> Result<(), Fail>;
    /// Reduce `sc` while `bad` stays true.
    fn shrink(sc: &Self::Sc, bad: &mut dyn FnMut(&Self::Sc) -> bool) -> Self::Sc;
    fn show(sc: &Self::Sc) -> Vec<String>;
}

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100_0000_01b3)
    })
}

pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix2(mix2(mix(seed), hash_str(id)), idx)
}

pub fn scenario<C: Check>(seed: u64, idx: u64, thorough: bool) -> C::Sc {
    let mut r = Rng::new(run_seed(seed, C::META.id, idx));
    C::gen(&mut r, idx, thorough)
}

/// Execute with panics of the harness itself separated from the verdict.
fn exec<C: Check>(sc: &C::Sc, cov: &mut Cov) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| C::exec(sc, cov))) {
        Ok(r) => r,
        Err(_) => fail("harness-panic", crate::alloc::last_panic()),
    }
}

// ------------------------------------------------------------------- replay

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub thorough: bool,
    pub build: String,
    pub class: String,
    pub msg: String,
    pub shown: Vec<String>,
    pub scenario: Value,
}

fn build_name() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

// ------------------------------------------------------------ known findings

#[derive(Clone, Debug, Deserialize)]
pub struct Known {
    pub property: String,
    pub status: String,
    #[serde(default)]
    pub class: String,
    /// All of these have to occur in the message or the minimised scenario.
    #[serde(default)]
    pub matches: Vec<String>,
    #[serde(default)]
    pub what: String,
}

fn known_findings() -> Vec<Known> {
    let p = root().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| serde_json::from_str(l).ok())
        .filter(|k: &Known| k.status == "known")
        .collect()
}

fn known_for<'a>(ks: &'a [Known], id: &str, f: &Fail, shown: &[String]) -> Option<&'a Known> {
    let all = shown.join("\n") + "\n" + &f.msg;
    ks.iter().find(|k| {
        k.property == id
            && k.class == f.class
            && !k.matches.is_empty()
            && k.matches.iter().all(|m| all.contains(m.as_str()))
    })
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

// ------------------------------------------------------------------- worker

const PROGRESS_SHRINK: u64 = u64::MAX;
const PROGRESS_DONE: u64 = u64::MAX - 1;

pub struct WorkerArgs {
    pub seed: u64,
    pub thorough: bool,
    pub k: u64,
    pub n: u64,
    pub runs: u64,
    pub first: u64,
    pub dir: PathBuf,
    pub secs: u64,
}

pub fn worker<C: Check>(a: WorkerArgs) -> i32 {
    use std::os::unix::fs::FileExt;
    install_hook();
    let t0 = Instant::now();
    let tag = format!("{}-{}", a.k, build_name());
    let prog = std::fs::File::create(a.dir.join(format!("progress-{tag}"))).unwrap();
    let note = |v: u64| prog.write_all_at(&v.to_le_bytes(), 0).unwrap();
    let known = known_findings();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut tot: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut keys: BTreeSet<u64> = BTreeSet::new();
    let mut states: std::collections::HashSet<u64> = Default::default();
    let (mut runs, mut steps) = (0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut logs: Vec<(u64, u64)> = vec![];
    let stop = a.dir.join("stop");
    let mut viol = false;
    let slow = std::env::var("RASIM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX);
    let mut idx = a.first + a.k;
    while idx < a.first + a.runs {
        note(idx);
        if runs % 64 == 0 && (t0.elapsed().as_secs() >= a.secs || stop.exists()) {
            break;
        }
        let sc = scenario::<C>(a.seed, idx, a.thorough);
        let mut cov = Cov::default();
        let t1 = Instant::now();
        let res = exec::<C>(&sc, &mut cov);
        if t1.elapsed().as_millis() > slow {
            eprintln!("slow: run {idx} took {:?} ({})", t1.elapsed(), build_name());
        }
        runs += 1;
        steps += cov.steps;
        for (k, v) in &cov.n {
            tally(tot.entry(k).or_insert(0), k, *v);
        }
        if cov.nontrivial {
            keys.insert(cov.log);
        }
        if states.len() < 4_000_000 {
            states.extend(cov.states.iter());
        }
        if logs.len() < 48 {
            logs.push((idx, cov.log));
        }
        if samples.len() < 2 && cov.nontrivial && idx > a.first + a.n * 3 {
            samples.push(json!({"run": idx, "case": C::show(&sc)}));
        }
        if let Err(f) = res {
            if f.class == "harness-panic" {
                eprintln!("harness error in run {idx}: {}", f.msg);
                let _ = std::fs::write(a.dir.join(format!("harness-{tag}")), f.msg);
                return 3;
            }
            let mk = |sc: &C::Sc, f: &Fail| Replay {
                property: C::META.id.into(),
                seed: a.seed,
                run: idx,
                thorough: a.thorough,
                build: build_name().into(),
                class: f.class.clone(),
                msg: f.msg.clone(),
                shown: C::show(sc),
                scenario: serde_json::to_value(sc).unwrap(),
            };
            let path = a.dir.join(format!("viol-{tag}.json"));
            // Unminimised first, in case minimisation does not come back.
            write_json(&path, &mk(&sc, &f));
            note(PROGRESS_SHRINK);
            let t1 = Instant::now();
            let cls = f.class.clone();
            let mut bad = |s: &C::Sc| -> bool {
                if t1.elapsed().as_secs() > 45 {
                    return false;
                }
                matches!(exec::<C>(s, &mut Cov::default()), Err(g) if g.class == cls)
            };
            let small = C::shrink(&sc, &mut bad);
            let (small, f) = match exec::<C>(&small, &mut Cov::default()) {
                Err(g) if g.class == f.class => (small, g),
                _ => (sc.clone(), f),
            };
            if let Some(k) = known_for(&known, C::META.id, &f, &C::show(&small)) {
                *known_hits.entry(k.what.clone()).or_insert(0) += 1;
                let _ = std::fs::remove_file(&path);
            } else {
                write_json(&path, &mk(&small, &f));
                let _ = std::fs::write(&stop, "");
                viol = true;
                break;
            }
        }
        idx += a.n;
    }
    note(PROGRESS_DONE);
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for k in &keys {
        kb.extend(k.to_le_bytes());
    }
    std::fs::write(a.dir.join(format!("keys-{tag}")), kb).unwrap();
    let mut sb = Vec::with_capacity(states.len() * 8);
    for k in &states {
        sb.extend(k.to_le_bytes());
    }
    std::fs::write(a.dir.join(format!("states-{tag}")), sb).unwrap();
    write_json(
        &a.dir.join(format!("sum-{tag}.json")),
        &json!({"runs": runs, "steps": steps, "counts": tot, "samples": samples, "logs": logs,
                "known": known_hits, "secs": t0.elapsed().as_secs_f64()}),
    );
    viol as i32
}

/// Execute given runs and print their event-log hashes (for the divergence
/// test against another process).
pub fn logs<C: Check>(seed: u64, thorough: bool, idxs: &[u64]) -> i32 {
    install_hook();
    for &i in idxs {
        let sc = scenario::<C>(seed, i, thorough);
        let mut cov = Cov::default();
        let _ = exec::<C>(&sc, &mut cov);
        println!("{i} {}", cov.log);
    }
    0
}

pub fn write_json<T: Serialize>(p: &Path, v: &T) {
    let tmp = p.with_extension("tmp");
    let mut f = std::fs::File::create(&tmp).unwrap();
    f.write_all(serde_json::to_string_pretty(v).unwrap().as_bytes()).unwrap();
    f.write_all(b"\n").unwrap();
    std::fs::rename(tmp, p).unwrap();
}

/// Execute one scenario file in this process; exit 1 if it fails.
pub fn exec_file<C: Check>(rp: &Replay) -> i32 {
    install_hook();
    let sc: C::Sc = serde_json::from_value(rp.scenario.clone()).expect("scenario");
    let mut cov = Cov::default();
    match exec::<C>(&sc, &mut cov) {
        Ok(()) => {
            println!("run finished without a violation (log {:016x})", cov.log);
            0
        }
        Err(f) => {
            println!("class: {}\nmessage: {}\nlog {:016x}", f.class, f.msg, cov.log);
            if f.class == rp.class {
                1
            } else {
                4
            }
        }
    }
}

// --------------------------------------------------------------- supervisor

struct W {
    child: Child,
    tag: String,
    last: u64,
    since: Instant,
    /// CPU time used up to then, in seconds.
    cpu: u64,
    done: bool,
}

fn read_progress(dir: &Path, tag: &str) -> u64 {
    match std::fs::read(dir.join(format!("progress-{tag}"))) {
        Ok(b) if b.len() >= 8 => u64::from_le_bytes(b[..8].try_into().unwrap()),
        _ => 0,
    }
}

fn bins() -> (PathBuf, PathBuf) {
    let me = std::env::current_exe().unwrap();
    let t = me.parent().unwrap().parent().unwrap().to_path_buf();
    (t.join("release/rasim"), t.join("checked/rasim"))
}

pub const STALL_SECS: u64 = 60;

pub fn supervise<C: Check>(seed: u64, thorough: bool) -> i32 {
    let m = C::META;
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = std::env::temp_dir().join(format!("rasim-{}-{}", m.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let cpus: u64 = std::env::var("RASIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let runs: u64 = std::env::var("RASIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { m.thorough_runs } else { m.quick_runs });
    let secs: u64 = std::env::var("RASIM_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 5400 } else { 150 });
    println!("property {} tier {tier} seed {seed}: {runs} runs on {cpus} workers", m.id);
    let (rel, chk) = bins();
    let mut ws = vec![];
    for k in 0..cpus {
        let checked = m.checked_too && k % 2 == 1;
        let bin = if checked { &chk } else { &rel };
        let tag = format!("{k}-{}", if checked { "checked" } else { "release" });
        let child = Command::new(bin)
            .args(["worker", m.id, tier])
            .args([seed, k, cpus, runs, 0, secs].map(|x| x.to_string()))
            .arg(&dir)
            .stdin(Stdio::null())
            .spawn();
        let child = match child {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start {bin:?}: {e}");
                return 2;
            }
        };
        ws.push(W { child, tag, last: 0, since: Instant::now(), cpu: 0, done: false });
    }
    let mut dead: Option<(String, u64, &'static str, String)> = None;
    let mut harness: Option<String> = None;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(30));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let p = read_progress(&dir, &w.tag);
            if p != w.last {
                w.last = p;
                w.since = Instant::now();
                w.cpu = cpu_secs(w.child.id());
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    let p = read_progress(&dir, &w.tag);
                    match st.code() {
                        Some(0) | Some(1) => {}
                        Some(c) => {
                            harness = Some(format!("worker {} exited with {c}", w.tag));
                            let _ = std::fs::write(dir.join("stop"), "");
                        }
                        None => {
                            let sig = st.signal().unwrap_or(0);
                            if p < PROGRESS_DONE {
                                dead = Some((w.tag.clone(), p, "crash", format!("process died with signal {sig}")));
                            } else if p != PROGRESS_SHRINK {
                                harness = Some(format!("worker {} killed by signal {sig}", w.tag));
                            }
                            let _ = std::fs::write(dir.join("stop"), "");
                        }
                    }
                }
                Ok(None) => {
                    let lim = if p >= PROGRESS_DONE { 100 } else { STALL_SECS };
                    let wall = w.since.elapsed().as_secs();
                    if wall > lim && (wall > 6 * lim || cpu_secs(w.child.id()) > w.cpu + lim) {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        if p < PROGRESS_DONE {
                            dead = Some((w.tag.clone(), p, "hang", format!("no result within {lim} s of computing")));
                        }
                        let _ = std::fs::write(dir.join("stop"), "");
                    }
                }
                Err(e) => harness = Some(e.to_string()),
            }
        }
    }
    // gather
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let (mut nruns, mut steps) = (0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut keys: BTreeSet<u64> = BTreeSet::new();
    let mut states: std::collections::HashSet<u64> = Default::default();
    let mut pairs: Vec<(u64, u64, bool)> = vec![];
    for w in &ws {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("sum-{}.json", w.tag))) {
            let v: Value = serde_json::from_str(&s).unwrap();
            nruns += v["runs"].as_u64().unwrap();
            steps += v["steps"].as_u64().unwrap();
            for (k, x) in v["counts"].as_object().unwrap() {
                tally(tot.entry(k.clone()).or_insert(0), k, x.as_u64().unwrap());
            }
            for (k, x) in v["known"].as_object().unwrap() {
                *known.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
            }
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            for p in v["logs"].as_array().unwrap() {
                pairs.push((p[0].as_u64().unwrap(), p[1].as_u64().unwrap(), w.tag.ends_with("checked")));
            }
        }
        for (n, set) in [("keys", 0), ("states", 1)] {
            if let Ok(b) = std::fs::read(dir.join(format!("{n}-{}", w.tag))) {
                for c in b.chunks_exact(8) {
                    let x = u64::from_le_bytes(c.try_into().unwrap());
                    if set == 0 {
                        keys.insert(x);
                    } else {
                        states.insert(x);
                    }
                }
            }
        }
    }
    samples.truncate(3);
    // The same runs again, in other processes: the event logs must agree.
    let mut diverged: Vec<u64> = vec![];
    let mut compared = 0u64;
    if harness.is_none() && dead.is_none() {
        for checked in [false, true] {
            let set: Vec<(u64, u64)> = pairs.iter().filter(|p| p.2 == checked).map(|p| (p.0, p.1)).collect();
            for chunk in set.chunks(set.len().div_ceil(4).max(1)) {
                let out = Command::new(if checked { &chk } else { &rel })
                    .args(["logs", m.id, tier, &seed.to_string()])
                    .args(chunk.iter().map(|p| p.0.to_string()))
                    .stdin(Stdio::null())
                    .output();
                let Ok(out) = out else { continue };
                let got: BTreeMap<u64, u64> = String::from_utf8_lossy(&out.stdout)
                    .lines()
                    .filter_map(|l| {
                        let (a, b) = l.split_once(' ')?;
                        Some((a.parse().ok()?, b.parse().ok()?))
                    })
                    .collect();
                for (i, l) in chunk {
                    if let Some(g) = got.get(i) {
                        compared += 1;
                        if g != l {
                            diverged.push(*i);
                        }
                    }
                }
            }
        }
    }
    // violations
    let mut found: Vec<Replay> = vec![];
    for w in &ws {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("viol-{}.json", w.tag))) {
            if let Ok(r) = serde_json::from_str::<Replay>(&s) {
                found.push(r);
            }
        }
    }
    found.sort_by_key(|r| r.run);
    if found.is_empty() {
        if let Some((tag, idx, class, msg)) = &dead {
            let sc = scenario::<C>(seed, *idx, thorough);
            let mut rp = Replay {
                property: m.id.into(),
                seed,
                run: *idx,
                thorough,
                build: if tag.ends_with("checked") { "checked" } else { "release" }.into(),
                class: class.to_string(),
                msg: msg.clone(),
                shown: C::show(&sc),
                scenario: serde_json::to_value(&sc).unwrap(),
            };
            // It has to happen again in a process of its own.
            let probe = dir.join("probe.json");
            let mut again = |s: &C::Sc, lim: u64| -> bool {
                rp.scenario = serde_json::to_value(s).unwrap();
                write_json(&probe, &rp);
                child_outcome(&rp.build, &probe, lim) == *class
            };
            if again(&sc, STALL_SECS) {
                let t1 = Instant::now();
                let mut bad = |s: &C::Sc| t1.elapsed().as_secs() < 90 && again(s, 5);
                let small = C::shrink(&sc, &mut bad);
                let ok = again(&small, STALL_SECS);
                let fin = if ok { small } else { sc };
                rp.shown = C::show(&fin);
                rp.scenario = serde_json::to_value(&fin).unwrap();
                found.push(rp);
            } else {
                harness = Some(format!("run {idx}: {msg}, but not when repeated"));
            }
        }
    }
    if found.is_empty() && m.divergence_is_violation && !diverged.is_empty() {
        let idx = diverged[0];
        let sc = scenario::<C>(seed, idx, thorough);
        found.push(Replay {
            property: m.id.into(),
            seed,
            run: idx,
            thorough,
            build: "release".into(),
            class: "cross-process".into(),
            msg: "two processes executing the same run recorded different results".into(),
            shown: C::show(&sc),
            scenario: serde_json::to_value(&sc).unwrap(),
        });
    }
    let wall = t0.elapsed().as_secs_f64();
    let pick = |pre: &str| -> Value {
        Value::Object(
            tot.iter()
                .filter_map(|(k, v)| Some((k.strip_prefix(pre)?.to_string(), json!(v))))
                .collect(),
        )
    };
    let ev = json!({
        "property": m.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": keys.len(),
            "rule": m.rule,
            "samples": samples,
            "runs_per_hour": (nruns as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (nruns as f64 / wall * 3600.0) as u64,
            "simulated_steps": steps,
            "simulated_time_unit": "one step is one event of the simulated system: an instruction or move executed, a client callback answered, a stream operation, or (C15) a code region of the crate executed",
            "faults_injected": pick("fault."),
            "reached": pick("probe."),
            "workload": pick("work."),
            "maxima": pick("max."),
            "distinct_states_or_interleavings": states.len(),
            "state_measure": m.state_measure,
            "runs_repeated_in_another_process": compared,
            "runs_that_diverged": diverged.len(),
            "known_findings_hit": known,
            "components_real": m.real,
            "components_stubbed": m.stub,
        },
        "assumptions": m.assumptions,
        "wall_s": wall,
        "violations": found.len(),
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    write_json(&evd.join(format!("{}.json", m.id)), &ev);
    for (k, n) in &known {
        println!("KNOWN-FINDING: property={} {k} ({n} runs)", m.id);
    }
    println!(
        "{nruns} runs, {} distinct non-trivial, {} states, {steps} steps, {wall:.1} s, {compared} repeated ({} diverged)",
        keys.len(),
        states.len(),
        diverged.len()
    );
    let code = if let Some(r) = found.first() {
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{}-{}-{}.json", m.id, r.class, r.run));
        write_json(&path, r);
        println!("seed {} run {} ({} build)\nclass: {}\nmessage: {}", r.seed, r.run, r.build, r.class, r.msg);
        for l in &r.shown {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", m.id, path.display());
        1
    } else if let Some(h) = harness {
        eprintln!("harness error: {h}");
        2
    } else if !diverged.is_empty() {
        eprintln!("harness error: runs {diverged:?} did not repeat exactly");
        2
    } else if nruns == 0 {
        eprintln!("harness error: nothing was run");
        2
    } else {
        0
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// CPU time used by a process so far, so that a busy machine is not taken for
/// a hanging allocator. (A deadlock uses none: there the wall clock decides.)
fn cpu_secs(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

/// Run a replay file in a child process: "ok", "fail", "crash" or "hang".
fn child_outcome(build: &str, file: &Path, lim: u64) -> &'static str {
    let (rel, chk) = bins();
    let mut c = match Command::new(if build == "checked" { chk } else { rel })
        .arg("exec")
        .arg(file)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return "ok",
    };
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(0) => "ok",
                    Some(_) => "fail",
                    None => "crash",
                }
            }
            Ok(None) => {
                let wall = t.elapsed().as_secs();
                if wall >= lim && (wall >= 6 * lim || cpu_secs(c.id()) >= lim) {
                    let _ = c.kill();
                    let _ = c.wait();
                    return "hang";
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(_) => return "ok",
        }
    }
}

/// `rasim replay FILE`: exit 1 iff the recorded violation shows again.
pub fn replay<C: Check>(file: &Path, rp: &Replay) -> i32 {
    for l in &rp.shown {
        println!("  {l}");
    }
    let code = match rp.class.as_str() {
        "hang" | "crash" => {
            let o = child_outcome(&rp.build, file, STALL_SECS);
            println!("outcome: {o}");
            (o == rp.class) as i32
        }
        "cross-process" => {
            let mut set = BTreeSet::new();
            for _ in 0..12 {
                let o = Command::new(bins().0).arg("exec").arg(file).output().unwrap();
                set.insert(String::from_utf8_lossy(&o.stdout).to_string());
            }
            println!("{} different logs in 12 processes", set.len());
            (set.len() > 1) as i32
        }
        _ => {
            if build_name() != rp.build {
                let (rel, chk) = bins();
                let st = Command::new(if rp.build == "checked" { chk } else { rel })
                    .arg("exec")
                    .arg(file)
                    .status()
                    .unwrap();
                (st.code() == Some(1)) as i32
            } else {
                (exec_file::<C>(rp) == 1) as i32
            }
        }
    };
    if code == 1 {
        println!("VIOLATION property={} replay={}", rp.property, file.display());
    } else {
        println!("the recorded violation ({}) did not show", rp.class);
    }
    code
}
