mod alloc;
mod chk;
mod fw;
mod gen;
mod machine;
mod mcheck;
mod mistake;
mod movecheck;
mod history;
mod poison;

mod prog;
mod rng;
mod shrink;
mod stream;
mod work;

use fw::*;

macro_rules! with_check {
    ($id:expr, $c:ident => $body:expr) => {
        match $id {
            "C01" => { type $c = mcheck::C01; $body }
            "C02" => { type $c = mcheck::C02; $body }
            "C03" => { type $c = mcheck::C03; $body }
            "C04" => { type $c = mcheck::C04; $body }
            "C05" => { type $c = mcheck::C05; $body }
            "C06" => { type $c = mcheck::C06; $body }
            "C08" => { type $c = history::C08; $body }
            "C09" => { type $c = history::C09; $body }
            "C12" => { type $c = movecheck::C12; $body }
            "C10" => { type $c = stream::C10; $body }
            "C11" => { type $c = chk::C11; $body }
            "C13" => { type $c = history::C13; $body }
            "C15" => { type $c = work::C15; $body }
            "C07" => { type $c = mcheck::C07; $body }
            other => { eprintln!("no check for {other}"); 2 }
        }
    };
}

#[global_allocator]
static ALLOC: poison::SimAlloc = poison::SimAlloc;

fn main() {
    let _ = log::set_logger(&poison::NULL_LOG);
    log::set_max_level(log::LevelFilter::Info);
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let thorough = a.get(3).map(|s| s.as_str()) == Some("thorough");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            with_check!(a[2].as_str(), C => supervise::<C>(seed, thorough))
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let w = WorkerArgs {
                thorough: a[3] == "thorough",
                seed: n(4),
                k: n(5),
                n: n(6),
                runs: n(7),
                first: n(8),
                secs: n(9),
                dir: a[10].clone().into(),
            };
            with_check!(a[2].as_str(), C => worker::<C>(w))
        }
        Some("logs") => {
            let idx: Vec<u64> = a[5..].iter().map(|s| s.parse().unwrap()).collect();
            let seed = a[4].parse().unwrap();
            with_check!(a[2].as_str(), C => logs::<C>(seed, a[3] == "thorough", &idx))
        }
        Some(m @ ("replay" | "exec")) => {
            let rp: Replay = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let file = std::path::PathBuf::from(&a[2]);
            if m == "exec" {
                with_check!(rp.property.as_str(), C => exec_file::<C>(&rp))
            } else {
                with_check!(rp.property.as_str(), C => replay::<C>(&file, &rp))
            }
        }
        _ => {
            eprintln!("usage: rasim check PROPERTY quick|thorough | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
