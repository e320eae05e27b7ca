#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! The command line of a shard.
//!
//! `--run PROPERTY SEED TREES EFFORT PROGRESS`: explores; prints one line of JSON
//! `--dump PROPERTY SEED TREES EFFORT N`: prints the Nth case without running it
//! `--prefix PROPERTY SEED TREES EFFORT N`: runs everything up to the Nth case
//! `--check PROPERTY FILE`: runs a single case

mod case;
mod check;
mod explore;
mod tree;
mod vfs;
mod zygote;

use std::io::{Seek, Write};

use serde_json::json;

use case::Case;
use check::Env;
use explore::Explorer;

enum Mode {
    Run(std::fs::File),
    Dump(u64),
    Prefix(u64),
}

fn main() {
    std::env::set_var("CARGO_MANIFEST_DIR", tree::PACKAGE);
    if std::env::var_os("VRT_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    // Before there are any threads
    let env = Env::new();
    let (line, blocked) = match args[..] {
        ["--run", property, seed, trees, effort, progress] => {
            let file = std::fs::File::create(progress).expect("progress file");
            explore(env, property, seed, trees, effort, Mode::Run(file))
        }
        ["--dump", property, seed, trees, effort, n] => {
            explore(env, property, seed, trees, effort, Mode::Dump(n.parse().unwrap()))
        }
        ["--prefix", property, seed, trees, effort, n] => {
            explore(env, property, seed, trees, effort, Mode::Prefix(n.parse().unwrap()))
        }
        ["--check", _, file] => {
            let text = std::fs::read_to_string(file).expect("case file");
            let case: Case = serde_json::from_str(&text).expect("case");
            let mut env = env;
            let r = env.check(&case);
            let line = json!({ "violation": r.is_err(), "message": r.err(), "log": env.last_log }).to_string();
            (line, env.blocked)
        }
        _ => {
            eprintln!("unknown arguments {args:?}");
            std::process::exit(2);
        }
    };
    println!("{line}");
    if blocked {
        std::process::exit(21);
    }
}

fn explore(mut env: Env, property: &str, seed: &str, trees: &str, effort: &str, mut mode: Mode) -> (String, bool) {
    let (seed, trees, effort): (u64, usize, usize) =
        (seed.parse().unwrap(), trees.parse().unwrap(), effort.parse().unwrap());
    let mut n = 0u64;
    let mut found = None;
    let mut nondeterministic = None;
    let mut samples = Vec::new();
    let mut on = |env: &mut Env, case: Case| -> bool {
        let this = n;
        n += 1;
        match &mut mode {
            Mode::Dump(want) => {
                if this == *want {
                    found = Some((this, case, None));
                    return false;
                }
                return true;
            }
            Mode::Prefix(want) if this > *want => return false,
            Mode::Run(file) => {
                let _ = file.rewind();
                let _ = file.write_all(format!("{this:<20}").as_bytes());
            }
            _ => {}
        }
        let r = env.check(&case);
        if this % 41 == 0 && r.is_ok() && matches!(mode, Mode::Run(_)) {
            // One seed is one execution
            let hash = env.last_hash;
            env.stats.double_runs += 1;
            if env.check(&case).is_err() || env.last_hash != hash {
                nondeterministic = Some(this);
            }
        }
        if this % 700 == 7 && samples.len() < 2 {
            samples.push(serde_json::to_value(&case).unwrap());
        }
        match r {
            Ok(()) => true,
            Err(message) => {
                found = Some((this, case, Some(message)));
                false
            }
        }
    };
    let mut x = Explorer::new(&mut env, property, seed, effort);
    for t in 0..trees {
        if !x.tree(t, &mut on) {
            break;
        }
    }
    let s = &env.stats;
    let line = json!({
        "done": found.is_none(),
        "violation": found.as_ref().map(|(n, case, message)| json!({ "n": n, "case": case, "message": message })),
        "nondeterministic": nondeterministic,
        "trees": trees,
        "cases": s.cases,
        "derives": s.derives,
        "codes": s.codes,
        "errors": s.errors,
        "ops": s.ops,
        "faults": s.faults,
        "switches": s.switches,
        "waits": s.waits,
        "processes": env.zygote.processes,
        "builds": s.builds,
        "kept": s.kept,
        "edits": s.edits,
        "distinct": s.distinct.len(),
        "interleavings": s.interleavings.len(),
        "double_runs": s.double_runs,
        "samples": samples,
    });
    (line.to_string(), env.blocked)
}
