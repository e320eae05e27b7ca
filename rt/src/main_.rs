//! The command line of a shard.
//!
//! `--run PROPERTY SEED EFFORT DIRECT PROGRESS`: explores; prints one line of JSON
//! `--dump PROPERTY SEED EFFORT DIRECT N`: prints the Nth case without running it
//! `--prefix PROPERTY SEED EFFORT DIRECT N`: runs everything up to the Nth case
//! `--check PROPERTY FILE`: runs a single case
//! `--fresh PROGRAM VALUES PLAIN ENTRY`: prints the hash of a single render
//! `--source PROPERTY PROGRAM`: prints the templates of a program

use std::collections::BTreeMap;
use std::io::{Seek, Write};

use serde_json::json;
use vsim::values::Vs;

use crate::case::Case;
use crate::check::Env;
use crate::ctx::SimPanic;
use crate::exec::{run, with_instances, with_values, Compiled, Entry, RenderSpec};
use crate::explore::Explorer;

pub fn main(shard: usize, progs: &'static [Compiled]) {
    // Injected panics are silent
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if info.payload().is::<SimPanic>() || std::env::var_os("VRT_VERBOSE").is_none() {
            return;
        }
        default(info)
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match args[..] {
        ["--run", property, seed, effort, direct, progress] => {
            let mut file = std::fs::File::create(progress).expect("progress file");
            let line = explore(shard, progs, property, seed, effort, direct, Mode::Run(Some(&mut file)));
            println!("{line}");
        }
        ["--dump", property, seed, effort, direct, n] => {
            let line = explore(shard, progs, property, seed, effort, direct, Mode::Dump(n.parse().unwrap()));
            println!("{line}");
        }
        ["--prefix", property, seed, effort, direct, n] => {
            let line = explore(shard, progs, property, seed, effort, direct, Mode::Prefix(n.parse().unwrap()));
            println!("{line}");
        }
        ["--check", property, file] => {
            let text = std::fs::read_to_string(file).expect("case file");
            let case: Case = serde_json::from_str(&text).expect("case");
            let mut env = Env::new(property, progs);
            let r = env.check(&case);
            println!(
                "{}",
                json!({ "violation": r.is_err(), "message": r.err(), "log": env.last_log })
            );
        }
        ["--fresh", prog, seed, plain, entry] => {
            let vs = Vs {
                seed: seed.parse().unwrap(),
                plain: plain.parse().unwrap(),
            };
            let entry: Entry = serde_json::from_str(entry).unwrap();
            with_instances(progs, &[(prog.parse().unwrap(), vs)], &mut |values| {
                let o = with_values(values, || run(&RenderSpec::new(0, entry), 1));
                println!("{}", o.hash());
            });
        }
        ["--source", property, prog] => {
            let mut env = Env::new(property, progs);
            let p = env.program(prog.parse().unwrap());
            let files: BTreeMap<&str, String> = p.files.iter().map(|f| (f.path.as_str(), f.source(p.style))).collect();
            println!(
                "{}",
                json!({ "seed": env.progs[prog.parse::<usize>().unwrap()].seed, "main": p.files[p.main].path, "block": p.block, "files": files })
            );
        }
        _ => {
            eprintln!("unknown arguments {args:?}");
            std::process::exit(2);
        }
    }
}

enum Mode<'a> {
    Run(Option<&'a mut std::fs::File>),
    Dump(u64),
    Prefix(u64),
}

fn explore(
    shard: usize,
    progs: &'static [Compiled],
    property: &str,
    seed: &str,
    effort: &str,
    direct: &str,
    mut mode: Mode<'_>,
) -> String {
    let (seed, effort, direct): (u64, usize, usize) =
        (seed.parse().unwrap(), effort.parse().unwrap(), direct.parse().unwrap());
    let mut env = Env::new(property, progs);
    let mut n = 0u64;
    let mut found = None;
    let mut nondeterministic = None;
    let mut samples = Vec::new();
    let mut on = |env: &mut Env, case: Case| -> bool {
        let this = n;
        n += 1;
        match &mut mode {
            Mode::Dump(want) => {
                if this == *want {
                    found = Some((this, case, None));
                    return false;
                }
                return true;
            }
            Mode::Prefix(want) if this > *want => return false,
            Mode::Run(Some(file)) => {
                let _ = file.rewind();
                let _ = file.write_all(format!("{this:<20}").as_bytes());
            }
            _ => {}
        }
        let r = env.check(&case);
        if this % 97 == 0 && r.is_ok() && matches!(mode, Mode::Run(_)) {
            // One seed is one execution
            let hash = env.last_hash;
            env.stats.double_runs += 1;
            if env.check(&case).is_err() || env.last_hash != hash {
                nondeterministic = Some(this);
            }
        }
        if this % 1500 == 7 && samples.len() < 4 {
            samples.push(serde_json::to_value(&case).unwrap());
        }
        match r {
            Ok(()) => true,
            Err(message) => {
                found = Some((this, case, Some(message)));
                false
            }
        }
    };
    let mut x = Explorer::new(&mut env, seed, effort);
    let mut go = x.direct(shard, direct, &mut on);
    for prog in 0..progs.len() {
        if go {
            go = x.program(prog, &mut on);
            x.env.forget();
        }
    }
    let s = &env.stats;
    json!({
        "done": found.is_none(),
        "violation": found.as_ref().map(|(n, case, message)| json!({ "n": n, "case": case, "message": message })),
        "nondeterministic": nondeterministic,
        "programs": progs.len(),
        "cases": s.cases,
        "renders": s.renders,
        "direct": s.direct,
        "nested": s.nested,
        "ops": s.ops,
        "faults": s.faults,
        "entries": s.entries,
        "switches": s.switches,
        "stalls_survived": s.stalls_survived,
        "nontrivial": s.nontrivial,
        "fresh_processes": s.fresh_processes,
        "alloc_failures": s.alloc_failures,
        "distinct": s.distinct.len(),
        "interleavings": s.interleavings.len(),
        "double_runs": s.double_runs,
        "samples": samples,
    })
    .to_string()
}
