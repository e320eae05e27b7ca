//! The seeded search, and the command line of a shard.
//!
//! `--run PROPERTY SEED CASES PROGRESS`, `--dump PROPERTY SEED CASES N`, `--prefix PROPERTY SEED CASES N`,
//! `--check PROPERTY FILE`

use std::io::{Seek, Write};

use serde_json::json;
use vsim::rng::{mix, Rng};

use crate::case::{Case, Entry, Fault, Request, SchedSpec};
use crate::run::{operations, Runner};
use crate::{Web, TEMPLATES};

fn request<W: Web>(rng: &mut Rng, depth: usize) -> Request {
    let mut r = Request {
        template: rng.below(TEMPLATES),
        values: rng.next() >> 1,
        entry: *rng.pick(&[Entry::App, Entry::App, Entry::Into, Entry::Try, Entry::Respond]),
        faults: Vec::new(),
        defer: rng.weighted(&[6, 2, 1, 1]),
        chunk: *rng.pick(&[1, 7, 64, 4096, 1 << 20]),
        leave: rng.chance(1, 12).then(|| rng.below(3)),
    };
    let n = operations::<W>(&r);
    for _ in 0..rng.weighted(&[4, 5, 2]) {
        if n == 0 {
            break;
        }
        let fault = match rng.weighted(&[6, 3, 2, if depth > 0 { 2 } else { 0 }]) {
            0 => Fault::Fail,
            1 => Fault::Panic,
            2 => Fault::Stall,
            _ => Fault::Nested(Box::new(request::<W>(rng, depth - 1))),
        };
        // Also the very last operation
        let at = if rng.chance(1, 5) { n - 1 } else { rng.below(n) };
        if r.faults.iter().all(|f| f.0 != at) {
            r.faults.push((at, fault));
        }
    }
    r
}

fn generate<W: Web>(rng: &mut Rng) -> Case {
    let mut case = Case { property: "C15".into(), ..Case::default() };
    for _ in 0..rng.weighted(&[0, 4, 3, 2]) {
        let n = rng.range(1, 5);
        case.threads.push((0..n).map(|_| request::<W>(rng, 2)).collect());
    }
    if case.threads.len() > 1 {
        // Often the same page
        if rng.chance(1, 3) {
            let r = case.threads[0][0].clone();
            for t in &mut case.threads[1..] {
                t[0] = r.clone();
            }
        }
        case.sched = Some(SchedSpec { seed: rng.next(), switch: *rng.pick(&[1, 2, 4, 12]), script: None });
    }
    case
}

enum Mode {
    Run(std::fs::File),
    Dump(u64),
    Prefix(u64),
}

pub fn main<W: Web + 'static>() {
    if std::env::var_os("VRT_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let (line, blocked) = match args[..] {
        ["--run", _, seed, cases, progress] => {
            explore::<W>(seed, cases, Mode::Run(std::fs::File::create(progress).expect("progress file")))
        }
        ["--dump", _, seed, cases, n] => explore::<W>(seed, cases, Mode::Dump(n.parse().unwrap())),
        ["--prefix", _, seed, cases, n] => explore::<W>(seed, cases, Mode::Prefix(n.parse().unwrap())),
        ["--check", _, file] => {
            let text = std::fs::read_to_string(file).expect("case file");
            let case: Case = serde_json::from_str(&text).expect("case");
            let mut runner = Runner::default();
            let r = runner.check::<W>(&case);
            let line = json!({ "violation": r.is_err(), "message": r.err(), "log": runner.last_log }).to_string();
            (line, runner.blocked)
        }
        _ => {
            eprintln!("unknown arguments {args:?}");
            std::process::exit(2);
        }
    };
    println!("{line}");
    if blocked {
        std::process::exit(21);
    }
    // Nobody waits for threads that are blocked
    std::process::exit(0);
}

fn explore<W: Web + 'static>(seed: &str, cases: &str, mut mode: Mode) -> (String, bool) {
    let (seed, cases): (u64, u64) = (seed.parse().unwrap(), cases.parse().unwrap());
    let mut runner = Runner::default();
    let mut found = None;
    let mut nondeterministic = None;
    let mut samples = Vec::new();
    let mut n = 0;
    while n < cases {
        let mut rng = Rng::new(mix(seed, n));
        let case = generate::<W>(&mut rng);
        match &mut mode {
            Mode::Dump(want) if n == *want => {
                found = Some((n, case, None));
                break;
            }
            Mode::Dump(_) => {
                n += 1;
                continue;
            }
            Mode::Prefix(want) if n > *want => break,
            Mode::Run(file) => {
                let _ = file.rewind();
                let _ = file.write_all(format!("{n:<20}").as_bytes());
            }
            _ => {}
        }
        let r = runner.check::<W>(&case);
        if n % 41 == 0 && r.is_ok() && matches!(mode, Mode::Run(_)) {
            let hash = runner.last_hash;
            runner.stats.double_runs += 1;
            if runner.check::<W>(&case).is_err() || runner.last_hash != hash {
                nondeterministic = Some(n);
            }
        }
        if n % 700 == 7 && samples.len() < 2 {
            samples.push(serde_json::to_value(&case).unwrap());
        }
        if let Err(m) = r {
            found = Some((n, case, Some(m)));
            break;
        }
        n += 1;
    }
    let s = &runner.stats;
    let line = json!({
        "done": found.is_none(),
        "violation": found.as_ref().map(|(n, case, message)| json!({ "n": n, "case": case, "message": message })),
        "message": found.as_ref().map(|f| &f.2),
        "nondeterministic": nondeterministic,
        "cases": s.cases,
        "requests": s.requests,
        "pages": s.pages,
        "errors": s.errors,
        "panics": s.panics,
        "left": s.left,
        "ops": s.ops,
        "faults": s.faults,
        "entries": s.entries,
        "switches": s.switches,
        "stalls_survived": s.stalls_survived,
        "distinct": s.distinct.len(),
        "interleavings": s.interleavings.len(),
        "double_runs": s.double_runs,
        "samples": samples,
    });
    (line.to_string(), runner.blocked)
}
