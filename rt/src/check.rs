//! Executes a case, and decides whether the property held.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use vsim::ast::Program;
use vsim::gen::{generate, Profile};
use vsim::model::{self, Expected};
use vsim::rng::mix;
use vsim::values::Vs;

use crate::case::Case;
use crate::ctx::{self, Fault, Op};
use crate::direct::{self, clip};
use crate::exec::{run, with_instances, with_values, Compiled, Entry, Outcome, Prog, RenderSpec, Res};
use vsim::sched::{Sched, SchedReport};

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub renders: u64,
    pub ops: u64,
    pub faults: BTreeMap<String, u64>,
    /// Traces of renders with at least one operation
    pub distinct: HashSet<u64>,
    /// Schedules
    pub interleavings: HashSet<u64>,
    pub double_runs: u64,
    pub entries: BTreeMap<String, u64>,
    pub switches: u64,
    pub stalls_survived: u64,
    pub nested: u64,
    pub direct: u64,
    pub nontrivial: u64,
    pub fresh_processes: u64,
    pub alloc_failures: u64,
}

type CleanKey = (usize, Vs, Entry, u32);

pub struct Env {
    pub property: String,
    pub progs: &'static [Compiled],
    programs: HashMap<usize, Rc<Program>>,
    models: HashMap<(usize, Vs), Rc<Expected>>,
    clean: HashMap<CleanKey, Rc<Outcome>>,
    /// About how many bytes these are
    clean_size: usize,
    fresh: HashMap<(usize, Vs, Entry), u64>,
    pub stats: Stats,
    /// What the last schedule was
    pub last_log: Option<Vec<u8>>,
    /// Of everything that happened in the last case
    pub last_hash: u64,
}

/// The properties whose oracle is the reference model
pub fn by_model(property: &str) -> bool {
    ["C08", "C09", "C10", "C11", "C12", "C13", "C14"].contains(&property)
}

impl Env {
    pub fn new(property: &str, progs: &'static [Compiled]) -> Self {
        Env {
            property: property.to_owned(),
            progs,
            programs: HashMap::new(),
            models: HashMap::new(),
            clean: HashMap::new(),
            clean_size: 0,
            fresh: HashMap::new(),
            stats: Stats::default(),
            last_log: None,
            last_hash: 0,
        }
    }

    pub fn program(&mut self, i: usize) -> Rc<Program> {
        let seed = self.progs[i].seed;
        let property = &self.property;
        self.programs
            .entry(i)
            .or_insert_with(|| Rc::new(generate(seed, &Profile::named(property))))
            .clone()
    }

    pub fn expected(&mut self, i: usize, vs: Vs) -> Rc<Expected> {
        let program = self.program(i);
        self.models
            .entry((i, vs))
            .or_insert_with(|| Rc::new(model::run(&program, vs)))
            .clone()
    }

    /// The render without any faults, alone
    pub fn clean(&mut self, prog: usize, vs: Vs, entry: Entry, chunk: u32) -> Rc<Outcome> {
        if self.clean.len() > 3000 || self.clean_size > 200_000_000 {
            self.clean.clear();
            self.clean_size = 0;
        }
        let progs = self.progs;
        let size = &mut self.clean_size;
        self.clean
            .entry((prog, vs, entry, chunk))
            .or_insert_with(|| {
                let mut spec = RenderSpec::new(0, entry);
                spec.chunk = chunk;
                let mut out = None;
                with_instances(progs, &[(prog, vs)], &mut |values| {
                    out = Some(on_own_thread(values, || run(&spec, 1)));
                });
                let out = out.unwrap();
                *size += out.out.capacity() + out.ops.capacity() * std::mem::size_of::<Op>() + out.polls.capacity() * 24;
                Rc::new(out)
            })
            .clone()
    }

    /// What the same render yields in a process that has never rendered anything
    fn fresh(&mut self, prog: usize, vs: Vs, entry: Entry) -> u64 {
        if let Some(h) = self.fresh.get(&(prog, vs, entry)) {
            return *h;
        }
        self.stats.fresh_processes += 1;
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["--fresh", &prog.to_string(), &vs.seed.to_string(), &vs.plain.to_string()])
            .arg(serde_json::to_string(&entry).unwrap())
            .output()
            .expect("cannot start the fresh process");
        let h = String::from_utf8_lossy(&out.stdout).trim().parse().unwrap_or(0);
        self.fresh.insert((prog, vs, entry), h);
        h
    }

    pub fn forget(&mut self) {
        self.programs.clear();
        self.models.clear();
        self.clean.clear();
        self.clean_size = 0;
        self.fresh.clear();
    }

    /// Executes the case. Yields a description of the violation, if there is one.
    pub fn check(&mut self, case: &Case) -> Result<(), String> {
        self.stats.cases += 1;
        self.last_hash = 0;
        if let Some(d) = &case.direct {
            return self.check_direct(d);
        }

        // What each render would do on its own
        let mut wanted: Vec<(usize, Entry, u32)> = Vec::new();
        for spec in case.threads.iter().flatten() {
            collect_wanted(spec, &mut wanted);
        }
        let mut clean: HashMap<(usize, Entry, u32), Rc<Outcome>> = HashMap::new();
        for (inst, entry, chunk) in wanted {
            let (prog, vs) = case.insts[inst];
            let full = self.clean(prog, vs, Entry::Render, 0);
            clean.insert((inst, Entry::Render, 0), full);
            let o = self.clean(prog, vs, entry, chunk);
            clean.insert((inst, entry, chunk), o);
        }
        if self.property == "C06" {
            // In a process of its own, in which nothing else is rendered
            let mut seen = HashSet::new();
            for spec in case.threads.iter().flatten() {
                if spec.faults.is_empty() && spec.chunk == 0 && seen.insert((spec.inst, spec.entry)) {
                    let (prog, vs) = case.insts[spec.inst];
                    self.fresh(prog, vs, spec.entry);
                }
            }
        }

        if self.property == "C05" {
            self.check_meta(case)?;
        }

        let (outcomes, report) = self.execute(case);
        self.last_log = None;
        if let Some(report) = &report {
            self.stats.switches += report.switches;
            self.stats.stalls_survived += report.finished_during_stall;
            self.last_log = Some(report.log.clone());
            let mut h = 17;
            for c in &report.log {
                h = mix(h, *c as u64);
            }
            self.stats.interleavings.insert(h);
            self.last_hash = mix(self.last_hash, h);
        }

        for (thread, (specs, outcomes)) in case.threads.iter().zip(&outcomes).enumerate() {
            for (i, o) in outcomes.iter().enumerate() {
                let spec = &specs[i % specs.len()];
                self.count(o, spec);
                self.last_hash = mix(self.last_hash, o.hash());
                self.judge(case, spec, o, &clean)
                    .map_err(|v| format!("thread {thread}, render {i} ({:?}): {v}", spec.entry))?;
            }
        }
        Ok(())
    }

    /// What the references and the wrapper tell about the templates
    fn check_meta(&mut self, case: &Case) -> Result<(), String> {
        let mut all = Vec::new();
        with_instances(self.progs, &case.insts, &mut |values| {
            all = values.iter().map(|v| v.vrt_meta()).collect();
        });
        let names = ["the type", "a reference", "a reference to a reference", "the wrapper", "the wrapper of a reference", "the wrapper of a reference to a reference"];
        for (inst, metas) in all.iter().enumerate() {
            for (meta, name) in metas.iter().zip(names).skip(1) {
                if *meta != metas[0] {
                    return Err(format!(
                        "template {inst}: extension, size hint and MIME type are {:?}, but by {name} {meta:?}",
                        metas[0]
                    ));
                }
            }
        }
        Ok(())
    }

    fn execute(&mut self, case: &Case) -> (Vec<Vec<Outcome>>, Option<SchedReport>) {
        let mut all = Vec::new();
        let mut report = None;
        let progs = self.progs;
        let repeat = case.repeat.max(1);
        with_instances(progs, &case.insts, &mut |values| {
            let Some(sched) = &case.sched else {
                all = case
                    .threads
                    .iter()
                    .map(|specs| {
                        on_own_thread(values, || {
                            let mut out = Vec::new();
                            for n in 0..repeat {
                                for (i, spec) in specs.iter().enumerate() {
                                    let o = run(spec, mix(mix(case.seed, i as u64), n as u64));
                                    out.push(o);
                                }
                            }
                            out
                        })
                    })
                    .collect();
                return;
            };
            let n = case.threads.len();
            let s = Arc::new(Sched::new(n, sched.seed, sched.switch, sched.script.clone()));
            let results: Mutex<Vec<Vec<Outcome>>> = Mutex::new(vec![Vec::new(); n]);
            std::thread::scope(|scope| {
                for (t, specs) in case.threads.iter().enumerate() {
                    let s = s.clone();
                    let results = &results;
                    scope.spawn(move || {
                        s.enter(t);
                        ctx::set_sched(Some((s.clone(), t)));
                        with_values(values, || {
                            for (i, spec) in specs.iter().enumerate() {
                                let o = run(spec, mix(mix(case.seed, t as u64), i as u64));
                                results.lock().unwrap()[t].push(o);
                            }
                        });
                        ctx::set_sched(None);
                        s.finish(t);
                    });
                }
                s.start();
                let r = s.join(Duration::from_secs(patience()), None);
                if r.blocked {
                    // The threads never end, so this process has to
                    let log = serde_json::to_string(&r.log).unwrap();
                    println!(
                        "{{\"blocked\": true, \"message\": \"a render waits for another render that has stalled (thread {:?} does not continue)\", \"log\": {log}}}",
                        r.running
                    );
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                    std::process::exit(21);
                }
                report = Some(r);
            });
            all = results.into_inner().unwrap();
        });
        (all, report)
    }

    fn count(&mut self, o: &Outcome, spec: &RenderSpec) {
        let s = &mut self.stats;
        s.renders += 1;
        s.ops += o.ops.len() as u64;
        *s.entries.entry(format!("{:?}", spec.entry)).or_default() += 1;
        for (_, op, fault) in &o.fired {
            *s.faults.entry(format!("{fault} at {}", op.name())).or_default() += 1;
        }
        if o.alloc_failed > 0 {
            s.alloc_failures += o.alloc_failed as u64;
            *s.faults.entry("failed allocation".into()).or_default() += o.alloc_failed as u64;
        }
        if !o.fired.is_empty() || o.alloc_failed > 0 {
            s.nontrivial += 1;
        }
        let mut h = 5;
        for op in &o.ops {
            h = mix(h, op.hash());
        }
        for (at, op, _) in &o.fired {
            h = mix(mix(h, *at as u64), op.hash());
        }
        if !o.ops.is_empty() {
            s.distinct.insert(h);
        }
        for (spec, o) in &o.nested {
            self.stats.nested += 1;
            self.count(o, spec);
        }
    }

    fn check_direct(&mut self, d: &direct::Direct) -> Result<(), String> {
        let o = direct::run(d);
        let s = &mut self.stats;
        s.direct += 1;
        s.ops += o.ops.len() as u64;
        for (_, op, fault) in &o.fired {
            *s.faults.entry(format!("{fault} at {}", op.name())).or_default() += 1;
        }
        if !o.fired.is_empty() {
            s.nontrivial += 1;
        }
        s.distinct.insert(o.hash);
        self.last_hash = o.hash;
        match o.violation {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }

    fn judge(
        &mut self,
        case: &Case,
        spec: &RenderSpec,
        o: &Outcome,
        clean: &HashMap<(usize, Entry, u32), Rc<Outcome>>,
    ) -> Result<(), String> {
        let (prog, vs) = case.insts[spec.inst];
        let full = &clean[&(spec.inst, Entry::Render, 0)];
        let alone = &clean[&(spec.inst, spec.entry, spec.chunk)];
        let model = by_model(&self.property);

        if !full.res.is_ok() {
            return Err(format!("the render without any fault yields {:?}", full.res));
        }
        let expected = match model {
            true => Some(self.expected(prog, vs)),
            false => None,
        };
        let text: &[u8] = match &expected {
            Some(e) => e.text.as_bytes(),
            None => &full.out,
        };

        match &o.failed {
            None => {
                if !o.res.is_ok() {
                    return Err(format!("nothing failed, but the result is {:?}", o.res));
                }
                if o.out != text {
                    return Err(format!("the output differs: {}", diff(&o.out, text)));
                }
                if !model && !same_ops(&o.ops, &alone.ops) {
                    return Err("the values were not evaluated as they are in a render on its own".into());
                }
                if self.property == "C06" && spec.faults.is_empty() && spec.chunk == 0 {
                    if o.hash() != self.fresh(prog, vs, spec.entry) {
                        return Err("the render differs from the same render in a fresh process".into());
                    }
                }
            }
            Some((at, op, fault)) => {
                let what = format!("{} at operation {at} {op:?}", fault.name());
                if o.res.is_ok() {
                    return Err(format!("the render succeeded in spite of {what}"));
                }
                if !text.starts_with(&o.out) {
                    return Err(format!(
                        "the output up to {what} is no prefix of the complete one: {}",
                        diff(&o.out, text)
                    ));
                }
                if !model {
                    let nonce = o.error_nonce();
                    let acceptable = expected_results(spec.entry, *op, fault, nonce);
                    if !acceptable.iter().any(|a| a.matches(&o.res)) {
                        return Err(format!("{what} (number {nonce:?}) was reported as {:?}", o.res));
                    }
                    if *fault != Fault::Panic {
                        let bad = match self.property.as_str() {
                            "C02" if spec.entry.is_io() && op.is_sink() => {
                                o.after.iter().find(|op| matches!(op, Op::Io(_)))
                            }
                            _ => o.after.first(),
                        };
                        if let Some(bad) = bad {
                            return Err(format!("{bad:?} took place after {what}"));
                        }
                    }
                }
            }
        }

        if let Some(e) = &expected {
            self.judge_model(prog, o, e)?;
        }
        for (spec, inner) in &o.nested {
            self.judge(case, spec, inner, clean)
                .map_err(|v| format!("nested render of {} ({:?}): {v}", spec.inst, spec.entry))?;
        }
        Ok(())
    }

    fn judge_model(&mut self, prog: usize, o: &Outcome, e: &Expected) -> Result<(), String> {
        let program = self.program(prog);
        if program.output_only {
            return Ok(());
        }
        match self.property.as_str() {
            "C12" => {
                let evals: Vec<(u32, u64)> = o
                    .ops
                    .iter()
                    .filter_map(|op| match *op {
                        Op::Eval(s, n) | Op::Try(s, n) | Op::Eff(s, n) => Some((s, n as u64)),
                        Op::Item(s, k) | Op::ItemTry(s, k) => Some((s, k)),
                        _ => None,
                    })
                    .filter(|(s, _)| !program.cond_sites.contains(s))
                    .collect();
                for (i, got) in evals.iter().enumerate() {
                    match e.evals.get(i) {
                        Some(want) if want == got => {}
                        want => {
                            return Err(format!(
                                "evaluation {i} is (site, time) {got:?}, but it should be {want:?}"
                            ))
                        }
                    }
                }
                if o.failed.is_none() && evals.len() < e.evals.len() {
                    return Err(format!("{:?} was not evaluated", e.evals[evals.len()]));
                }
                if o.failed.is_some() && !matches!(o.failed, Some((_, _, Fault::Panic))) {
                    if let Some(op) = o.after.iter().find(|op| !op.is_sink()) {
                        return Err(format!("{op:?} was evaluated after the failure"));
                    }
                }
            }
            "C11" => {
                let mut runs: HashMap<u64, (usize, usize, usize)> = HashMap::new();
                for l in &e.loops {
                    let r = runs.entry(l.key.0).or_default();
                    r.0 += l.polls.0;
                    r.1 += l.polls.1;
                    r.2 += 1;
                }
                for (key, (polls, after_end)) in &o.polls {
                    if *after_end > 0 {
                        return Err(format!("an iterator was polled {after_end} times after its end"));
                    }
                    // `join` polls, too
                    let Some((_, max, _)) = runs.get(key) else { continue };
                    if *polls as usize > *max {
                        return Err(format!("an iterator was polled {polls} times instead of at most {max} times"));
                    }
                }
                if o.failed.is_none() {
                    for (key, (min, _, _)) in &runs {
                        let polls = o.polls.get(key).map_or(0, |p| p.0 as usize);
                        if polls < *min {
                            return Err(format!("an iterator was polled {polls} times instead of {min} times"));
                        }
                    }
                }
                for (item, iter, polls, site) in &o.item_polls {
                    if program.cond_sites.contains(site) || runs.get(iter).map_or(true, |r| r.2 != 1) {
                        continue;
                    }
                    let run = e.loops.iter().find(|l| l.key.0 == *iter).unwrap();
                    let Some((_, max)) = run.bodies.iter().find(|b| b.0 == *item) else {
                        return Err("the body runs for an item it must not run for".into());
                    };
                    if *polls as usize > *max {
                        return Err(format!(
                            "{polls} items were fetched before an item was processed, instead of at most {max}"
                        ));
                    }
                }
            }
            "C10" => {}
            _ => {}
        }
        Ok(())
    }
}

/// Runs on a thread whose thread-local state is new
pub fn on_own_thread<R: Send>(values: &[&dyn Prog], f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(scope, move || with_values(values, f))
            .unwrap()
            .join()
            .unwrap()
    })
}

fn collect_wanted(spec: &RenderSpec, out: &mut Vec<(usize, Entry, u32)>) {
    let key = (spec.inst, spec.entry, spec.chunk);
    if !out.contains(&key) {
        out.push(key);
    }
    for (_, f) in &spec.faults {
        if let Fault::Nested(spec) = f {
            collect_wanted(spec, out);
        }
    }
}

/// The same evaluations; how the text is divided for the byte sink may differ
fn same_ops(a: &[Op], b: &[Op]) -> bool {
    let f = |o: &&Op| !matches!(o, Op::Io(_));
    a.iter().filter(f).eq(b.iter().filter(f))
}

enum Accept {
    Is(Res),
    /// Any error of the template that is neither Ok nor a panic
    Json,
    IoJson,
    Panic(Option<u64>),
}

impl Accept {
    fn matches(&self, res: &Res) -> bool {
        match (self, res) {
            (Accept::Is(a), b) => a == b,
            (Accept::Json, Res::OtherError(s)) => s.contains("json"),
            (Accept::IoJson, Res::IoTemplate(r)) => Accept::Json.matches(r),
            (Accept::Panic(a), Res::Panic(b, _)) => a == b,
            _ => false,
        }
    }
}

fn expected_results(entry: Entry, op: Op, fault: &Fault, nonce: Option<u64>) -> Vec<Accept> {
    let template = match fault {
        Fault::Panic => return vec![Accept::Panic(nonce)],
        Fault::Zero => return vec![Accept::Is(Res::Io(std::io::ErrorKind::WriteZero, None))],
        Fault::Io(kind) => return vec![Accept::Is(Res::Io(kind.kind(), nonce))],
        _ => match op {
            Op::Try(..) | Op::ItemTry(..) | Op::Eff(..) => Res::Custom(nonce),
            _ => Res::Fmt,
        },
    };
    if entry.opaque() {
        return vec![Accept::Is(Res::Fmt)];
    }
    let json = matches!(op, Op::Ser(..));
    if entry.is_io() {
        let mut v = vec![Accept::Is(Res::IoTemplate(Box::new(template)))];
        if json {
            v.push(Accept::IoJson);
        }
        return v;
    }
    let mut v = vec![Accept::Is(template)];
    if json {
        v.push(Accept::Json);
    }
    v
}

pub fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let from = at.saturating_sub(24);
    let cut = |b: &[u8]| {
        let to = b.len().min(at + 60);
        clip(&String::from_utf8_lossy(&b[from.min(to)..to]))
    };
    format!(
        "at byte {at} (lengths {} and {}): …{:?} instead of …{:?}",
        got.len(),
        want.len(),
        cut(got),
        cut(want)
    )
}

/// For how many seconds a thread may compute without any operation
fn patience() -> u64 {
    std::env::var("VRT_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(20)
}
