//! The seeded search: generates cases for a template program.

use vsim::rng::{mix, mix_str, Rng};
use vsim::values::Vs;

use crate::case::{Case, SchedSpec};
use crate::check::{by_model, Env};
use crate::ctx::{Fault, IoKind, Op};
use crate::direct::{Call, Direct};
use crate::exec::{Entry, RenderSpec};

pub struct Explorer<'a> {
    pub env: &'a mut Env,
    pub seed: u64,
    /// Roughly how many cases per program
    pub effort: usize,
    rng: Rng,
    prog: usize,
}

/// Gets each case; `false` ends the exploration
pub type OnCase<'a> = dyn FnMut(&mut Env, Case) -> bool + 'a;

macro_rules! attempt {
    ($self:ident, $on:ident, $case:expr) => {
        let case = $case;
        if !$on($self.env, case) {
            return false;
        }
    };
}

impl<'a> Explorer<'a> {
    pub fn new(env: &'a mut Env, seed: u64, effort: usize) -> Self {
        Explorer {
            env,
            seed,
            effort,
            rng: Rng::new(seed),
            prog: 0,
        }
    }

    pub fn program(&mut self, prog: usize, on: &mut OnCase<'_>) -> bool {
        self.prog = prog;
        let property = self.env.property.clone();
        self.rng = Rng::new(mix(mix_str(self.seed, &property), self.env.progs[prog].seed));
        match property.as_str() {
            "C01" | "C02" | "C03" => self.single_faults(on),
            "C04" => self.panics(on),
            "C05" => self.entries(on),
            "C06" => self.histories(on),
            "C07" => self.overlaps(on),
            _ => self.model(on),
        }
    }

    fn case(&mut self, insts: Vec<(usize, Vs)>, threads: Vec<Vec<RenderSpec>>) -> Case {
        Case {
            property: self.env.property.clone(),
            seed: self.rng.next(),
            insts,
            threads,
            ..Case::default()
        }
    }

    /// Values with which the template does not become enormous
    fn vs(&mut self, prog: usize) -> Vs {
        for _ in 0..6 {
            let vs = Vs {
                seed: self.rng.next(),
                plain: false,
            };
            let o = self.env.clean(prog, vs, Entry::Render, 0);
            if o.ops.len() < 60_000 && o.out.len() < 300_000 {
                return vs;
            }
        }
        Vs {
            seed: self.rng.next(),
            plain: true,
        }
    }

    fn ops(&mut self, prog: usize, vs: Vs, entry: Entry, chunk: u32) -> Vec<Op> {
        self.env.clean(prog, vs, entry, chunk).ops.clone()
    }

    fn err_points(ops: &[Op], keep: impl Fn(Op) -> bool) -> Vec<usize> {
        (0..ops.len()).filter(|&i| keep(ops[i])).collect()
    }

    /// Up to `max` of the points; all of them if there are few
    fn sample(&mut self, mut points: Vec<usize>, max: usize) -> Vec<usize> {
        while points.len() > max {
            let i = self.rng.below(points.len());
            points.swap_remove(i);
        }
        points
    }

    fn pick_op(&mut self, points: &[usize]) -> Option<usize> {
        match points.is_empty() {
            true => None,
            false => Some(*self.rng.pick(points)),
        }
    }

    fn benign_io(&mut self, ops: &[Op]) -> Vec<(usize, Fault)> {
        let points = Self::err_points(ops, |op| matches!(op, Op::Io(_)));
        let mut out = Vec::new();
        if points.is_empty() {
            return out;
        }
        for _ in 0..self.rng.range(1, 6) {
            let at = *self.rng.pick(&points);
            if out.iter().any(|(i, _)| *i == at) {
                continue;
            }
            let f = match self.rng.chance(1, 3) {
                true => Fault::Intr,
                false => Fault::Short(self.rng.range(1, 9) as u32),
            };
            out.push((at, f));
        }
        out.sort_by_key(|f| f.0);
        out
    }

    /// C01, C02, C03: one render, which fails at one point
    fn single_faults(&mut self, on: &mut OnCase<'_>) -> bool {
        let property = self.env.property.clone();
        let rounds = (self.effort / 60).max(1);
        for _ in 0..rounds {
            let vs = self.vs(self.prog);
            let insts = vec![(self.prog, vs)];
            let entries: &[Entry] = match property.as_str() {
                "C01" => &Entry::TEXT,
                "C02" => &Entry::IO,
                _ => &Entry::ALL,
            };
            let entries: Vec<Entry> = match property.as_str() {
                "C03" => (0..4).map(|_| *self.rng.pick(entries)).collect(),
                _ => entries.to_vec(),
            };
            for entry in entries {
                let chunk = match entry.is_io() && self.rng.chance(1, 2) {
                    true => self.rng.range(1, 12) as u32,
                    false => 0,
                };
                let mut spec = RenderSpec::new(0, entry);
                spec.chunk = chunk;
                let case = self.case(insts.clone(), vec![vec![spec.clone()]]);
                attempt!(self, on, case);
                let ops = self.ops(self.prog, vs, entry, chunk);
                let per_entry = 60 / 4;
                let points = match property.as_str() {
                    "C01" => Self::err_points(&ops, |op| op.is_sink()),
                    "C02" => Self::err_points(&ops, |op| op.is_sink() || op.can_fail()),
                    _ => Self::err_points(&ops, |op| op.can_fail() && !op.is_sink()),
                };
                for at in self.sample(points, per_entry) {
                    let fault = match ops[at] {
                        Op::Io(_) => match self.rng.chance(1, 5) {
                            true => Fault::Zero,
                            false => Fault::Io(*self.rng.pick(&IoKind::ALL)),
                        },
                        _ => Fault::Err,
                    };
                    let mut s = spec.clone();
                    if entry.is_io() && self.rng.chance(1, 2) {
                        s.faults = self.benign_io(&ops[..at]);
                    }
                    s.careless = property == "C02" && ops[at].is_sink() && self.rng.chance(1, 3);
                    s.faults.push((at, fault));
                    if property == "C02" && self.rng.chance(1, 4) {
                        // Without the failure
                        s.faults.pop();
                        s.faults.extend(self.benign_io(&ops));
                    }
                    if self.rng.chance(1, 12) {
                        self.add_nested(&mut s, &ops, 1);
                    }
                    let case = self.case(insts.clone(), vec![vec![s]]);
                    attempt!(self, on, case);
                }
            }
        }
        true
    }

    /// A render inside of an operation
    fn add_nested(&mut self, spec: &mut RenderSpec, ops: &[Op], insts: usize) {
        if ops.is_empty() {
            return;
        }
        let at = self.rng.below(ops.len());
        if spec.faults.iter().any(|(i, _)| *i == at) {
            return;
        }
        let inst = self.rng.below(insts);
        let mut inner = RenderSpec::new(inst, *self.rng.pick(&Entry::ALL));
        if self.rng.chance(1, 3) {
            let at = self.rng.below(30);
            let f = match self.rng.chance(1, 2) {
                true => Fault::Err,
                false => Fault::Panic,
            };
            inner.faults.push((at, f));
        }
        spec.faults.push((at, Fault::Nested(Box::new(inner))));
    }

    fn random_fault(&mut self, op: Op) -> Option<Fault> {
        Some(match op {
            Op::Io(_) => match self.rng.below(6) {
                0 => Fault::Zero,
                1 => Fault::Panic,
                2 => Fault::Intr,
                3 => Fault::Short(self.rng.range(1, 5) as u32),
                _ => Fault::Io(*self.rng.pick(&IoKind::ALL)),
            },
            op if op.can_fail() && self.rng.chance(2, 3) => Fault::Err,
            _ => Fault::Panic,
        })
    }

    /// C04: panics, and what is rendered afterwards
    fn panics(&mut self, on: &mut OnCase<'_>) -> bool {
        let rounds = (self.effort / 12).max(1);
        for _ in 0..rounds {
            let vs = self.vs(self.prog);
            let other = match self.rng.chance(1, 2) {
                true => self.rng.below(self.env.progs.len()),
                false => self.prog,
            };
            let vs2 = self.vs(self.prog);
            let insts = vec![(self.prog, vs), (other, vs2)];
            for _ in 0..12 {
                let mut history = Vec::new();
                for _ in 0..self.rng.range(1, 3) {
                    let entry = *self.rng.pick(&Entry::ALL);
                    let mut s = RenderSpec::new(0, entry);
                    let ops = self.ops(self.prog, vs, entry, 0);
                    if ops.is_empty() {
                        return true;
                    }
                    // Operations of each kind are equally likely
                    let kinds: std::collections::BTreeSet<&str> = ops.iter().map(|o| o.name()).collect();
                    let kinds: Vec<&str> = kinds.into_iter().collect();
                    let kind = *self.rng.pick(&kinds);
                    let points = Self::err_points(&ops, |o| o.name() == kind);
                    let at = *self.rng.pick(&points);
                    if self.rng.chance(1, 6) {
                        self.add_nested(&mut s, &ops[..at], 2);
                    }
                    s.faults.push((at, Fault::Panic));
                    history.push(s);
                }
                let mut after = Vec::new();
                for inst in [0, 1] {
                    let entry = *self.rng.pick(&Entry::ALL);
                    after.push(RenderSpec::new(inst, entry));
                }
                after.push(RenderSpec::new(0, history.last().unwrap().entry));
                history.extend(after.clone());
                let case = self.case(insts.clone(), vec![history, after]);
                attempt!(self, on, case);
            }
        }
        true
    }

    /// C05: all ways to render, with the same failure
    fn entries(&mut self, on: &mut OnCase<'_>) -> bool {
        let rounds = (self.effort / 30).max(1);
        for round in 0..rounds {
            let mut vs = self.vs(self.prog);
            let alloc = round % 2 == 1;
            vs.plain = alloc;
            let insts = vec![(self.prog, vs)];
            if alloc {
                let full = self.env.clean(self.prog, vs, Entry::Render, 0);
                // Only the hint is large, not the text. Twice as much is needed while a string grows.
                if full.out.len() > 16_000 {
                    continue;
                }
                let mut specs = Vec::new();
                for entry in Entry::ALL {
                    let mut s = RenderSpec::new(0, entry);
                    s.alloc = Some(48_000);
                    specs.push(s);
                }
                let case = self.case(insts.clone(), vec![specs]);
                attempt!(self, on, case);
                continue;
            }
            let mut clean: Vec<RenderSpec> = Entry::ALL.iter().map(|e| RenderSpec::new(0, *e)).collect();
            for entry in [Entry::Display, Entry::DynDisplay] {
                let mut s = RenderSpec::new(0, entry);
                s.chunk = self.rng.range(1, 5) as u32;
                clean.push(s);
            }
            let case = self.case(insts.clone(), vec![clean]);
            attempt!(self, on, case);
            // The operations of values are the same for all of them
            let ops = self.ops(self.prog, vs, Entry::Render, 0);
            let points = Self::err_points(&ops, |_| true);
            for nth in self.sample(points, 14) {
                let mut specs = Vec::new();
                let fault = match ops[nth].can_fail() && self.rng.chance(3, 4) {
                    true => Fault::Err,
                    false => Fault::Panic,
                };
                for entry in Entry::ALL {
                    let chunk = match entry {
                        Entry::Display | Entry::DynDisplay => self.rng.below(6) as u32,
                        _ => 0,
                    };
                    let all = self.ops(self.prog, vs, entry, chunk);
                    let mine: Vec<usize> = Self::err_points(&all, |o| !o.is_sink());
                    if let Some(at) = mine.get(nth) {
                        let mut s = RenderSpec::new(0, entry);
                        s.chunk = chunk;
                        s.faults.push((*at, fault.clone()));
                        specs.push(s);
                    }
                }
                let case = self.case(insts.clone(), vec![specs]);
                attempt!(self, on, case);
            }
        }
        true
    }

    fn history_insts(&mut self) -> Vec<(usize, Vs)> {
        let mut insts = vec![(self.prog, self.vs(self.prog))];
        for _ in 0..self.rng.range(1, 3) {
            let prog = match self.rng.chance(1, 2) {
                true => self.prog,
                false => self.rng.below(self.env.progs.len()),
            };
            let vs = match self.rng.chance(1, 4) {
                // Another value with the same content
                true => insts[0].1,
                false => self.vs(prog),
            };
            insts.push((prog, vs));
        }
        insts
    }

    fn history_step(&mut self, insts: &[(usize, Vs)], faults: bool) -> RenderSpec {
        let inst = self.rng.below(insts.len());
        let entry = *self.rng.pick(&Entry::ALL);
        let mut s = RenderSpec::new(inst, entry);
        if !faults || self.rng.chance(2, 5) {
            return s;
        }
        if entry.is_io() && self.rng.chance(1, 3) {
            s.chunk = self.rng.range(1, 9) as u32;
        }
        let (prog, vs) = insts[inst];
        let ops = self.ops(prog, vs, entry, s.chunk);
        if ops.is_empty() {
            return s;
        }
        if self.rng.chance(1, 3) {
            self.add_nested(&mut s, &ops, insts.len());
        }
        if self.rng.chance(3, 4) {
            let at = self.rng.below(ops.len());
            if let Some(f) = self.random_fault(ops[at]) {
                s.faults.push((at, f));
            }
        }
        s
    }

    /// C06: many renders one after the other
    fn histories(&mut self, on: &mut OnCase<'_>) -> bool {
        let rounds = (self.effort / 12).max(1);
        for round in 0..rounds {
            let insts = self.history_insts();
            // The first render of some value in a fresh process is compared to later ones
            let entries: Vec<Entry> = (0..2).map(|_| *self.rng.pick(&Entry::ALL)).collect();
            for k in 0..6 {
                let mut steps = Vec::new();
                for _ in 0..self.rng.range(2, 14) {
                    let mut s = self.history_step(&insts, true);
                    if s.faults.is_empty() && s.chunk == 0 {
                        // Few different ones, each needs a process
                        s.entry = *self.rng.pick(&entries);
                    }
                    steps.push(s);
                }
                for inst in 0..insts.len() {
                    steps.push(RenderSpec::new(inst, *self.rng.pick(&entries)));
                }
                let mut case = self.case(insts.clone(), vec![steps]);
                if round == 0 && k == 0 {
                    case.repeat = 40;
                }
                attempt!(self, on, case);
            }
        }
        true
    }

    /// C07: several threads, and values that render
    fn overlaps(&mut self, on: &mut OnCase<'_>) -> bool {
        let rounds = (self.effort / 6).max(1);
        for _ in 0..rounds {
            let insts = self.history_insts();
            for _ in 0..6 {
                let n = self.rng.range(2, 4);
                let mut threads = Vec::new();
                let mut total = 0;
                for _ in 0..n {
                    let mut specs = Vec::new();
                    for _ in 0..self.rng.range(1, 2) {
                        let faults = self.rng.chance(1, 2);
                        let mut s = self.history_step(&insts, faults);
                        if self.rng.chance(2, 3) {
                            s.inst = 0;
                            s.faults.retain(|(_, f)| !matches!(f, Fault::Io(_)));
                        }
                        let (prog, vs) = insts[s.inst];
                        let ops = self.ops(prog, vs, s.entry, s.chunk);
                        total += ops.len();
                        if !ops.is_empty() && self.rng.chance(1, 3) {
                            // Stalls until nobody else can go on
                            let at = self.rng.below(ops.len());
                            if !s.faults.iter().any(|(i, _)| *i == at) {
                                s.faults.push((at, Fault::Stall));
                            }
                        }
                        specs.push(s);
                    }
                    threads.push(specs);
                }
                if total > 4000 {
                    continue;
                }
                let mut case = self.case(insts.clone(), threads);
                case.sched = Some(SchedSpec {
                    seed: self.rng.next(),
                    switch: *self.rng.pick(&[1, 2, 2, 3, 5, 10, 30]),
                    script: None,
                });
                attempt!(self, on, case);
            }
        }
        true
    }

    /// C08 to C14: compared to the reference model, also up to a failure
    fn model(&mut self, on: &mut OnCase<'_>) -> bool {
        debug_assert!(by_model(&self.env.property));
        let rounds = (self.effort / 4).max(1);
        for _ in 0..rounds {
            let vs = self.vs(self.prog);
            let insts = vec![(self.prog, vs)];
            let entry = *self.rng.pick(&[Entry::Render, Entry::RenderInto, Entry::WriteInto, Entry::DynRenderInto]);
            let spec = RenderSpec::new(0, entry);
            let case = self.case(insts.clone(), vec![vec![spec.clone()]]);
            attempt!(self, on, case);
            for _ in 0..3 {
                let entry = *self.rng.pick(&[Entry::RenderInto, Entry::WriteInto, Entry::Display]);
                let mut s = RenderSpec::new(0, entry);
                if entry.is_io() {
                    s.chunk = self.rng.below(6) as u32;
                }
                let ops = self.ops(self.prog, vs, entry, s.chunk);
                if ops.is_empty() {
                    continue;
                }
                let at = self.rng.below(ops.len());
                if let Some(f) = self.random_fault(ops[at]) {
                    s.faults.push((at, f));
                }
                let case = self.case(insts.clone(), vec![vec![s]]);
                attempt!(self, on, case);
            }
        }
        true
    }

    /// Calls of filters without a template
    pub fn direct(&mut self, shard: usize, count: usize, on: &mut OnCase<'_>) -> bool {
        let property = self.env.property.clone();
        if !["C08", "C09", "C10"].contains(&property.as_str()) {
            return true;
        }
        self.rng = Rng::new(mix(mix_str(self.seed, &property), 0xD1 + shard as u64));
        let mut n = 0;
        while n < count {
            let d = Direct {
                call: Call::pick(&mut self.rng, &property),
                value: self.rng.next(),
                plain: false,
                times: self.rng.weighted(&[0, 5, 2, 1]),
                faults: Vec::new(),
            };
            let ops = crate::direct::run(&d).ops;
            n += 1;
            let mut case = self.case(Vec::new(), Vec::new());
            case.direct = Some(d.clone());
            attempt!(self, on, case);
            if ops.is_empty() {
                continue;
            }
            for _ in 0..2 {
                let points = Self::err_points(&ops, |o| o.can_fail());
                let Some(at) = self.pick_op(&points) else { break };
                let mut d = d.clone();
                let fault = match self.rng.chance(1, 8) {
                    true => Fault::Panic,
                    false => Fault::Err,
                };
                d.faults.push((at, fault));
                n += 1;
                let mut case = self.case(Vec::new(), Vec::new());
                case.direct = Some(d);
                attempt!(self, on, case);
            }
        }
        true
    }
}
