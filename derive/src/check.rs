//! Runs cases and decides whether the property held.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;
use std::time::Duration;

use proc_macro2::{TokenStream, TokenTree};
use vsim::rng::{mix, mix_str};
use vsim::sched::Sched;

use crate::case::{Case, DeriveSpec};
use crate::tree::{Content, Tree, PACKAGE};
use crate::vfs::{self, Fault, Found};
use crate::zygote::{derive, thread, Outcome, Zygote};

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub derives: u64,
    pub codes: u64,
    pub errors: u64,
    pub ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub switches: u64,
    pub waits: u64,
    pub builds: u64,
    pub kept: u64,
    pub edits: u64,
    pub double_runs: u64,
    pub distinct: HashSet<u64>,
    pub interleavings: HashSet<u64>,
}

pub struct Env {
    pub zygote: Zygote,
    pub stats: Stats,
    pub last_log: Option<Vec<u8>>,
    pub last_hash: u64,
    /// Nothing happened for a long time
    pub blocked: bool,
}

struct Done {
    outcome: Outcome,
    ops: Vec<(&'static str, String)>,
    fired: Vec<(usize, String)>,
    unused: Vec<(usize, Fault)>,
}

fn patience() -> u64 {
    std::env::var("VRT_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(30)
}

impl Env {
    pub fn new() -> Env {
        Env { zygote: Zygote::start(), stats: Stats::default(), last_log: None, last_hash: 0, blocked: false }
    }

    pub fn check(&mut self, case: &Case) -> Result<(), String> {
        self.stats.cases += 1;
        self.last_log = None;
        self.last_hash = 0;
        match case.property.as_str() {
            "C18" => self.builds(case),
            _ => self.derives(case),
        }
    }

    fn note(&mut self, outcome: &Outcome, ops: &[(impl AsRef<str>, String)], fired: &[(usize, String)]) {
        self.stats.derives += 1;
        self.stats.ops += ops.len() as u64;
        match outcome {
            Outcome::Code(_) => self.stats.codes += 1,
            _ => self.stats.errors += 1,
        }
        let mut h = mix_str(3, &format!("{outcome:?}"));
        for (kind, path) in ops {
            h = mix_str(mix_str(h, kind.as_ref()), path);
        }
        for (at, what) in fired {
            h = mix_str(mix(h, *at as u64), what);
            *self.stats.faults.entry(what.clone()).or_default() += 1;
        }
        if !ops.is_empty() {
            self.stats.distinct.insert(h);
        }
        self.last_hash = mix(self.last_hash, h);
    }

    /// C16, C17
    fn derives(&mut self, case: &Case) -> Result<(), String> {
        let trees = Arc::new(case.trees.clone());
        let n = case.threads.len();
        let sched = case.sched.as_ref().map(|s| Arc::new(Sched::new(n, s.seed, s.switch, s.script.clone())));
        let mut handles = Vec::new();
        for (t, specs) in case.threads.iter().enumerate() {
            let (specs, trees, sched) = (specs.clone(), trees.clone(), sched.clone());
            handles.push(thread(move || {
                if let Some(s) = &sched {
                    vfs::set_sched(Some((s.clone(), t)));
                    s.enter(t);
                }
                let done: Vec<Done> = specs
                    .iter()
                    .map(|spec| {
                        let (outcome, ctx) = derive(&trees[spec.tree], spec);
                        Done {
                            outcome,
                            ops: ctx.ops.into_iter().map(|op| (op.kind, op.path)).collect(),
                            fired: ctx.fired,
                            unused: ctx.faults,
                        }
                    })
                    .collect();
                vfs::set_sched(None);
                if let Some(s) = sched {
                    s.finish(t);
                }
                done
            }));
            if case.sched.is_none() {
                // One after the other
                let h = handles.pop().unwrap();
                while !h.is_finished() {
                    std::thread::sleep(Duration::from_micros(50));
                }
                handles.push(h);
            }
        }
        if let Some(s) = &sched {
            s.start();
            let r = s.join(Duration::from_secs(patience()), Some(Duration::from_millis(400)));
            self.last_log = Some(r.log.clone());
            self.stats.switches += r.switches;
            self.stats.waits += r.waits;
            let h = r.log.iter().fold(9, |h, &c| mix(h, c as u64));
            self.stats.interleavings.insert(h);
            if r.blocked {
                self.blocked = true;
                return Err("the derives block each other".into());
            }
        }
        let mut all = Vec::new();
        for h in handles {
            all.push(h.join().map_err(|_| "the simulator panicked".to_owned())?);
        }
        for (t, (specs, done)) in case.threads.iter().zip(&all).enumerate() {
            for (i, (spec, done)) in specs.iter().zip(done).enumerate() {
                self.note(&done.outcome, &done.ops, &done.fired);
                self.judge(case, spec, done).map_err(|m| format!("thread {t}, derive {i}: {m}"))?;
            }
        }
        Ok(())
    }

    fn judge(&mut self, case: &Case, spec: &DeriveSpec, done: &Done) -> Result<(), String> {
        let tree = &case.trees[spec.tree];
        // Paths in error messages are relative to the working directory
        let clean = self.zygote.clean_at(tree, spec.item, &spec.cwd).outcome;
        if case.property == "C16" {
            let home = self.zygote.clean(tree, spec.item).outcome;
            if without_paths(&home) != without_paths(&clean) {
                return Err(format!(
                    "in the working directory {:?} the derive yields {}\ninstead of {}",
                    spec.cwd,
                    difference(&clean, &home),
                    difference(&home, &clean)
                ));
            }
        }
        let survive = case.property == "C17";
        if survive {
            if let Outcome::Panic(m) | Outcome::Crash(m) = &clean {
                return Err(format!("deriving {:?} alone ends with {m:?}", tree.items[spec.item]));
            }
            if let Outcome::Panic(m) = &done.outcome {
                return Err(format!("the derive panicked: {m}"));
            }
            if let Outcome::Code(code) = &done.outcome {
                balanced(code).map_err(|m| format!("the compiler cannot read the code: {m}"))?;
                for (_, path) in done.ops.iter().filter(|op| op.0 == "read") {
                    if let Some(Content::Bytes(bytes)) = tree.files.get(path) {
                        let changed = spec.faults.iter().any(|f| matches!(&f.1, Fault::Replace(p, _) | Fault::Append(p, _) if p == path));
                        if std::str::from_utf8(bytes).is_err() && !changed {
                            return Err(format!("the derive succeeds although it has read {path:?} which is not UTF-8"));
                        }
                    }
                }
            }
        }
        let mut failed = false;
        let mut replaced = Vec::new();
        for (at, fault) in spec.faults.iter().filter(|f| !done.unused.contains(f)) {
            if !done.fired.iter().any(|f| f.0 == *at) {
                continue;
            }
            match fault {
                Fault::Fail(vfs::Errno::Interrupted) | Fault::Short(_) | Fault::NoSize | Fault::Stall => {}
                Fault::Fail(_) => failed = true,
                Fault::Replace(path, text) => replaced.push((path.clone(), text.clone())),
                Fault::Vanish(path) => replaced.push((path.clone(), None)),
                Fault::Append(path, text) => {
                    if let Some(Content::Text(old)) = tree.files.get(path) {
                        replaced.push((path.clone(), Some(format!("{old}{text}"))));
                    }
                }
            }
        }
        let faults = || match done.fired.is_empty() {
            true => String::new(),
            false => format!(" with {:?}", done.fired),
        };
        if !failed && replaced.is_empty() {
            if done.outcome != clean {
                return Err(format!(
                    "deriving{} yields {}\ninstead of {}",
                    faults(),
                    difference(&done.outcome, &clean),
                    difference(&clean, &done.outcome)
                ));
            }
            return Ok(());
        }
        if !survive {
            return Ok(());
        }
        let Outcome::Code(code) = &done.outcome else {
            return Ok(());
        };
        let mut possible = vec![clean];
        for choice in 1..1usize << replaced.len() {
            let mut t = tree.clone();
            for (i, (path, text)) in replaced.iter().enumerate() {
                if choice >> i & 1 == 1 {
                    match text {
                        Some(text) => t.files.insert(path.clone(), Content::Text(text.clone())),
                        None => t.files.remove(path),
                    };
                }
            }
            possible.push(self.zygote.clean_at(&t, spec.item, &spec.cwd).outcome);
        }
        if !possible.iter().any(|p| matches!(p, Outcome::Code(c) if c == code)) {
            return Err(format!(
                "the derive{} succeeds with {}\nbut it should yield {}",
                faults(),
                difference(&done.outcome, &possible[0]),
                difference(&possible[0], &done.outcome)
            ));
        }
        Ok(())
    }

    /// C18: a compiler that derives again only if it has to
    fn builds(&mut self, case: &Case) -> Result<(), String> {
        let mut tree = case.trees[0].clone();
        // What each item was built to, and the files it depends on
        let mut kept: BTreeMap<usize, (String, Vec<(String, u64)>)> = BTreeMap::new();
        for (n, step) in case.steps.iter().enumerate() {
            for (path, content) in &step.edits {
                self.stats.edits += 1;
                match content {
                    Some(c) => tree.files.insert(path.clone(), c.clone()),
                    None => tree.files.remove(path),
                };
            }
            for spec in &step.builds {
                if let Some((code, tracked)) = kept.get(&spec.item) {
                    let changed = tracked.iter().any(|(path, hash)| content(&tree, path) != Some(*hash));
                    if !changed {
                        self.stats.kept += 1;
                        let clean = self.zygote.clean_at(&tree, spec.item, &spec.cwd).outcome;
                        let old = Outcome::Code(code.clone());
                        if clean != old {
                            let files: Vec<&String> = tracked.iter().map(|t| &t.0).collect();
                            return Err(format!(
                                "build {n}: item {} is not derived again, because only {files:?} are tracked. It is still \
                                 {}\nbut now it should be {}",
                                spec.item,
                                difference(&old, &clean),
                                difference(&clean, &old)
                            ));
                        }
                        continue;
                    }
                }
                kept.remove(&spec.item);
                self.stats.builds += 1;
                let r = self.zygote.run(&tree, spec);
                self.note(&r.outcome, &r.ops, &r.fired);
                if let Outcome::Code(code) = r.outcome {
                    let paths = tracked(&code)?;
                    let mut files = Vec::new();
                    for path in paths {
                        match content(&tree, &path) {
                            Some(h) => files.push((path, h)),
                            None => return Err(format!("build {n}: the code refers to {path:?} which does not exist")),
                        }
                    }
                    kept.insert(spec.item, (code, files));
                }
            }
        }
        Ok(())
    }
}

fn content(tree: &Tree, path: &str) -> Option<u64> {
    match tree.fs().resolve(path) {
        Ok(Found::File(_, bytes)) => Some(bytes.iter().fold(5, |h, &b| mix(h, b as u64))),
        _ => None,
    }
}

fn without_paths(o: &Outcome) -> Outcome {
    match o {
        Outcome::Error(msg, skeleton) => {
            let lines: Vec<String> = msg
                .lines()
                .map(|l| match l.trim_start().strip_prefix("--> ") {
                    Some(at) => {
                        let mut parts: Vec<&str> = at.rsplitn(3, ':').collect();
                        if parts.len() == 3 {
                            parts[2] = parts[2].rsplit('/').next().unwrap();
                        }
                        format!("--> {parts:?}")
                    }
                    None => l.to_owned(),
                })
                .collect();
            Outcome::Error(lines.join("\n"), skeleton.clone())
        }
        o => o.clone(),
    }
}

/// From a little before the first difference
fn difference(a: &Outcome, b: &Outcome) -> String {
    let (Outcome::Code(x), Outcome::Code(y)) = (a, b) else {
        return a.short();
    };
    let same = x.chars().zip(y.chars()).take_while(|(x, y)| x == y).count();
    let part: String = x.chars().skip(same.saturating_sub(120)).take(300).collect();
    format!("code …{part:?}…")
}

/// Whether the code consists of tokens with balanced brackets. If it does not, the compiler ends the derive macro (and
/// some compilers end themselves).
fn balanced(code: &str) -> Result<(), String> {
    let chars: Vec<char> = code.chars().collect();
    let at = |i: usize| chars.get(i).copied().unwrap_or('\0');
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut open = Vec::new();
    let mut i = 0;
    while i < chars.len() {
        let start = i;
        let near = || chars[start..].iter().take(40).collect::<String>();
        i += 1;
        match chars[start] {
            c @ ('(' | '[' | '{') => open.push(c),
            c @ (')' | ']' | '}') => {
                let fits = matches!((open.pop(), c), (Some('('), ')') | (Some('['), ']') | (Some('{'), '}'));
                if !fits {
                    return Err(format!("a bracket is not opened: {:?}", near()));
                }
            }
            '/' if at(i) == '/' => {
                while i < chars.len() && chars[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i) == '*' => {
                let mut depth = 1;
                i += 1;
                while depth > 0 {
                    match (at(i), at(i + 1)) {
                        ('/', '*') => (depth, i) = (depth + 1, i + 2),
                        ('*', '/') => (depth, i) = (depth - 1, i + 2),
                        _ if i >= chars.len() => return Err(format!("a comment is not closed: {:?}", near())),
                        _ => i += 1,
                    }
                }
            }
            quote @ ('"' | '\'') => {
                if quote == '\'' && word(at(i)) && at(i + 1) != '\'' {
                    // A lifetime
                    continue;
                }
                while at(i) != quote {
                    if i >= chars.len() {
                        return Err(format!("a literal is not closed: {:?}", near()));
                    }
                    i += if chars[i] == '\\' { 2 } else { 1 };
                }
                i += 1;
            }
            c if word(c) => {
                while word(at(i)) {
                    i += 1;
                }
                let ident: String = chars[start..i].iter().collect();
                if !matches!(ident.as_str(), "r" | "br" | "cr") {
                    continue;
                }
                let hashes = (i..).take_while(|&i| at(i) == '#').count();
                if at(i + hashes) != '"' {
                    continue;
                }
                i += hashes + 1;
                while at(i) != '"' || (1..=hashes).any(|n| at(i + n) != '#') {
                    if i >= chars.len() {
                        return Err(format!("a raw string is not closed: {:?}", near()));
                    }
                    i += 1;
                }
                i += hashes + 1;
            }
            _ => {}
        }
    }
    match open.is_empty() {
        true => Ok(()),
        false => Err("a bracket is not closed".to_owned()),
    }
}

/// The files which the compiler tracks because the code includes them
pub fn tracked(code: &str) -> Result<Vec<String>, String> {
    let tokens: TokenStream = code.parse().map_err(|e| format!("the code is no valid Rust: {e}"))?;
    let mut out = BTreeSet::new();
    walk(tokens, &mut out)?;
    Ok(out.into_iter().collect())
}

fn walk(tokens: TokenStream, out: &mut BTreeSet<String>) -> Result<(), String> {
    let tokens: Vec<TokenTree> = tokens.into_iter().collect();
    for (i, t) in tokens.iter().enumerate() {
        if let TokenTree::Ident(name) = t {
            let name = name.to_string();
            if matches!(name.as_str(), "include_bytes" | "include_str" | "include") {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (tokens.get(i + 1), tokens.get(i + 2)) {
                    if p.as_char() == '!' {
                        let path = constant(g.stream()).ok_or_else(|| format!("unknown argument of {name}!: {g}"))?;
                        out.insert(match path.starts_with('/') {
                            true => path,
                            false => format!("{PACKAGE}/src/{path}"),
                        });
                    }
                }
            }
        }
        if let TokenTree::Group(g) = t {
            walk(g.stream(), out)?;
        }
    }
    Ok(())
}

/// The value of a literal, `concat!` or `env!`
fn constant(tokens: TokenStream) -> Option<String> {
    if let Ok(s) = syn::parse2::<syn::LitStr>(tokens.clone()) {
        return Some(s.value());
    }
    if let Ok(syn::Lit::Int(s)) = syn::parse2::<syn::Lit>(tokens.clone()) {
        return Some(s.base10_digits().to_owned());
    }
    let m = syn::parse2::<syn::Macro>(tokens).ok()?;
    match m.path.segments.last()?.ident.to_string().as_str() {
        "env" => Some(std::env::var(constant(m.tokens)?).ok()?),
        "concat" => {
            let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            let args = syn::parse::Parser::parse2(parser, m.tokens).ok()?;
            args.into_iter().map(|a| constant(quote::quote!(#a))).collect()
        }
        _ => None,
    }
}
