//! The seeded search: generates cases for generated packages.

use std::collections::BTreeSet;

use vsim::rng::{mix, mix_str, Rng};

use crate::case::{Case, DeriveSpec, SchedSpec, Step};
use crate::check::Env;
use crate::tree::{corrupt, generate_tree, Content, Options, Tree, PACKAGE};
use crate::vfs::{Errno, Fault};
use crate::zygote::Outcome;

pub struct Explorer<'a> {
    pub env: &'a mut Env,
    property: String,
    seed: u64,
    /// How many cases per tree
    effort: usize,
    rng: Rng,
}

/// Gets each case; `false` ends the exploration
pub type OnCase<'a> = dyn FnMut(&mut Env, Case) -> bool + 'a;

/// The file that does not stay what it is
fn changed(f: &Fault) -> Option<&str> {
    match f {
        Fault::Replace(path, _) | Fault::Append(path, _) | Fault::Vanish(path) => Some(path),
        Fault::Fail(_) | Fault::Short(_) | Fault::NoSize | Fault::Stall => None,
    }
}

/// Whether no other file can be found instead
fn removable(tree: &Tree, path: &str) -> bool {
    let name = path.rsplit('/').next().unwrap();
    tree.files.contains_key(path) && tree.files.keys().filter(|k| k.rsplit('/').next() == Some(name)).count() == 1
}

const CWDS: &[&str] = &[PACKAGE, "/simfs/cwd", "/simfs", "/", "/simfs/pkg/templates", "/simfs/nowhere"];

impl<'a> Explorer<'a> {
    pub fn new(env: &'a mut Env, property: &str, seed: u64, effort: usize) -> Self {
        Explorer { env, property: property.into(), seed, effort, rng: Rng::new(seed) }
    }

    pub fn tree(&mut self, n: usize, on: &mut OnCase<'_>) -> bool {
        self.rng = Rng::new(mix(mix_str(self.seed, &self.property), n as u64));
        match self.property.as_str() {
            "C16" => self.reproducible(on),
            "C17" => self.survives(on),
            "C18" => self.incremental(on),
            p => panic!("unknown property {p}"),
        }
    }

    fn spec(&mut self, tree: usize, trees: &[Tree]) -> DeriveSpec {
        DeriveSpec {
            tree,
            item: self.rng.below(trees[tree].items.len()),
            cwd: self.rng.pick(CWDS).to_string(),
            hash_seed: self.rng.next(),
            faults: Vec::new(),
        }
    }

    fn ops(&mut self, tree: &Tree, item: usize) -> Vec<(String, String)> {
        self.env.zygote.clean(tree, item).ops
    }

    fn succeeds(&mut self, tree: &Tree) -> bool {
        (0..tree.items.len()).any(|i| matches!(self.env.zygote.clean(tree, i).outcome, Outcome::Code(_)))
    }

    /// A package of which something can be built
    fn valid(&mut self) -> Tree {
        for _ in 0..30 {
            let t = generate_tree(&mut self.rng, &Options { malformed: false });
            if self.succeeds(&t) {
                return t;
            }
        }
        generate_tree(&mut self.rng, &Options { malformed: false })
    }

    fn base(&mut self, malformed: bool) -> Tree {
        match malformed {
            true => generate_tree(&mut self.rng, &Options { malformed }),
            false => self.valid(),
        }
    }

    /// Another state of the same files
    fn variant(&mut self, tree: &Tree) -> Tree {
        let mut t = tree.clone();
        for _ in 0..self.rng.range(1, 3) {
            match self.rng.below(4) {
                0 => corrupt(&mut self.rng, &mut t),
                1 => {
                    let text = *self.rng.pick(&[
                        "[general]\nwhitespace = \"suppress\"\n",
                        "[general]\ndirs = [\"tpl0\", \"templates\"]\n",
                        "[[escaper]]\npath = \"::v::V\"\nextensions = [\"html\"]\n",
                        "not = [ valid",
                    ]);
                    t.files.insert(format!("{PACKAGE}/askama.toml"), Content::Text(text.into()));
                }
                _ => {
                    if let Some((path, text)) = self.edited(&t) {
                        t.files.insert(path, Content::Text(text));
                    }
                }
            }
        }
        t
    }

    /// A file below the package, and another content for it
    fn edited(&mut self, t: &Tree) -> Option<(String, String)> {
        self.edited_one_of(t, None)
    }

    fn edited_one_of(&mut self, t: &Tree, seen: Option<&[(String, String)]>) -> Option<(String, String)> {
        let paths: Vec<&String> = t
            .files
            .iter()
            .filter(|(p, c)| p.starts_with(PACKAGE) && !p.ends_with(".toml") && matches!(c, Content::Text(_)))
            .map(|(p, _)| p)
            .filter(|p| seen.map_or(true, |ops| ops.iter().any(|(kind, path)| kind == "read" && path == *p)))
            .collect();
        if paths.is_empty() {
            return None;
        }
        let path = self.rng.pick(&paths).to_string();
        let Content::Text(text) = &t.files[&path] else { unreachable!() };
        let text = text.clone();
        Some((path, self.edit(&text)))
    }

    fn edit(&mut self, text: &str) -> String {
        let word = format!("W{}", self.rng.below(1000));
        let mut places: Vec<usize> = text.match_indices("%}").map(|(i, _)| i + 2).collect();
        places.push(text.len());
        let at = *self.rng.pick(&places);
        match self.rng.below(6) {
            0 => format!("{}{{{{ {} }}}}{}", &text[..at], word.to_lowercase(), &text[at..]),
            1 => format!("{}{word}", &text[..at]),
            2 => word,
            _ => format!("{}{word}{}", &text[..at], &text[at..]),
        }
    }

    /// Something to append to a file of the package
    fn appended(&mut self, tree: &Tree, path: &str) -> Option<String> {
        if !path.starts_with(PACKAGE) || path.ends_with(".toml") {
            return None;
        }
        let Some(Content::Text(old)) = tree.files.get(path) else { return None };
        let text = self.edit(old);
        match text.strip_prefix(old.as_str()) {
            Some(rest) if !rest.is_empty() => Some(rest.to_owned()),
            _ => Some(format!("A{}", self.rng.below(1000))),
        }
    }

    fn fault(&mut self, ops: &[(String, String)], at: usize, tree: &Tree) -> Option<Fault> {
        let kind = ops[at].0.as_str();
        Some(match self.rng.below(8) {
            0 if kind == "read" => Fault::Short(self.rng.range(1, 20)),
            1 if kind == "read" || kind == "open" => Fault::Fail(Errno::Interrupted),
            2 | 3 => {
                // Often a file that has been read already
                let seen = self.rng.chance(1, 2).then_some(&ops[..at]);
                let (path, text) = self.edited_one_of(tree, seen)?;
                // Otherwise another file might be found partially
                match self.rng.chance(1, 4) && removable(tree, &path) {
                    true => Fault::Replace(path, None),
                    false => Fault::Replace(path, Some(text)),
                }
            }
            4 if removable(tree, &ops[at].1) && matches!(kind, "open" | "stat" | "realpath") => {
                Fault::Vanish(ops[at].1.clone())
            }
            6 if kind == "fstat" => Fault::NoSize,
            5 if matches!(kind, "fstat" | "read") => {
                let path = ops[at].1.clone();
                let text = self.appended(tree, &path)?;
                Fault::Append(path, text)
            }
            _ if matches!(kind, "read" | "open" | "stat" | "fstat" | "realpath" | "opendir") => {
                Fault::Fail(*self.rng.pick(&Errno::ALL))
            }
            _ => return None,
        })
    }

    fn faults(&mut self, tree: &Tree, item: usize, max: usize) -> Vec<(usize, Fault)> {
        let ops = self.ops(tree, item);
        let mut out: Vec<(usize, Fault)> = Vec::new();
        if ops.is_empty() {
            return out;
        }
        for _ in 0..self.rng.range(1, max) {
            let at = self.rng.below(ops.len());
            if out.iter().any(|f| f.0 == at) {
                continue;
            }
            if let Some(f) = self.fault(&ops, at, tree) {
                let twice = changed(&f).is_some()
                    && (out.iter().filter(|f| changed(&f.1).is_some()).count() >= 2
                        || out.iter().any(|o| changed(&o.1) == changed(&f)));
                if !twice {
                    out.push((at, f));
                }
            }
        }
        out.sort_by_key(|f| f.0);
        out
    }

    fn case(&self, trees: Vec<Tree>) -> Case {
        Case { property: self.property.clone(), trees, ..Case::default() }
    }

    fn sched(&mut self, case: &mut Case) {
        if case.threads.len() > 1 && self.rng.chance(5, 6) {
            case.sched =
                Some(SchedSpec { seed: self.rng.next(), switch: *self.rng.pick(&[1, 2, 4, 12]), script: None });
        }
    }

    /// C16: any history, on any threads, in any environment
    fn reproducible(&mut self, on: &mut OnCase<'_>) -> bool {
        let malformed = self.rng.chance(1, 4);
        let base = self.base(malformed);
        for _ in 0..self.effort {
            let mut trees = vec![base.clone()];
            if self.rng.chance(1, 2) {
                trees.push(self.variant(&base));
            }
            if self.rng.chance(1, 4) {
                let t = generate_tree(&mut self.rng, &Options { malformed: true });
                trees.push(t);
            }
            let mut case = self.case(trees.clone());
            for _ in 0..self.rng.weighted(&[0, 3, 3, 2, 1]) {
                let mut specs = Vec::new();
                for _ in 0..self.rng.range(1, 3) {
                    let tree = match self.rng.chance(1, 2) {
                        true => 0,
                        false => self.rng.below(trees.len()),
                    };
                    let mut spec = self.spec(tree, &trees);
                    match self.rng.below(6) {
                        0 => spec.faults = self.faults(&trees[tree], spec.item, 3),
                        1 => {
                            let n = self.ops(&trees[tree], spec.item).len();
                            spec.faults = vec![(self.rng.below(n.max(1)), Fault::Stall)];
                        }
                        _ => {}
                    }
                    specs.push(spec);
                }
                case.threads.push(specs);
            }
            self.sched(&mut case);
            if !on(self.env, case) {
                return false;
            }
        }
        true
    }

    /// C17: whatever is in the files, and whatever fails
    fn survives(&mut self, on: &mut OnCase<'_>) -> bool {
        let malformed = self.rng.chance(2, 3);
        let tree = self.base(malformed);
        let trees = vec![tree.clone()];
        let alone = |x: &mut Self, item: usize, faults: Vec<(usize, Fault)>| {
            let mut spec = x.spec(0, &trees);
            spec.item = item;
            spec.faults = faults;
            spec
        };
        for item in 0..tree.items.len() {
            // Nothing fails
            let mut case = self.case(trees.clone());
            case.threads = vec![vec![alone(self, item, Vec::new())]];
            if !on(self.env, case) {
                return false;
            }
            let ops = self.ops(&tree, item);
            let mut singles: Vec<(usize, Fault)> = Vec::new();
            for (at, (kind, path)) in ops.iter().enumerate() {
                if matches!(kind.as_str(), "read" | "open" | "stat" | "fstat" | "realpath" | "opendir") {
                    singles.push((at, Fault::Fail(*self.rng.pick(&Errno::ALL))));
                }
                if kind == "read" {
                    singles.push((at, Fault::Short(self.rng.range(1, 30))));
                    singles.push((at, Fault::Fail(Errno::Interrupted)));
                }
                if let ("open", true) = (kind.as_str(), removable(&tree, path)) {
                    // Found, but not any more
                    singles.push((at, Fault::Replace(path.clone(), None)));
                }
                if removable(&tree, path) && matches!(kind.as_str(), "open" | "stat" | "realpath") {
                    singles.push((at, Fault::Vanish(path.clone())));
                }
                if kind == "fstat" {
                    singles.push((at, Fault::NoSize));
                }
                if let ("fstat" | "read", Some(text)) = (kind.as_str(), self.appended(&tree, path)) {
                    singles.push((at, Fault::Append(path.clone(), text)));
                }
                let seen = self.rng.chance(1, 2).then_some(&ops[..at]);
                if let Some((path, text)) = self.edited_one_of(&tree, seen) {
                    singles.push((at, Fault::Replace(path, Some(text))));
                }
            }
            while singles.len() > self.effort / 2 {
                let i = self.rng.below(singles.len());
                singles.swap_remove(i);
            }
            for f in singles {
                let mut case = self.case(trees.clone());
                case.threads = vec![vec![alone(self, item, vec![f]), alone(self, item, Vec::new())]];
                if !on(self.env, case) {
                    return false;
                }
            }
        }
        for _ in 0..self.effort / 2 {
            let mut case = self.case(trees.clone());
            for _ in 0..self.rng.weighted(&[0, 5, 1]) {
                let mut specs = Vec::new();
                for _ in 0..self.rng.range(1, 2) {
                    let item = self.rng.below(tree.items.len());
                    let faults = self.faults(&tree, item, 6);
                    specs.push(alone(self, item, faults));
                    if self.rng.chance(1, 2) {
                        let item = self.rng.below(tree.items.len());
                        specs.push(alone(self, item, Vec::new()));
                    }
                }
                case.threads.push(specs);
            }
            self.sched(&mut case);
            if !on(self.env, case) {
                return false;
            }
        }
        true
    }

    /// C18: any history of edits
    fn incremental(&mut self, on: &mut OnCase<'_>) -> bool {
        let malformed = self.rng.chance(1, 8);
        let base = self.base(malformed);
        for _ in 0..self.effort {
            let mut case = self.case(vec![base.clone()]);
            let mut tree = base.clone();
            let mut removed: Vec<(String, Content)> = Vec::new();
            let mut fresh = 0;
            for n in 0..self.rng.range(3, 8) {
                let mut edits = Vec::new();
                if n > 0 {
                    for _ in 0..self.rng.weighted(&[2, 8, 3, 1]) {
                        // Mostly those after which it can still be built
                        for attempt in 0..3 {
                            let (mut t, mut e, mut r, mut f) = (tree.clone(), edits.clone(), removed.clone(), fresh);
                            self.one_edit(&mut t, &mut e, &mut r, &mut f);
                            if attempt == 2 || self.rng.chance(1, 8) || self.succeeds(&t) {
                                (tree, edits, removed, fresh) = (t, e, r, f);
                                break;
                            }
                        }
                    }
                }
                let mut builds = Vec::new();
                for item in 0..tree.items.len() {
                    if n > 0 && self.rng.chance(1, 5) {
                        continue;
                    }
                    let faults = match self.rng.chance(1, 8) {
                        true => {
                            let mut f = self.faults(&tree, item, 2);
                            f.retain(|f| changed(&f.1).is_none());
                            f
                        }
                        false => Vec::new(),
                    };
                    builds.push(DeriveSpec {
                        tree: 0,
                        item,
                        cwd: self.rng.pick(CWDS).to_string(),
                        hash_seed: self.rng.next(),
                        faults,
                    });
                }
                case.steps.push(Step { edits, builds });
            }
            if !on(self.env, case) {
                return false;
            }
        }
        true
    }

    /// No edit makes a file appear where another one has been found before, because then the compiler would
    /// have to track files that do not exist.
    fn one_edit(
        &mut self,
        tree: &mut Tree,
        edits: &mut Vec<(String, Option<Content>)>,
        removed: &mut Vec<(String, Content)>,
        fresh: &mut usize,
    ) {
        let mut put = |tree: &mut Tree, path: String, content: Option<Content>| {
            match &content {
                Some(c) => tree.files.insert(path.clone(), c.clone()),
                None => tree.files.remove(&path),
            };
            edits.push((path, content));
        };
        let Some((path, text)) = self.edited(tree) else {
            return;
        };
        let Content::Text(old) = tree.files[&path].clone() else { unreachable!() };
        match self.rng.below(12) {
            // A reference to a new file
            0 | 1 => {
                *fresh += 1;
                let name = format!("fresh{fresh}.html");
                let dir = path.rsplit_once('/').unwrap().0;
                let refs: Vec<usize> = old.match_indices(".html\"").map(|(i, _)| i).collect();
                let text = match refs.is_empty() || self.rng.chance(1, 2) {
                    true => format!("{old}{{% include \"{name}\" %}}"),
                    false => {
                        let i = *self.rng.pick(&refs);
                        let start = old[..i].rfind('"').unwrap() + 1;
                        format!("{}{name}{}", &old[..start], &old[i + 5..])
                    }
                };
                let target = match self.rng.chance(1, 2) {
                    // Like another one
                    true => {
                        let others: Vec<&Content> =
                            tree.files.iter().filter(|f| f.0.ends_with(".html")).map(|f| f.1).collect();
                        match self.rng.pick(&others) {
                            Content::Text(t) if !t.contains(&name) => t.clone(),
                            _ => "fresh".into(),
                        }
                    }
                    false => format!("F{}", self.rng.below(100)),
                };
                put(tree, format!("{dir}/{name}"), Some(Content::Text(target)));
                put(tree, path, Some(Content::Text(text)));
            }
            2 => {
                let name = path.rsplit('/').next().unwrap();
                let links = tree.files.values().any(|c| matches!(c, Content::Link(_)));
                if tree.files.keys().filter(|k| k.rsplit('/').next() == Some(name)).count() == 1 && !links {
                    removed.push((path.clone(), Content::Text(old)));
                    put(tree, path, None);
                }
            }
            3 if !removed.is_empty() => {
                let (path, content) = removed.pop().unwrap();
                put(tree, path, Some(content));
            }
            4 | 5 => {
                let config: BTreeSet<String> =
                    tree.files.keys().filter(|k| k.ends_with(".toml")).cloned().collect();
                let config: Vec<String> = config.into_iter().collect();
                if config.is_empty() {
                    return;
                }
                let path = self.rng.pick(&config).clone();
                let Content::Text(old) = tree.files[&path].clone() else { return };
                let add = *self.rng.pick(&[
                    "\n# comment\n",
                    "\n[[escaper]]\npath = \"::later::Escaper\"\nextensions = [\"html\"]\n",
                    "\n[[syntax]]\nname = \"later\"\nexpr_start = \"{$\"\n",
                ]);
                let text = match self.rng.below(3) {
                    0 if old.contains("suppress") => old.replace("suppress", "preserve"),
                    0 if old.contains("minimize") => old.replace("minimize", "suppress"),
                    0 if old.contains("preserve") => old.replace("preserve", "minimize"),
                    1 if old.contains("Escaper") => old.replace("Escaper", "Escaper2"),
                    _ if old.contains(add) => old.replace(add, ""),
                    _ => format!("{old}{add}"),
                };
                put(tree, path, Some(Content::Text(text)));
            }
            // Not used by anything
            6 => {
                *fresh += 1;
                put(tree, format!("{PACKAGE}/templates/unused{fresh}.html"), Some(Content::Text("u".into())));
            }
            7 => {
                // Where a link leads to
                let targets: Vec<String> =
                    tree.files.keys().filter(|k| k.starts_with("/simfs/real")).cloned().collect();
                if let Some(path) = targets.first() {
                    let Content::Text(old) = tree.files[path].clone() else { return };
                    let text = self.edit(&old);
                    put(tree, path.clone(), Some(Content::Text(text)));
                }
            }
            _ => put(tree, path, Some(Content::Text(text))),
        }
    }
}
