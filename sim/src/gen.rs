//! Generates template programs from a seed.

use crate::ast::*;
use crate::rng::Rng;
use crate::values::TICK;
use crate::style::{Style, Ws, PLAIN};

#[derive(Clone, Debug)]
pub struct Profile {
    pub expr: u32,
    pub lit: u32,
    pub let_: u32,
    pub decl: u32,
    pub if_: u32,
    pub match_: u32,
    pub for_: u32,
    pub block: u32,
    pub include: u32,
    pub call: u32,
    pub filter_block: u32,
    pub try_: u32,
    pub json: u32,
    /// Percentage of the expressions that have filters
    pub filtered: usize,
    pub eff: u32,
    pub escape: u32,
    pub html: usize,
    /// Percentage of the programs that extend another template
    pub extends: usize,
    pub macros: usize,
    /// Percentage of the programs that render a single block
    pub fragment: usize,
    pub shadow: usize,
    pub budget: (usize, usize),
    /// Percentage of the programs with much text that is never rendered
    pub hint: usize,
}

impl Profile {
    pub fn base() -> Self {
        Profile {
            expr: 30,
            lit: 18,
            let_: 7,
            decl: 3,
            if_: 9,
            match_: 5,
            for_: 9,
            block: 4,
            include: 3,
            call: 4,
            filter_block: 4,
            try_: 2,
            json: 1,
            filtered: 35,
            eff: 3,
            escape: 3,
            html: 65,
            extends: 30,
            macros: 60,
            fragment: 6,
            shadow: 35,
            budget: (12, 45),
            hint: 0,
        }
    }

    pub fn named(name: &str) -> Self {
        let base = Self::base();
        match name {
            "C03" | "C04" => Profile { try_: 6, eff: 6, filtered: 50, ..base },
            "C05" => Profile { hint: 60, ..base },
            "C08" => Profile { html: 88, escape: 12, filtered: 45, ..base },
            "C09" => Profile { filtered: 92, eff: 0, escape: 2, budget: (15, 50), ..base },
            "C10" => Profile { json: 25, ..base },
            "C11" => Profile { for_: 34, include: 1, budget: (15, 55), ..base },
            "C12" => Profile { try_: 4, eff: 10, call: 8, macros: 80, filtered: 45, ..base },
            "C13" => Profile {
                block: 12,
                include: 9,
                call: 10,
                filter_block: 10,
                extends: 65,
                macros: 90,
                fragment: 18,
                ..base
            },
            "C14" => Profile {
                let_: 22,
                decl: 9,
                for_: 12,
                match_: 9,
                call: 8,
                include: 6,
                shadow: 60,
                macros: 80,
                filtered: 15,
                ..base
            },
            _ => base,
        }
    }
}

type Scope = Vec<(String, Kind)>;

#[derive(Clone)]
struct Cx {
    file: usize,
    /// Variables declared by the template from the outermost to the innermost scope
    vars: Vec<Scope>,
    /// Prefix of the names declared here; the variables of macros have names of their own
    owner: String,
    in_loop: bool,
    /// `break` and `continue` are possible
    can_break: bool,
    block_ok: bool,
    super_ok: bool,
    include_depth: usize,
    in_filter: bool,
    depth: usize,
}

struct MacroRef {
    file: usize,
    name: String,
    params: Vec<(String, Kind)>,
}

struct Gen {
    rng: Rng,
    prof: Profile,
    files: Vec<File>,
    site: u32,
    names: usize,
    blocks: usize,
    budget: isize,
    cond_sites: Vec<u32>,
    /// Macros that may be called from the file
    macros: Vec<Vec<(Option<String>, MacroRef)>>,
    dir_names: usize,
    /// Sites that may stand for another expression, too
    recent: Vec<u32>,
}

/// The type of an expression that is matched with patterns
#[derive(Clone, Debug, PartialEq)]
enum Ty {
    En,
    Opt,
    OptEn,
    Num,
    Bool,
    Word,
    Chr,
    Duo,
    /// A `Show`
    Text,
    Tuple(Vec<Ty>),
}

const FIELDS: usize = 4;
const NUMS: usize = 2;
const LISTS: usize = 2;

pub fn generate(seed: u64, profile: &Profile) -> Program {
    let mut g = Gen {
        rng: Rng::new(seed),
        prof: profile.clone(),
        files: Vec::new(),
        site: 0,
        names: 0,
        blocks: 0,
        budget: 0,
        cond_sites: Vec::new(),
        macros: Vec::new(),
        dir_names: 0,
        recent: Vec::new(),
    };
    let budget = g.rng.range(profile.budget.0, profile.budget.1);
    g.budget = budget as isize;
    let html = g.rng.chance(profile.html, 100);
    const HTML: &[&str] = &["html", "html", "html", "html", "htm", "xml", "svg", "j2", "html.j2", "txt.jinja2"];
    const TEXT: &[&str] = &["txt", "txt", "txt", "txt", "md", "none", "yml", "typ"];
    let mut attr = String::new();
    let ext = match g.rng.below(12) {
        0 => {
            // Not what the path suggests
            attr = format!(", escape = \"{}\"", if html { "html" } else { "none" });
            *g.rng.pick(if html { TEXT } else { HTML })
        }
        _ => *g.rng.pick(if html { HTML } else { TEXT }),
    };
    let fragment = g.rng.chance(profile.fragment, 100);
    let mut block = None;

    let main;
    if fragment {
        main = g.fragment(ext);
        block = Some("frag".to_owned());
    } else {
        main = g.chain(ext, "main");
        if g.rng.chance(profile.hint, 100) {
            let mut root = main;
            while let Some((parent, _)) = g.files[root].extends {
                root = parent;
            }
            let node = g.large_hint();
            let body = &mut g.files[root].body;
            let at = g.rng.below(body.len() + 1);
            body.insert(at, node);
        }
    }
    if g.files.len() == 1 && g.rng.chance(1, 40) {
        // Renders nothing, or almost nothing
        g.files[main].body = match g.rng.below(3) {
            0 => vec![],
            1 => vec![Node::Comment(" nothing ".to_owned())],
            _ => vec![Node::Expr(g.text(&g.cx(main), false))],
        };
    }
    let inline = g.files.len() == 1 && g.rng.chance(1, 3);
    if inline {
        let ext = match attr.is_empty() {
            true => *g.rng.pick(if html { HTML } else { TEXT }),
            false => *g.rng.pick(if html { TEXT } else { HTML }),
        };
        attr.push_str(&format!(", ext = {ext:?}"));
    }
    let style = match g.rng.chance(1, 2) {
        true => PLAIN,
        false => Style {
            markers: g.rng.chance(5, 6),
            default: *g.rng.pick(&[Ws::Preserve, Ws::Preserve, Ws::Suppress, Ws::Minimize]),
            other: g.rng.chance(1, 4),
        },
    };
    // See the configuration files of the crate
    let default_other = style.default == Ws::Minimize;
    match style.default {
        Ws::Preserve => {}
        Ws::Suppress => attr.push_str(", config = \"suppress.toml\""),
        Ws::Minimize => attr.push_str(", config = \"minimize.toml\""),
    }
    if style.other != default_other {
        attr.push_str(match style.other {
            true => ", syntax = \"other\"",
            false => ", syntax = \"default\"",
        });
    }
    Program {
        html,
        attr,
        inline,
        style,
        files: g.files,
        main,
        block,
        fields: FIELDS,
        nums: NUMS,
        lists: LISTS,
        cond_sites: g.cond_sites,
        output_only: fragment,
    }
}

/// Parameters of several macros. One of them is also a field.
const SHARED: &[&str] = &["p0", "p1", "f3", "type", "fn"];

/// Names that Rust reserves, but askama does not
const KEYWORDS: &[&str] = &["type", "fn", "use", "dyn", "move", "yield", "where", "override", "abstract", "typeof"];

/// The same for a variable that gets its value later
const KEYWORDS_DECLARED: &[&str] = &["unsized"];

/// A variable that is used only where it was bound, by templates and macros independently
const PRIVATE: &str = "own";

/// Variables are passed by name, and could be captured by a parameter of the macro with this name
/// (see the known findings).
fn uncaptured(arg: Rhs) -> Rhs {
    let shared = |name: &str| SHARED.contains(&name) || KEYWORDS.contains(&name) || KEYWORDS_DECLARED.contains(&name);
    match arg {
        Rhs::Text(E::Var(v)) if shared(&v) => Rhs::Text(E::Filter(Box::new(E::Var(v)), F::Upper)),
        Rhs::Text(E::ItemAttr(v)) if shared(&v) => Rhs::Text(E::Filter(Box::new(E::ItemAttr(v)), F::Upper)),
        Rhs::Text(E::Num(N::Var(v))) | Rhs::Num(N::Var(v)) if shared(&v) => {
            Rhs::Num(N::Bin("+", Box::new(N::Var(v)), Box::new(N::Lit(0))))
        }
        Rhs::Text(E::Bool(B::Var(v))) if shared(&v) => Rhs::Text(E::Bool(same(v))),
        Rhs::Bool(B::Var(v)) if shared(&v) => Rhs::Bool(same(v)),
        arg => arg,
    }
}

fn same(v: String) -> B {
    B::And(Box::new(B::Var(v)), Box::new(B::Lit(true)))
}

impl Gen {
    fn site(&mut self) -> u32 {
        self.site += 1;
        self.site
    }

    /// The site of an expression, or rarely the one of an expression shortly before, so that the
    /// same text occurs again
    fn wsite(&mut self) -> u32 {
        if !self.recent.is_empty() && self.rng.chance(1, 10) {
            let n = self.recent.len();
            return self.recent[n - 1 - self.rng.below(n.min(4))];
        }
        let site = self.site();
        self.recent.push(site);
        site
    }

    fn fresh(&mut self, cx: &Cx) -> String {
        self.names += 1;
        format!("{}{}", cx.owner, self.names)
    }

    fn new_file(&mut self, path: String) -> usize {
        self.files.push(File {
            path,
            extends: None,
            imports: Vec::new(),
            macros: Vec::new(),
            body: Vec::new(),
        });
        self.macros.push(Vec::new());
        self.files.len() - 1
    }

    fn cx(&self, file: usize) -> Cx {
        Cx {
            file,
            vars: vec![Vec::new()],
            owner: "v".to_owned(),
            in_loop: false,
            can_break: false,
            block_ok: false,
            super_ok: false,
            include_depth: 0,
            in_filter: false,
            depth: 0,
        }
    }

    /// How `from` refers to `to`
    fn relative(&self, from: usize, to: usize) -> String {
        let from = &self.files[from].path;
        let to = &self.files[to].path;
        let from: Vec<&str> = from.split('/').collect();
        let to: Vec<&str> = to.split('/').collect();
        let common = from.iter().zip(&to).take_while(|(a, b)| a == b).count().min(from.len() - 1);
        let mut out = "../".repeat(from.len() - 1 - common);
        out.push_str(&to[common..].join("/"));
        out
    }

    /// A path for a new file. The same file name may occur in several directories.
    fn path(&mut self, from: Option<usize>, stem: &str, ext: &str) -> String {
        let dir = match from {
            Some(from) => match self.files[from].path.rsplit_once('/') {
                Some((dir, _)) => format!("{dir}/"),
                None => String::new(),
            },
            None => String::new(),
        };
        self.dir_names += 1;
        // Only the extension of the main template counts
        const EXT: &[&str] = &["html", "txt", "xml", "md", "htm", "jinja", "none", "x"];
        let ext = match from.is_some() && self.rng.chance(1, 4) {
            true => *self.rng.pick(EXT),
            false => ext,
        };
        let candidates = [
            format!("{dir}{stem}.{ext}"),
            format!("{dir}sub/{stem}.{ext}"),
            format!("{stem}.{ext}"),
            format!("{dir}d{}/{stem}.{ext}", self.dir_names),
            format!("{dir}{stem}{}.{ext}", self.dir_names),
        ];
        loop {
            let path = self.rng.pick(&candidates).clone();
            if !self.files.iter().any(|f| f.path == path) {
                return path;
            }
        }
    }

    /// A template with all its ancestors. Returns the most derived file.
    fn chain(&mut self, ext: &str, stem: &str) -> usize {
        let depth = match self.rng.chance(self.prof.extends, 100) {
            true => self.rng.range(1, 3),
            false => 0,
        };
        let path = self.path(None, stem, ext);
        let main = self.new_file(path);
        let mut chain = vec![main];
        for _ in 0..depth {
            let child = *chain.last().unwrap();
            let path = self.path(Some(child), "base", ext);
            let parent = self.new_file(path);
            self.files[child].extends = Some((parent, self.relative(child, parent)));
            chain.push(parent);
        }

        // From the root to the most derived template
        let mut defined: Vec<String> = Vec::new();
        for (i, &file) in chain.iter().rev().enumerate() {
            self.prepare_macros(file, ext);
            let mut cx = self.cx(file);
            if i == 0 {
                cx.block_ok = true;
                if depth > 0 {
                    self.budget = self.budget.max(10);
                }
                let mut body = self.body(&mut cx);
                if depth > 0 {
                    // There has to be something to override
                    for _ in 0..self.rng.range(1, 2) {
                        let node = self.block(&mut cx);
                        let at = self.rng.below(body.len() + 1);
                        body.insert(at, node);
                    }
                }
                collect_blocks(&body, &mut defined);
                self.files[file].body = body;
            } else {
                let mut body = Vec::new();
                let overridable = defined.clone();
                for name in overridable {
                    if !self.rng.chance(60, 100) {
                        continue;
                    }
                    // What is outside of the blocks is not part of the page
                    if self.rng.chance(25, 100) {
                        body.push(self.lit());
                        let e = self.text(&cx, false);
                        body.push(Node::Expr(e));
                    }
                    let mut cx = self.cx(file);
                    cx.block_ok = true;
                    cx.super_ok = true;
                    cx.depth = 1;
                    self.budget = self.budget.max(6);
                    let mut nodes = self.body(&mut cx);
                    if self.rng.chance(45, 100) {
                        let at = self.rng.below(nodes.len() + 1);
                        nodes.insert(at, Node::Super);
                    }
                    // Blocks which are defined inside may be overridden, too
                    collect_blocks(&nodes, &mut defined);
                    body.push(Node::Block(name, nodes));
                }
                self.files[file].body = body;
            }
        }
        main
    }

    /// A template of which only one block is rendered
    fn fragment(&mut self, ext: &str) -> usize {
        let depth = self.rng.below(3);
        let path = self.path(None, "frag", ext);
        let main = self.new_file(path);
        let mut chain = vec![main];
        for _ in 0..depth {
            let child = *chain.last().unwrap();
            let path = self.path(Some(child), "fbase", ext);
            let parent = self.new_file(path);
            self.files[child].extends = Some((parent, self.relative(child, parent)));
            chain.push(parent);
        }
        for (i, &file) in chain.iter().rev().enumerate() {
            self.prepare_macros(file, ext);
            let cx = self.cx(file);
            let mut body = Vec::new();
            if i == 0 {
                body.extend(self.simple(&cx));
                let other = self.simple(&cx);
                body.push(Node::Block("other".to_owned(), other));
                body.extend(self.simple(&cx));
            }
            if i == 0 || self.rng.chance(2, 3) {
                let mut cx = self.cx(file);
                cx.block_ok = true;
                cx.super_ok = i > 0;
                cx.depth = 1;
                self.budget = self.budget.max(12);
                let mut nodes = self.body(&mut cx);
                if i > 0 && self.rng.chance(1, 2) {
                    let at = self.rng.below(nodes.len() + 1);
                    nodes.insert(at, Node::Super);
                }
                let selected = Node::Block("frag".to_owned(), nodes);
                if i == 0 && self.rng.chance(1, 2) {
                    // Inside of another block
                    let mut outer = self.simple(&cx);
                    outer.push(selected);
                    outer.extend(self.simple(&cx));
                    body.push(Node::Block("outer".to_owned(), outer));
                } else {
                    body.push(selected);
                }
            }
            if i == 0 {
                body.extend(self.simple(&cx));
                let last = self.simple(&cx);
                body.push(Node::Block("last".to_owned(), last));
                body.extend(self.simple(&cx));
            }
            self.files[file].body = body;
        }
        main
    }

    fn simple(&mut self, cx: &Cx) -> Vec<Node> {
        let mut out = Vec::new();
        for _ in 0..self.rng.range(1, 3) {
            if self.rng.chance(1, 2) {
                out.push(self.lit());
            } else {
                let e = self.text(cx, false);
                out.push(Node::Expr(e));
            }
        }
        out
    }

    /// Adds macros, and imports of files with macros
    fn prepare_macros(&mut self, file: usize, ext: &str) {
        if !self.rng.chance(self.prof.macros, 100) {
            return;
        }
        for _ in 0..self.rng.weighted(&[4, 4, 1]) {
            let path = self.path(Some(file), "macros", ext);
            let lib = self.new_file(path);
            if self.rng.chance(1, 6) {
                // Uses other macros itself
                self.prepare_macros(lib, ext);
            }
            // The body of an imported template is not part of the page
            let cx = self.cx(lib);
            self.files[lib].body = match self.rng.chance(1, 3) {
                true => self.simple(&cx),
                false => Vec::new(),
            };
            for _ in 0..self.rng.range(1, 2) {
                self.add_macro(lib);
            }
            // Other templates may use the same name for another file.
            let alias = match self.files[file].imports.iter().any(|(a, ..)| a == "lib") {
                false if self.rng.chance(2, 3) => "lib".to_owned(),
                _ => format!("lib{lib}"),
            };
            let path = self.relative(file, lib);
            self.files[file].imports.push((alias.clone(), lib, path));
            let refs: Vec<_> = self.macros[lib]
                .iter()
                .filter(|(scope, _)| scope.is_none())
                .map(|(_, m)| (m.name.clone(), m.params.clone()))
                .collect();
            for (name, params) in refs {
                self.macros[file].push((Some(alias.clone()), MacroRef { file: lib, name, params }));
            }
        }
        for _ in 0..self.rng.below(3) {
            self.add_macro(file);
        }
    }

    fn add_macro(&mut self, file: usize) {
        self.names += 1;
        let id = self.names;
        // Other templates may have a macro with the same name.
        let taken = |name: &str| self.macros[file].iter().any(|(s, m)| s.is_none() && m.name == name);
        let name = match (0..4).map(|i| format!("mac_{i}")).find(|n| !taken(n)) {
            Some(name) if self.rng.chance(2, 3) => name,
            _ => format!("mac{id}"),
        };
        let mut params = Vec::new();
        for i in 0..self.rng.below(4) {
            let kind = match self.rng.below(5) {
                0 => Kind::Num,
                1 => Kind::Bool,
                _ => Kind::Text,
            };
            let name = match self.rng.chance(1, 3) {
                true => self.rng.pick(SHARED).to_string(),
                false => format!("p{id}_{i}"),
            };
            match params.iter().any(|(p, _)| *p == name) {
                true => params.push((format!("p{id}_{i}"), kind)),
                false => params.push((name, kind)),
            }
        }
        let mut cx = self.cx(file);
        cx.owner = format!("q{id}_");
        cx.vars = vec![params.clone()];
        cx.depth = 1;
        let budget = std::mem::replace(&mut self.budget, 7);
        let mut body = self.body(&mut cx);
        self.budget = budget;
        // Parameters are used, often more than once
        for (p, kind) in &params {
            for _ in 0..self.rng.below(3) {
                let node = match kind {
                    Kind::Num => Node::Expr(E::Num(N::Var(p.clone()))),
                    Kind::Bool => Node::If(vec![(Cond::Bool(B::Var(p.clone())), vec![self.lit()])], None),
                    _ => Node::Expr(E::Var(p.clone())),
                };
                // A `let` in the body may shadow the parameter with another type.
                let at = body.iter().position(|n| declares(n, p)).unwrap_or(body.len());
                let at = self.rng.below(at + 1);
                body.insert(at, node);
            }
        }
        self.files[file].macros.push(Macro {
            name: name.clone(),
            params: params.clone(),
            body,
        });
        self.macros[file].push((None, MacroRef { file, name, params }));
    }

    /// Increases the size hint, but not the size of the output
    fn large_hint(&mut self) -> Node {
        let large = |n: usize| Node::Lit("0123456789abcdef".repeat(n / 16));
        let empty_loop = |g: &mut Self, body: Vec<Node>| {
            let id = g.site();
            g.names += 1;
            Node::For(Box::new(For {
                id,
                pat: P::Bind(format!("h{}", g.names)),
                iter: It::Range(N::Lit(0), N::Lit(0), false),
                cond: None,
                body,
                els: None,
            }))
        };
        match self.rng.below(3) {
            0 => Node::If(
                vec![(
                    Cond::Bool(B::Cmp("<", N::Lit(2), N::Lit(1))),
                    vec![large(250_000)],
                )],
                None,
            ),
            1 => empty_loop(self, vec![large(90_000)]),
            _ => {
                let mut node = large(4_000);
                let depth = self.rng.range(12, 45);
                for _ in 0..depth {
                    let text = self.lit();
                    node = empty_loop(self, vec![text, node]);
                }
                node
            }
        }
    }

    fn lit(&mut self) -> Node {
        const WORDS: &[&str] = &[
            "<p>", "</p>", " ", "\n", "  ", "a < b", "&amp;", "\"q\"", "it's", "text", "{ x }", "}", "{", "{}", "100%",
            "# no", "é", "🦀", "\\", "\\n", "-", "|", "lorem ipsum", "\t", "//", "]]>", "{:?}", "$1", "\n\n",
        ];
        let mut s = String::new();
        for _ in 0..self.rng.range(1, 4) {
            s.push_str(self.rng.pick(WORDS));
        }
        // Not to be confused with a delimiter
        let start = if self.rng.chance(1, 2) { "." } else { " " };
        let end = if self.rng.chance(1, 2) { ";" } else { " " };
        let mut s = format!("{start}{s}{end}");
        for delim in ["{{", "{%", "{#"] {
            while let Some(at) = s.find(delim) {
                s.insert(at + 1, ' ');
            }
        }
        Node::Lit(s)
    }

    fn body(&mut self, cx: &mut Cx) -> Vec<Node> {
        let max = if cx.depth == 0 { 40 } else { self.rng.range(1, 6) };
        let mut out = Vec::new();
        while out.len() < max && (self.budget > 0 || out.is_empty()) {
            self.budget -= 1;
            let node = self.node(cx);
            if matches!(&node, Node::Expr(e) if !has_effect(e)) && self.rng.chance(1, 12) {
                // The same once more
                out.push(node.clone());
                if self.rng.chance(1, 2) {
                    out.push(self.lit());
                }
            }
            out.push(node);
            if matches!(out.last(), Some(Node::Break | Node::Continue)) {
                // Sometimes something that is never reached
                if self.rng.chance(1, 3) {
                    out.push(self.lit());
                    let e = self.text(cx, false);
                    out.push(Node::Expr(e));
                }
                break;
            }
        }
        out
    }

    fn scoped(&mut self, cx: &Cx, vars: Scope) -> (Vec<Node>, Cx) {
        let mut inner = cx.clone();
        inner.depth += 1;
        inner.vars.push(vars);
        let body = self.body(&mut inner);
        (body, inner)
    }

    fn node(&mut self, cx: &mut Cx) -> Node {
        let p = &self.prof;
        let deep = cx.depth >= 5;
        let nest = |w: u32| if deep { 0 } else { w };
        let weights = [
            p.expr,
            p.lit,
            p.let_,
            nest(p.decl),
            nest(p.if_),
            nest(p.match_),
            nest(p.for_),
            if cx.block_ok { nest(p.block) } else { 0 },
            if cx.include_depth < 3 { nest(p.include) } else { 0 },
            if self.macros[cx.file].is_empty() { 0 } else { p.call },
            nest(p.filter_block),
            if cx.can_break { 3 } else { 0 },
            1,
            if cx.super_ok { 1 } else { 0 },
        ];
        match self.rng.weighted(&weights) {
            0 => {
                let e = self.text(cx, false);
                Node::Expr(e)
            }
            1 => self.lit(),
            2 => self.let_(cx),
            3 => self.decl(cx),
            4 => self.if_(cx),
            5 => self.match_(cx),
            6 => self.for_(cx),
            7 => self.block(cx),
            8 => self.include(cx),
            9 => self.call(cx),
            10 => self.filter_block(cx),
            11 => match self.rng.chance(1, 2) {
                true => Node::Break,
                false => Node::Continue,
            },
            12 => match self.rng.chance(1, 2) {
                true => Node::Comment(" {{ no }} ' ".to_owned()),
                false => Node::Raw(" {{ raw }} & {% if %} ".to_owned()),
            },
            _ => Node::Super,
        }
    }

    fn visible(&self, cx: &Cx, kind: impl Fn(Kind) -> bool) -> Vec<String> {
        let mut seen: Vec<&str> = Vec::new();
        let mut out = Vec::new();
        for scope in cx.vars.iter().rev() {
            for (name, k) in scope.iter().rev() {
                if seen.contains(&name.as_str()) {
                    continue;
                }
                seen.push(name);
                if kind(*k) {
                    out.push(name.clone());
                }
            }
        }
        out
    }

    /// A name for a new variable: a fresh one, or one that is already in use
    fn declare(&mut self, cx: &Cx) -> String {
        if !cx.in_filter && self.rng.chance(self.prof.shadow, 100) {
            let mut names = self.visible(cx, |_| true);
            // A variable that was declared without a value cannot be shadowed
            names.retain(|n| !n.ends_with('d'));
            // The parameters of a macro may be shadowed only inside of the macro
            if !names.is_empty() {
                return self.rng.pick(&names).clone();
            }
            if cx.owner == "v" && self.rng.chance(1, 2) {
                // Shadows a field. No macro uses this one.
                return "f3".to_owned();
            }
        }
        if self.rng.chance(1, 20) {
            let name = *self.rng.pick(KEYWORDS);
            if !self.visible(cx, |_| true).iter().any(|n| n == name) {
                return name.to_owned();
            }
        }
        self.fresh(cx)
    }

    /// A variable which is used for nothing else
    fn private(&mut self, cx: &Cx) -> Node {
        let mut nodes = self.assign(cx, PRIVATE, false);
        nodes.push(Node::Expr(E::Var(PRIVATE.to_owned())));
        let cond = self.boolean(cx, 0);
        Node::If(vec![(Cond::Bool(B::Or(Box::new(cond), Box::new(B::Lit(true)))), nodes)], None)
    }

    fn let_(&mut self, cx: &mut Cx) -> Node {
        if self.rng.chance(1, 6) {
            return self.private(cx);
        }
        if cx.in_filter {
            // Variables of filter blocks would be visible after the block
            let e = self.text(cx, false);
            return Node::Expr(e);
        }
        match self.rng.below(10) {
            0 | 9 => {
                let (rhs, ty) = match self.rng.below(3) {
                    0 => (S::Pair(self.wsite()), Ty::Tuple(vec![Ty::Text, Ty::Num])),
                    1 => (S::Duo(self.wsite()), Ty::Duo),
                    _ => {
                        let mut list = Vec::new();
                        for _ in 0..self.rng.range(2, 3) {
                            list.push(match self.rng.below(4) {
                                0 => (S::Num(self.num(cx, 1)), Ty::Num),
                                1 => (S::Bool(self.boolean(cx, 1)), Ty::Bool),
                                2 => (S::Word(self.wsite()), Ty::Word),
                                _ => (S::Text(E::Show(self.wsite())), Ty::Text),
                            });
                        }
                        let (list, tys) = list.into_iter().unzip();
                        (S::Tuple(list), Ty::Tuple(tys))
                    }
                };
                let mut scope = Vec::new();
                // `let` does not support `_`
                let pat = self.destructure(cx, &ty, &mut scope, false);
                cx.vars.last_mut().unwrap().extend(scope);
                Node::LetPat(pat, rhs)
            }
            1 | 2 => {
                let n = self.num(cx, 2);
                let name = self.declare(cx);
                cx.vars.last_mut().unwrap().push((name.clone(), Kind::Num));
                Node::Let(name, Rhs::Num(n))
            }
            3 => {
                let b = self.boolean(cx, 2);
                let name = self.declare(cx);
                cx.vars.last_mut().unwrap().push((name.clone(), Kind::Bool));
                Node::Let(name, Rhs::Bool(b))
            }
            _ => {
                let (e, kind) = self.bound_text(cx);
                let name = self.declare(cx);
                cx.vars.last_mut().unwrap().push((name.clone(), kind));
                Node::Let(name, Rhs::Text(e))
            }
        }
    }

    /// A text that outlives its expression
    fn bound_text(&mut self, cx: &Cx) -> (E, Kind) {
        let base = match self.rng.below(6) {
            0 => E::Field(self.rng.below(FIELDS - 1)),
            1 => match self.visible(cx, |k| k == Kind::Show) {
                v if v.is_empty() => E::Show(self.wsite()),
                v => E::Var(self.rng.pick(&v).clone()),
            },
            2 if self.prof.try_ > 0 => E::TryShow(self.wsite()),
            3 => match self.visible(cx, |k| k == Kind::Item) {
                v if v.is_empty() => E::Show(self.wsite()),
                v => {
                    let v = self.rng.pick(&v).clone();
                    E::ItemShow(v, self.site())
                }
            },
            4 if self.rng.chance(1, 4) => return (E::Word(self.wsite()), Kind::Text),
            5 if self.rng.chance(1, 4) => E::Group(Box::new(E::Show(self.wsite()))),
            _ => E::Show(self.wsite()),
        };
        if self.rng.chance(self.prof.filtered / 2, 100) {
            // The result of most filters borrows from the value
            let f = match &base {
                E::Field(_) | E::Var(_) => self.eager_filter(),
                _ => match self.rng.below(4) {
                    0 => F::Title,
                    1 => F::Wordcount,
                    2 if self.prof.eff > 0 => F::Eff(self.site()),
                    _ => F::Fmt("[".to_owned(), "]<".to_owned()),
                },
            };
            let kind = Kind::Text;
            return (E::Filter(Box::new(base), f), kind);
        }
        (base, Kind::Show)
    }

    /// A variable that is declared first, and gets its value in a branch
    fn decl(&mut self, cx: &mut Cx) -> Node {
        if cx.in_filter {
            return self.lit();
        }
        // Yields several nodes, wrapped into an `if` so that the declaration stays private
        let mut name = self.fresh(cx) + "d";
        if self.rng.chance(1, 6) {
            let keyword = *self.rng.pick(KEYWORDS_DECLARED);
            if !self.visible(cx, |_| true).iter().any(|n| n == keyword) {
                name = keyword.to_owned();
            }
        }
        // Others use the same name at a time when the variable has no value yet
        let private = self.rng.chance(1, 4);
        if private {
            name = PRIVATE.to_owned();
        }
        let num = !private && self.rng.chance(1, 3);
        let kind = if num { Kind::Num } else { Kind::Show };
        let (cond, vars) = self.cond(cx);
        let mut nodes = vec![Node::Decl(name.clone())];
        let mut inner = cx.clone();
        inner.depth += 2;
        inner.vars.push(vars);
        if self.rng.chance(1, 2) {
            nodes.push(self.lit());
        }
        if private {
            let mut inner = cx.clone();
            inner.depth += 2;
            inner.vars.push(Vec::new());
            if !self.macros[cx.file].is_empty() && self.rng.chance(2, 3) {
                nodes.push(self.call(&mut inner));
            }
            if cx.include_depth < 3 && cx.depth < 5 && self.rng.chance(1, 2) {
                nodes.push(self.include(&mut inner));
            }
        }
        let branches = self.rng.range(1, 2);
        let mut all = Vec::new();
        for i in 0..branches {
            let (cond, inner) = match i {
                0 => (cond.clone(), inner.clone()),
                _ => {
                    let mut inner = cx.clone();
                    inner.depth += 2;
                    inner.vars.push(Vec::new());
                    (Cond::Bool(self.boolean(cx, 1)), inner)
                }
            };
            let body = self.assign(&inner, &name, num);
            all.push((cond, body));
        }
        let mut inner = cx.clone();
        inner.depth += 2;
        inner.vars.push(Vec::new());
        let els = self.assign(&inner, &name, num);
        nodes.push(Node::If(all, Some(els)));
        if private {
            nodes.push(Node::Expr(E::Var(name)));
        } else {
            let mut after = cx.clone();
            after.depth += 1;
            after.vars.push(vec![(name, kind)]);
            nodes.extend(self.body(&mut after));
        }
        let outer = self.boolean(cx, 0);
        Node::If(vec![(Cond::Bool(B::Or(Box::new(outer), Box::new(B::Lit(true)))), nodes)], None)
    }

    fn assign(&mut self, cx: &Cx, name: &str, num: bool) -> Vec<Node> {
        let mut out = Vec::new();
        if self.rng.chance(1, 2) {
            let e = self.text(cx, false);
            out.push(Node::Expr(e));
        }
        let rhs = match num {
            true => Rhs::Num(self.num(cx, 1)),
            false => {
                let site = self.wsite();
                match self.rng.below(3) {
                    0 if self.rng.chance(1, 3) => Rhs::Text(E::Field(SELF + self.rng.below(FIELDS))),
                    0 => Rhs::Text(E::Field(self.rng.below(FIELDS - 1))),
                    1 if self.prof.try_ > 0 => Rhs::Text(E::TryShow(site)),
                    _ => Rhs::Text(E::Show(site)),
                }
            }
        };
        out.push(Node::Let(name.to_owned(), rhs));
        if self.rng.chance(1, 3) {
            out.push(self.lit());
        }
        out
    }

    /// A condition, and the variables it binds
    fn cond(&mut self, cx: &Cx) -> (Cond, Scope) {
        let free = cx.owner == "v" && !cx.in_filter && !self.visible(cx, |_| true).iter().any(|n| n == "f3");
        if free && self.rng.chance(self.prof.shadow, 800) {
            // The variable is not in effect in its own value
            let pat = P::Bind("f3".to_owned());
            return (Cond::Let(pat, S::Text(E::Field(3))), vec![("f3".to_owned(), Kind::Show)]);
        }
        let (scrut, ty) = match self.rng.below(8) {
            0 => (S::Opt(self.wsite()), Ty::Opt),
            1 if self.prof.try_ > 0 => (S::TryOpt(self.wsite()), Ty::Opt),
            2 => self.scrutinee(cx, 1),
            _ => return (Cond::Bool(self.boolean(cx, 2)), Vec::new()),
        };
        let mut scope = Vec::new();
        let pat = match ty {
            Ty::Opt => P::Some(Box::new(P::Bind(self.bind(cx, &mut scope, Kind::Text))), false),
            ty => self.pattern(cx, &ty, &mut scope, true, 0),
        };
        (Cond::Let(pat, scrut), scope)
    }

    fn bind(&mut self, cx: &Cx, scope: &mut Scope, kind: Kind) -> String {
        let mut name = self.declare(cx);
        if scope.iter().any(|(n, _)| *n == name) {
            name = self.fresh(cx);
        }
        scope.push((name.clone(), kind));
        name
    }

    /// A pattern that always matches and binds the parts of a value, maybe with `_`
    fn destructure(&mut self, cx: &Cx, ty: &Ty, scope: &mut Scope, wild: bool) -> P {
        let kind = match ty {
            Ty::Text => Kind::Show,
            Ty::Num => Kind::Num,
            Ty::Bool => Kind::Bool,
            Ty::Word | Ty::Chr => Kind::Text,
            Ty::Duo => return self.fields(cx, &[Ty::Text, Ty::Num], scope, |list, with| P::Duo(list, with), Err(wild)),
            Ty::Tuple(list) => return P::Tuple(list.iter().map(|ty| self.destructure(cx, ty, scope, wild)).collect()),
            _ => unreachable!(),
        };
        match self.rng.chance(1, 10) && wild {
            true => P::Wild,
            false => {
                let p = P::Bind(self.bind(cx, scope, kind));
                match self.rng.chance(1, 12) {
                    true => P::Group(Box::new(p)),
                    false => p,
                }
            }
        }
    }

    /// The pattern of a struct with the fields `x` and `n`
    fn fields(
        &mut self,
        cx: &Cx,
        tys: &[Ty],
        scope: &mut Scope,
        make: impl Fn(Vec<(&'static str, Option<P>)>, bool) -> P,
        by_ref: Result<usize, bool>,
    ) -> P {
        let mut list: Vec<(&'static str, Option<P>)> = Vec::new();
        for (name, ty) in ["x", "n"].into_iter().zip(tys) {
            let free = !scope.iter().any(|(n, _)| n == name);
            let p = if cx.owner == "v" && free && self.rng.chance(1, 2) {
                // Named like the field
                scope.push((
                    name.to_owned(),
                    match ty {
                        _ if by_ref.is_ok() => Kind::Text,
                        Ty::Num => Kind::Num,
                        _ => Kind::Show,
                    },
                ));
                None
            } else {
                Some(match by_ref {
                    Ok(depth) => self.pattern(cx, ty, scope, true, depth + 1),
                    Err(wild) => self.destructure(cx, ty, scope, wild),
                })
            };
            list.push((name, p));
        }
        if self.rng.chance(1, 3) {
            list.reverse();
        }
        let with = self.rng.chance(1, 2);
        make(list, with)
    }

    /// A pattern for a reference to a value
    fn pattern(&mut self, cx: &Cx, ty: &Ty, scope: &mut Scope, binds: bool, depth: usize) -> P {
        let displayed = !matches!(ty, Ty::En | Ty::Opt | Ty::OptEn | Ty::Duo | Ty::Tuple(_));
        if depth > 0 && self.rng.chance(1, 6) {
            return P::Wild;
        }
        if displayed && binds && (*ty == Ty::Text || depth > 0 && self.rng.chance(1, 2)) {
            return P::Bind(self.bind(cx, scope, Kind::Text));
        }
        if !binds && *ty == Ty::Text {
            return P::Wild;
        }
        if self.rng.chance(1, 14) {
            return P::Group(Box::new(self.pattern(cx, ty, scope, binds, depth)));
        }
        // The alternatives of `or` bind nothing
        if self.rng.chance(1, 7) && !matches!(ty, Ty::Bool | Ty::Duo | Ty::Tuple(_)) {
            let mut list = Vec::new();
            for _ in 0..self.rng.range(2, 3) {
                list.push(match (ty, self.rng.below(3)) {
                    (Ty::En, 0) => P::A,
                    (Ty::En, 1) => P::D,
                    (Ty::En, _) => P::B(Box::new(P::Wild), self.rng.chance(1, 2)),
                    (Ty::Num, _) => P::Num(self.rng.below(5) as u32),
                    (Ty::Word, _) => P::Word(self.rng.below(WORDS.len())),
                    (Ty::Chr, _) => P::Chr(self.rng.below(CHARS.len())),
                    (Ty::OptEn, 0) => P::Some(Box::new(P::A), self.rng.chance(1, 2)),
                    (_, 1) => P::None,
                    _ => P::Some(Box::new(P::Wild), false),
                });
            }
            let or = P::Or(list);
            // `or` of a part is put into parentheses by the parts around it.
            return if depth > 0 && self.rng.chance(1, 2) { P::Group(Box::new(or)) } else { or };
        }
        let with = self.rng.chance(1, 2);
        match ty {
            Ty::En => match self.rng.below(4) {
                0 => P::A,
                1 => P::D,
                2 => P::B(Box::new(self.pattern(cx, &Ty::Text, scope, binds, depth + 1)), with),
                _ if !binds => P::C(vec![("n", Some(P::Wild)), ("x", Some(P::Wild))], with),
                _ => self.fields(cx, &[Ty::Text, Ty::Num], scope, |list, with| P::C(list, with), Ok(depth)),
            },
            Ty::Opt | Ty::OptEn => match self.rng.chance(2, 3) {
                true => {
                    let inner = if *ty == Ty::Opt { Ty::Text } else { Ty::En };
                    P::Some(Box::new(self.pattern(cx, &inner, scope, binds, depth + 1)), with)
                }
                false => P::None,
            },
            Ty::Num => P::Num(self.rng.below(4) as u32),
            Ty::Bool => P::Bool(self.rng.chance(1, 2)),
            Ty::Word => P::Word(self.rng.below(WORDS.len())),
            Ty::Chr => P::Chr(self.rng.below(CHARS.len())),
            Ty::Duo if !binds => P::Wild,
            Ty::Duo => self.fields(cx, &[Ty::Text, Ty::Num], scope, |list, with| P::Duo(list, with), Ok(depth)),
            Ty::Tuple(tys) => {
                P::Tuple(tys.iter().map(|ty| self.pattern(cx, ty, scope, binds, depth + 1)).collect())
            }
            Ty::Text => unreachable!(),
        }
    }

    /// An expression to be matched
    fn scrutinee(&mut self, cx: &Cx, depth: usize) -> (S, Ty) {
        let items = self.visible(cx, |k| k == Kind::Item);
        match self.rng.below(if depth > 0 { 14 } else { 12 }) {
            0 => (S::Opt(self.wsite()), Ty::Opt),
            1 if self.prof.try_ > 0 => (S::TryOpt(self.wsite()), Ty::Opt),
            2 => (S::OptEn(self.wsite()), Ty::OptEn),
            3 => (S::Num(self.num(cx, 1)), Ty::Num),
            4 => (S::Bool(self.boolean(cx, 1)), Ty::Bool),
            5 => (S::Word(self.wsite()), Ty::Word),
            6 => (S::Chr(self.wsite()), Ty::Chr),
            7 => (S::Duo(self.wsite()), Ty::Duo),
            8 if !items.is_empty() => (S::Item(self.rng.pick(&items).clone(), self.site()), Ty::En),
            9 if self.prof.try_ > 0 => (S::TryEn(self.wsite()), Ty::En),
            12 => (S::Pair(self.wsite()), Ty::Tuple(vec![Ty::Text, Ty::Num])),
            13 => {
                let (list, tys) = (0..self.rng.range(2, 3)).map(|_| self.scrutinee(cx, 0)).unzip();
                (S::Tuple(list), Ty::Tuple(tys))
            }
            _ => (S::En(self.wsite()), Ty::En),
        }
    }

    fn if_(&mut self, cx: &Cx) -> Node {
        let mut branches = Vec::new();
        for _ in 0..self.rng.weighted(&[0, 5, 3, 2]) {
            let (cond, vars) = self.cond(cx);
            let (body, _) = self.scoped(cx, vars);
            branches.push((cond, body));
        }
        let els = match self.rng.chance(1, 2) {
            true => Some(self.scoped(cx, Vec::new()).0),
            false => None,
        };
        Node::If(branches, els)
    }

    fn match_(&mut self, cx: &Cx) -> Node {
        let (scrut, ty) = self.scrutinee(cx, 1);
        let mut arms: Vec<(Option<P>, Scope)> = Vec::new();
        for _ in 0..self.rng.range(1, 4) {
            let mut scope = Vec::new();
            let pat = self.pattern(cx, &ty, &mut scope, true, 0);
            arms.push((Some(pat), scope));
        }
        // Something has to match
        let mut scope = Vec::new();
        match (&ty, self.rng.below(3)) {
            (Ty::Opt, 0 | 1) => {
                let v = P::Bind(self.bind(cx, &mut scope, Kind::Text));
                arms.push((Some(P::Some(Box::new(v), false)), scope));
                arms.push((Some(P::None), Vec::new()));
            }
            (Ty::Num | Ty::Word | Ty::Chr | Ty::Bool, 0) => {
                let v = P::Bind(self.bind(cx, &mut scope, Kind::Text));
                arms.push((Some(v), scope));
            }
            (_, 0) => arms.push((Some(P::Wild), scope)),
            _ => arms.push((None, scope)),
        }
        let arms = arms
            .into_iter()
            .map(|(pat, vars)| {
                let (body, _) = self.scoped(cx, vars);
                (pat, body)
            })
            .collect();
        Node::Match(scrut, arms)
    }

    fn for_(&mut self, cx: &Cx) -> Node {
        let id = self.site();
        let items = self.visible(cx, |k| k == Kind::Item);
        let mut scope = Scope::new();
        let mut name = |g: &mut Self, kind| P::Bind(g.bind(cx, &mut scope, kind));
        let (iter, pat) = match self.rng.below(16) {
            0 => (It::List(self.rng.below(LISTS) + SELF * self.rng.below(2)), name(self, Kind::Text)),
            1 => {
                // Always small
                let n = match self.rng.below(3) {
                    0 => N::Field(self.rng.below(NUMS)),
                    1 => N::Bin("+", Box::new(N::Call(self.wsite())), Box::new(N::Lit(1))),
                    _ => N::Call(self.wsite()),
                };
                let from = match self.rng.below(4) {
                    0 => N::Lit(1),
                    1 => N::Call(self.wsite()),
                    _ => N::Lit(0),
                };
                (It::Range(from, n, self.rng.chance(1, 4)), name(self, Kind::Num))
            }
            2 => {
                // Only constants live long enough
                let list = (0..self.rng.range(1, 3)).map(|_| E::Str(self.string())).collect();
                (It::Array(list), name(self, Kind::Text))
            }
            3 | 4 => {
                let (a, b) = (name(self, Kind::Show), name(self, Kind::Item));
                (It::Pairs(id), P::Tuple(vec![a, b]))
            }
            5 if self.prof.try_ > 0 => (It::TryItems(id), name(self, Kind::Item)),
            6 | 7 if !items.is_empty() => {
                let v = self.rng.pick(&items).clone();
                (It::ItemItems(v, id), name(self, Kind::Item))
            }
            8 => (It::Duos(id), self.destructure(cx, &Ty::Duo, &mut scope, true)),
            9 => {
                // The index is no `u32`
                let (a, b) = (name(self, Kind::Text), name(self, Kind::Item));
                (It::Enumerate(id), P::Tuple(vec![a, b]))
            }
            _ => (It::Items(id), name(self, Kind::Item)),
        };
        let declared = pat;
        let pat = scope;
        let item = pat.iter().find(|(_, k)| *k == Kind::Item).map(|(n, _)| n.clone());
        let cond = match &item {
            Some(item) if self.rng.chance(35, 100) => {
                let mut b = self.item_cond(cx, &pat, item);
                if self.rng.chance(1, 3) {
                    let c = self.item_cond(cx, &pat, item);
                    b = match self.rng.chance(1, 2) {
                        true => B::And(Box::new(b), Box::new(c)),
                        false => B::Or(Box::new(b), Box::new(c)),
                    };
                }
                Some(b)
            }
            _ => None,
        };
        let mut inner = cx.clone();
        inner.depth += 1;
        inner.in_loop = true;
        inner.can_break = true;
        inner.vars.push(pat.clone());
        let mut body = Vec::new();
        if let (Some(item), true) = (&item, self.rng.chance(2, 3)) {
            let site = self.site();
            body.push(Node::Expr(E::ItemShow(item.clone(), site)));
        }
        if self.rng.chance(1, 2) {
            body.push(match self.rng.below(4) {
                0 => Node::Expr(E::LoopIndex),
                1 => Node::Expr(E::LoopIndex0),
                2 => Node::If(vec![(Cond::Bool(B::First), vec![self.lit()])], None),
                _ => Node::If(vec![(Cond::Bool(B::Last), vec![self.lit()])], None),
            });
        }
        body.extend(self.body(&mut inner));
        if self.rng.chance(1, 5) {
            // Leaves the loop at some point. The item may be shadowed here.
            let items = self.visible(&inner, |k| k == Kind::Item);
            let cond = match &item {
                Some(item) if items.contains(item) => B::Item(item.clone(), self.site()),
                _ => B::Call(self.wsite()),
            };
            let what = if self.rng.chance(1, 2) { Node::Break } else { Node::Continue };
            body.push(Node::If(vec![(Cond::Bool(cond), vec![self.lit(), what])], None));
            body.push(self.lit());
        }
        let els = match self.rng.chance(2, 5) {
            true => {
                let mut e = cx.clone();
                e.depth += 1;
                e.vars.push(Vec::new());
                // `loop` and the item do not exist in the else branch
                e.in_loop = false;
                e.can_break = false;
                Some(self.body(&mut e))
            }
            false => None,
        };
        Node::For(Box::new(For {
            id,
            pat: declared,
            iter,
            cond,
            body,
            els,
        }))
    }

    fn item_cond(&mut self, cx: &Cx, pat: &Scope, item: &str) -> B {
        let mut vars = self.visible(cx, |k| k == Kind::Bool);
        vars.retain(|v| !pat.iter().any(|(name, _)| name == v));
        if !vars.is_empty() && self.rng.chance(1, 5) {
            return B::Var(self.rng.pick(&vars).clone());
        }
        let site = self.site();
        self.cond_sites.push(site);
        let b = B::Item(item.to_owned(), site);
        match self.rng.below(4) {
            0 => B::Not(Box::new(b)),
            1 => {
                let site = self.site();
                self.cond_sites.push(site);
                let right = match self.rng.chance(1, 3) {
                    true => N::Field(self.rng.below(NUMS)),
                    false => N::Lit(3),
                };
                B::Cmp(*self.rng.pick(&["<", "!=", ">="]), N::Item(item.to_owned(), site), right)
            }
            _ => b,
        }
    }

    fn block(&mut self, cx: &mut Cx) -> Node {
        self.blocks += 1;
        let name = format!("b{}", self.blocks);
        // Blocks do not see the variables around them
        let mut inner = self.cx(cx.file);
        inner.block_ok = true;
        inner.depth = cx.depth + 1;
        inner.include_depth = cx.include_depth;
        let body = self.body(&mut inner);
        Node::Block(name, body)
    }

    fn include(&mut self, cx: &mut Cx) -> Node {
        let ext = self.files[cx.file].path.rsplit_once('.').unwrap().1.to_owned();
        // The ancestors are not aware of a variable that shadows a field
        let plain = !self.visible(cx, |_| true).iter().any(|n| n == "f3");
        if plain && self.rng.chance(1, 8) && cx.owner == "v" && cx.include_depth == 0 {
            // A template with ancestors of its own
            let budget = std::mem::replace(&mut self.budget, 8);
            let extends = std::mem::replace(&mut self.prof.extends, 100);
            let file = self.chain(&ext, "incmain");
            self.prof.extends = extends;
            self.budget = budget;
            return Node::Include(file, self.relative(cx.file, file));
        }
        let path = self.path(Some(cx.file), "inc", &ext);
        let file = self.new_file(path);
        if self.rng.chance(1, 4) && cx.owner == "v" {
            self.prepare_macros(file, &ext);
        }
        let mut inner = cx.clone();
        inner.file = file;
        inner.include_depth += 1;
        inner.depth += 1;
        inner.vars.push(Vec::new());
        inner.super_ok = false;
        inner.can_break = false;
        inner.block_ok = cx.owner == "v";
        let body = self.body(&mut inner);
        self.files[file].body = body;
        Node::Include(file, self.relative(cx.file, file))
    }

    fn call(&mut self, cx: &mut Cx) -> Node {
        let n = self.macros[cx.file].len();
        let i = self.rng.below(n);
        let (alias, mref) = &self.macros[cx.file][i];
        let (alias, file, name, params) = (alias.clone(), mref.file, mref.name.clone(), mref.params.clone());
        let mut args = Vec::new();
        let mut named = false;
        for (p, kind) in params {
            named |= self.rng.chance(1, 6);
            let arg = match kind {
                Kind::Num => Rhs::Num(self.num(cx, 1)),
                Kind::Bool => Rhs::Bool(self.boolean(cx, 1)),
                _ => {
                    // Named arguments are moved
                    let vars = self.visible(cx, |k| k == Kind::Show || k == Kind::Text && !named);
                    let items = self.visible(cx, |k| k == Kind::Item);
                    Rhs::Text(match self.rng.below(8) {
                        0 | 1 if !vars.is_empty() => E::Var(self.rng.pick(&vars).clone()),
                        2 if !items.is_empty() => E::ItemAttr(self.rng.pick(&items).clone()),
                        3 if cx.in_loop => match self.rng.chance(1, 2) {
                            true => E::LoopIndex,
                            false => E::LoopIndex0,
                        },
                        4 => E::Str(self.string()),
                        5 if self.rng.chance(1, 3) => E::Field(SELF + self.rng.below(FIELDS)),
                        5 => E::Field(self.rng.below(FIELDS - 1)),
                        6 => match self.rng.below(3) {
                            0 => E::Bool(self.boolean(cx, 1)),
                            1 => E::Int(self.wsite(), None),
                            _ => E::Char(self.rng.below(CHARS.len())),
                        },
                        _ => self.bound_text(cx).0,
                    })
                }
            };
            args.push((named.then_some(p), uncaptured(arg)));
        }
        Node::Call {
            scope: alias.map(|a| (a, file)),
            name,
            args,
        }
    }

    fn filter_block(&mut self, cx: &Cx) -> Node {
        let mut filters = Vec::new();
        for _ in 0..self.rng.range(1, 2) {
            filters.push(self.filter());
        }
        if self.rng.chance(1, 5) {
            filters.push(F::Safe);
        }
        let mut inner = cx.clone();
        inner.depth += 1;
        inner.in_filter = true;
        // Leaving the loop would discard the content
        inner.can_break = false;
        inner.vars.push(Vec::new());
        let body = self.body(&mut inner);
        Node::Filter(filters, body)
    }

    fn string(&mut self) -> String {
        const WORDS: &[&str] = &["a", "<i>", "&", "it's", "é", " ", "x y", "ß", "%", "Hello", ""];
        let mut s = String::new();
        for _ in 0..self.rng.range(1, 3) {
            s.push_str(self.rng.pick(WORDS));
        }
        s
    }

    fn filter(&mut self) -> F {
        let (p_eff, p_esc) = (self.prof.eff, self.prof.escape);
        match self.rng.weighted(&[24, 10, p_eff * 2, p_eff, p_esc]) {
            0 => self.eager_filter(),
            1 => match self.rng.below(7) {
                4 => F::TruncateAt(self.wsite()),
                5 => F::CenterAt(self.wsite()),
                6 => F::AsRef,
                0 | 1 => F::Truncate(self.rng.below(12)),
                2 => F::Center(self.rng.below(24)),
                _ => match self.rng.chance(1, 2) {
                    true => F::Urlencode,
                    false => F::UrlencodeStrict,
                },
            },
            2 => F::Eff(self.site()),
            3 => F::EffLazy(self.site()),
            _ => match self.rng.below(5) {
                0 => F::Escape(None),
                1 => F::Escape(Some(true)),
                2 => F::Escape(Some(false)),
                _ => F::Safe,
            },
        }
    }

    fn eager_filter(&mut self) -> F {
        match self.rng.below(14) {
            0 if self.rng.chance(1, 3) => F::Uppercase,
            1 if self.rng.chance(1, 3) => F::Lowercase,
            0 => F::Upper,
            1 => F::Lower,
            12 => F::IndentAt(self.wsite()),
            2 => F::Capitalize,
            3 => F::Title,
            4 => F::Trim,
            5 => F::Indent(self.rng.below(6)),
            6 => F::Wordcount,
            7 => F::Linebreaks,
            8 => F::LinebreaksBr,
            9 => F::Paragraphbreaks,
            10 if self.prof.eff > 0 => F::Eff(self.site()),
            11 => F::Fmt("[".to_owned(), "]<".to_owned()),
            _ => F::Trim,
        }
    }

    /// An expression to be displayed
    fn text(&mut self, cx: &Cx, nested: bool) -> E {
        let base = self.text_base(cx, nested);
        if nested || !self.rng.chance(self.prof.filtered, 100) {
            return base;
        }
        let mut e = base;
        let max = self.rng.weighted(&[0, 5, 3, 2]);
        for _ in 0..max {
            let f = self.filter();
            e = E::Filter(Box::new(e), f);
        }
        e
    }

    fn text_base(&mut self, cx: &Cx, nested: bool) -> E {
        let vars = self.visible(cx, |k| matches!(k, Kind::Text | Kind::Show));
        let nums = self.visible(cx, |k| k == Kind::Num);
        let items = self.visible(cx, |k| k == Kind::Item);
        let w = [
            12,
            self.prof.try_,
            2,
            5,
            if vars.is_empty() { 0 } else { 10 },
            if nums.is_empty() { 2 } else { 4 },
            2,
            if items.is_empty() { 0 } else { 8 },
            if items.is_empty() { 0 } else { self.prof.try_ },
            if items.is_empty() { 0 } else { 3 },
            if cx.in_loop { 3 } else { 0 },
            if cx.in_loop { 2 } else { 0 },
            if nested { 0 } else { 2 },
            if nested { 0 } else { 2 },
            if nested { 0 } else { 2 },
            if nested { 0 } else { self.prof.json },
            4,
        ];
        match self.rng.weighted(&w) {
            0 if self.rng.chance(1, 10) => E::Show(TICK + self.rng.below(3) as u32),
            0 => E::Show(self.wsite()),
            1 => E::TryShow(self.wsite()),
            2 if !nested => E::Once(self.wsite()),
            2 => E::Show(self.wsite()),
            3 if self.rng.chance(1, 4) => E::Field(SELF + self.rng.below(FIELDS)),
            3 => match cx.owner == "v" {
                true => {
                    let shadowed = !self.visible(cx, |_| true).iter().all(|n| n != "f3");
                    E::Field(self.rng.below(if shadowed { FIELDS - 1 } else { FIELDS }))
                }
                false => E::Field(self.rng.below(FIELDS - 1)),
            },
            4 => E::Var(self.rng.pick(&vars).clone()),
            5 => E::Num(self.num(cx, 1)),
            6 => E::Str(self.string()),
            7 => E::ItemShow(self.rng.pick(&items).clone(), self.site()),
            8 => E::ItemTry(self.rng.pick(&items).clone(), self.site()),
            9 => E::ItemAttr(self.rng.pick(&items).clone()),
            10 => match self.rng.chance(1, 2) {
                true => E::LoopIndex,
                false => E::LoopIndex0,
            },
            11 => {
                let n = self.rng.range(1, 6);
                match self.rng.chance(1, 2) {
                    true => E::Cycle((0..n).map(|_| E::Str(self.string())).collect()),
                    false => E::Cycle((0..n).map(|i| E::Field(i % (FIELDS - 1))).collect()),
                }
            }
            12 => {
                let site = self.wsite();
                let sep = match self.rng.chance(2, 3) {
                    true => E::Str(self.string()),
                    false => E::Field(self.rng.below(FIELDS - 1)),
                };
                E::Join(site, Box::new(sep))
            }
            13 => {
                let list = self.rng.below(LISTS);
                let sep = E::Str(self.string());
                E::JoinField(list, Box::new(sep))
            }
            14 => {
                let n = self.rng.range(1, 3);
                let args: Vec<E> = (0..n).map(|_| self.text(cx, true)).collect();
                let mut parts = vec!["(".to_owned()];
                for _ in 1..n {
                    parts.push(" & ".to_owned());
                }
                parts.push(")".to_owned());
                E::Format(parts, args)
            }
            15 => E::Json(self.wsite()),
            _ => match self.rng.below(8) {
                0 => E::Bool(self.boolean(cx, 1)),
                1 => E::Int(self.wsite(), self.rng.chance(1, 2).then_some("abs")),
                2 if self.rng.chance(1, 4) => E::Filesize(self.wsite()),
                2 => {
                    let filter = if self.rng.chance(1, 2) { "into_f64" } else { "into_isize" };
                    match self.rng.chance(1, 2) {
                        true => E::NumFilter(self.wsite(), filter),
                        false => E::Amount(self.wsite(), filter),
                    }
                }
                3 => E::Char(self.rng.below(CHARS.len())),
                4 => E::Word(self.wsite()),
                5 => {
                    let n = self.rng.range(1, 3);
                    E::Index(self.wsite(), (0..n).map(|_| self.rng.below(WORDS.len())).collect())
                }
                6 => E::Group(Box::new(self.text_base(cx, true))),
                _ => E::Part(self.wsite(), self.rng.chance(2, 3)),
            },
        }
    }

    fn num(&mut self, cx: &Cx, depth: usize) -> N {
        let vars = self.visible(cx, |k| k == Kind::Num);
        let items = self.visible(cx, |k| k == Kind::Item);
        let w = [
            2,
            5,
            self.prof.try_,
            if vars.is_empty() { 0 } else { 6 },
            if items.is_empty() { 0 } else { 3 },
            3,
            if depth > 0 { 2 } else { 0 },
            if depth > 0 { 1 } else { 0 },
        ];
        match self.rng.weighted(&w) {
            0 => N::Lit(self.rng.below(4) as u32),
            1 => N::Call(self.wsite()),
            2 => N::TryCall(self.wsite()),
            3 => N::Var(self.rng.pick(&vars).clone()),
            4 => N::Item(self.rng.pick(&items).clone(), self.site()),
            5 => N::Field(self.rng.below(NUMS) + SELF * (self.rng.below(3) / 2)),
            // Never gets large
            6 => {
                let op = *self.rng.pick(&["+", "+", "+", "%", "/", ">>", "&", "|", "^"]);
                let right = match op {
                    "%" | "/" => N::Lit(self.rng.range(1, 3) as u32),
                    ">>" => N::Lit(self.rng.below(3) as u32),
                    "&" | "|" | "^" => self.num(cx, depth - 1),
                    _ => match self.rng.chance(1, 2) {
                        true => N::Call(self.wsite()),
                        false => N::Lit(self.rng.below(3) as u32),
                    },
                };
                N::Bin(op, Box::new(self.num(cx, depth - 1)), Box::new(right))
            }
            _ => {
                let op = *self.rng.pick(&["*", "*", "<<"]);
                N::Bin(op, Box::new(N::Call(self.wsite())), Box::new(N::Lit(self.rng.below(3) as u32)))
            }
        }
    }

    fn boolean(&mut self, cx: &Cx, depth: usize) -> B {
        let vars = self.visible(cx, |k| k == Kind::Bool);
        let items = self.visible(cx, |k| k == Kind::Item);
        let w = [
            8,
            self.prof.try_,
            if vars.is_empty() { 0 } else { 5 },
            if items.is_empty() { 0 } else { 4 },
            if cx.in_loop { 3 } else { 0 },
            if depth > 0 { 2 } else { 0 },
            if depth > 0 { 3 } else { 0 },
            if depth > 0 { 3 } else { 0 },
            if depth > 0 { 3 } else { 0 },
            1,
        ];
        match self.rng.weighted(&w) {
            0 => B::Call(self.wsite()),
            1 => B::TryCall(self.wsite()),
            2 => B::Var(self.rng.pick(&vars).clone()),
            3 => B::Item(self.rng.pick(&items).clone(), self.site()),
            4 => match self.rng.chance(1, 2) {
                true => B::First,
                false => B::Last,
            },
            5 => B::Not(Box::new(self.boolean(cx, depth - 1))),
            6 => B::And(Box::new(self.boolean(cx, depth - 1)), Box::new(self.boolean(cx, depth - 1))),
            7 => B::Or(Box::new(self.boolean(cx, depth - 1)), Box::new(self.boolean(cx, depth - 1))),
            8 => {
                let op = *self.rng.pick(&["<", ">", "==", "!=", "<=", ">="]);
                B::Cmp(op, self.num(cx, 0), self.num(cx, 0))
            }
            _ => B::Lit(self.rng.chance(1, 2)),
        }
    }
}

/// Whether a filter of the expression has an effect. Filters are taken to be pure, so equal
/// expressions may share them.
fn has_effect(e: &E) -> bool {
    match e {
        E::Filter(e, f) => {
            matches!(f, F::Eff(_) | F::EffLazy(_)) || has_effect(e)
        }
        E::Group(e) => has_effect(e),
        E::Format(_, args) | E::Cycle(args) => args.iter().any(has_effect),
        _ => false,
    }
}

/// How many nodes are left when all macros, includes and blocks are expanded
pub fn expanded(program: &Program) -> usize {
    let mut root = program.main;
    let mut blocks = Vec::new();
    while let Some((parent, _)) = program.files[root].extends {
        collect_sizes(&program.files[root].body, &mut blocks);
        root = parent;
    }
    let mut total = blocks.iter().map(|body| nodes_size(program, root, body, 0)).sum::<usize>();
    total += nodes_size(program, root, &program.files[root].body, 0);
    total
}

fn collect_sizes<'a>(nodes: &'a [Node], out: &mut Vec<&'a [Node]>) {
    for node in nodes {
        if let Node::Block(_, body) = node {
            out.push(body);
        }
    }
}

fn nodes_size(p: &Program, file: usize, nodes: &[Node], depth: usize) -> usize {
    if depth > 40 {
        return 1_000_000;
    }
    let d = depth + 1;
    let sum = nodes
        .iter()
        .map(|node| match node {
            Node::If(branches, els) => {
                branches.iter().map(|(_, b)| nodes_size(p, file, b, d)).sum::<usize>()
                    + els.as_ref().map_or(0, |b| nodes_size(p, file, b, d))
            }
            Node::Match(_, arms) => arms.iter().map(|(_, b)| nodes_size(p, file, b, d)).sum(),
            Node::For(f) => {
                nodes_size(p, file, &f.body, d) + f.els.as_ref().map_or(0, |b| nodes_size(p, file, b, d))
            }
            Node::Block(_, body) | Node::Filter(_, body) => nodes_size(p, file, body, d),
            Node::Include(file, _) => nodes_size(p, *file, &p.files[*file].body, d),
            Node::Call { scope, name, .. } => {
                let file = scope.as_ref().map_or(file, |(_, file)| *file);
                let m = p.files[file].macros.iter().find(|m| m.name == *name);
                m.map_or(0, |m| nodes_size(p, file, &m.body, d))
            }
            _ => 0,
        })
        .fold(0usize, usize::saturating_add);
    sum.saturating_add(nodes.len())
}

fn declares(node: &Node, name: &str) -> bool {
    match node {
        Node::Let(n, _) => n == name,
        Node::LetPat(p, _) => binds(p, name),
        _ => false,
    }
}

fn binds(p: &P, name: &str) -> bool {
    match p {
        P::Bind(n) => n == name,
        P::B(p, _) | P::Some(p, _) | P::Group(p) => binds(p, name),
        P::C(list, _) | P::Duo(list, _) => list.iter().any(|(field, p)| match p {
            Some(p) => binds(p, name),
            None => *field == name,
        }),
        P::Tuple(list) | P::Or(list) => list.iter().any(|p| binds(p, name)),
        _ => false,
    }
}

fn collect_blocks(nodes: &[Node], out: &mut Vec<String>) {
    for node in nodes {
        match node {
            Node::Block(name, body) => {
                if !out.contains(name) {
                    out.push(name.clone());
                }
                collect_blocks(body, out);
            }
            Node::If(branches, els) => {
                for (_, body) in branches {
                    collect_blocks(body, out);
                }
                if let Some(els) = els {
                    collect_blocks(els, out);
                }
            }
            Node::Match(_, arms) => {
                for (_, body) in arms {
                    collect_blocks(body, out);
                }
            }
            Node::For(f) => {
                collect_blocks(&f.body, out);
                if let Some(els) = &f.els {
                    collect_blocks(els, out);
                }
            }
            Node::Filter(_, body) => collect_blocks(body, out),
            _ => {}
        }
    }
}
