//! The reference model: interprets a template program, without any of askama's code.

use std::collections::HashMap;

use crate::ast::*;
use crate::values::{Key, Vs};

/// What a render without faults looks like
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Expected {
    pub text: String,
    /// Evaluated sites in order; with the number of the evaluation, or the key of the item
    pub evals: Vec<(u32, u64)>,
    /// For each run of a loop over items: the polls of its iterator
    pub loops: Vec<LoopRun>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct LoopRun {
    pub id: u32,
    pub key: Key,
    /// The iterator has to be polled so many times at least, and at most
    pub polls: (usize, usize),
    /// For each item the body was run for: how many polls may precede its evaluations at most
    pub bodies: Vec<(u64, usize)>,
}

#[derive(Clone, Debug)]
enum Val {
    Text(String),
    Num(u32),
    Bool(bool),
    Item(Key),
    Undeclared,
    /// A variable without a value of the template that includes this one
    Foreign,
}

/// A value that is matched with patterns
#[derive(Clone, Debug)]
enum V {
    En(Key),
    Opt(Key),
    OptEn(Key),
    Num(u32),
    Bool(bool),
    Word(&'static str),
    Chr(char),
    Duo(Key),
    Text(String),
    Item(Key),
    Tuple(Vec<V>),
}

impl V {
    /// What a variable that is bound to the value denotes
    fn val(&self) -> Val {
        match self {
            V::Num(n) => Val::Num(*n),
            V::Bool(b) => Val::Bool(*b),
            V::Word(w) => Val::Text(w.to_string()),
            V::Chr(c) => Val::Text(c.to_string()),
            V::Text(s) => Val::Text(s.clone()),
            V::Item(k) => Val::Item(*k),
            v => panic!("{v:?} is bound"),
        }
    }
}

fn matches(p: &P, v: &V, vars: &mut HashMap<String, Val>) -> bool {
    let mut fields = |list: &[(&'static str, Option<P>)], k: &Key| {
        list.iter().all(|(name, p)| {
            let v = match *name {
                "x" => V::Text(k.text()),
                _ => V::Num(k.num()),
            };
            match p {
                Some(p) => matches(p, &v, vars),
                None => matches(&P::Bind(name.to_string()), &v, vars),
            }
        })
    };
    match (p, v) {
        (P::Wild, _) => true,
        (P::Bind(name), v) => {
            vars.insert(name.clone(), v.val());
            true
        }
        (P::Group(p), v) => matches(p, v, vars),
        (P::Or(list), v) => list.iter().any(|p| matches(p, v, vars)),
        (P::Num(a), V::Num(b)) => a == b,
        (P::Bool(a), V::Bool(b)) => a == b,
        (P::Word(a), V::Word(b)) => WORDS[*a] == *b,
        (P::Chr(a), V::Chr(b)) => CHARS[*a] == *b,
        (P::A, V::En(k)) => k.variant() == 0,
        (P::B(p, _), V::En(k)) => k.variant() == 1 && matches(p, &V::Text(k.text()), vars),
        (P::C(list, _), V::En(k)) => k.variant() == 2 && fields(list, k),
        (P::D, V::En(_)) => false,
        (P::Some(p, _), V::Opt(k)) => k.some() && matches(p, &V::Text(k.text()), vars),
        (P::Some(p, _), V::OptEn(k)) => k.some() && matches(p, &V::En(*k), vars),
        (P::None, V::Opt(k) | V::OptEn(k)) => !k.some(),
        (P::Duo(list, _), V::Duo(k)) => fields(list, k),
        (P::Tuple(ps), V::Tuple(vs)) => ps.iter().zip(vs).all(|(p, v)| matches(p, v, vars)),
        (p, v) => panic!("{p:?} for {v:?}"),
    }
}

type Env = Vec<HashMap<String, Val>>;

#[derive(PartialEq)]
enum Flow {
    Next,
    Break,
    Continue,
}

/// The templates which make up a page, from the most derived to the root
#[derive(Clone)]
struct Page {
    chain: Vec<usize>,
}

struct Block {
    name: String,
    level: usize,
}

struct Model<'a> {
    prog: &'a Program,
    vs: Vs,
    occ: HashMap<u32, u32>,
    out: Expected,
    /// Innermost loop: index and whether this is the last item
    loops: Vec<(usize, bool)>,
    only: Option<&'a str>,
}

pub fn run(prog: &Program, vs: Vs) -> Expected {
    let mut m = Model {
        prog,
        vs,
        occ: HashMap::new(),
        out: Expected::default(),
        loops: Vec::new(),
        only: prog.block.as_deref(),
    };
    m.page(prog.main, &mut vec![HashMap::new()]);
    m.out
}

fn find_block<'a>(nodes: &'a [Node], name: &str) -> Option<&'a [Node]> {
    for node in nodes {
        let found = match node {
            Node::Block(n, body) if n == name => Some(&body[..]),
            Node::Block(_, body) | Node::Filter(_, body) => find_block(body, name),
            Node::If(branches, els) => branches
                .iter()
                .find_map(|(_, b)| find_block(b, name))
                .or_else(|| els.as_ref().and_then(|b| find_block(b, name))),
            Node::Match(_, arms) => arms.iter().find_map(|(_, b)| find_block(b, name)),
            Node::For(f) => {
                find_block(&f.body, name).or_else(|| f.els.as_ref().and_then(|b| find_block(b, name)))
            }
            _ => None,
        };
        if found.is_some() {
            return found;
        }
    }
    None
}

pub fn escape_html(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&quot;"),
            '\'' => out.push_str("&#x27;"),
            c => out.push(c),
        }
    }
    out
}

/// The documented result of a filter that takes a text
pub fn filter_text(s: &str, f: &F) -> String {
    const MAX_LEN: usize = 10_000;
    match f {
        F::AsRef => s.to_owned(),
        F::Upper | F::Uppercase => s.to_uppercase(),
        F::Lower | F::Lowercase => s.to_lowercase(),
        F::Capitalize => {
            let mut chars = s.chars();
            match chars.next() {
                Some(c) => c.to_uppercase().collect::<String>() + &chars.as_str().to_lowercase(),
                None => String::new(),
            }
        }
        F::Title => {
            let mut out = String::new();
            let mut first = true;
            for c in s.chars() {
                if c.is_whitespace() {
                    out.push(c);
                } else if first && !c.is_uppercase() {
                    out.extend(c.to_uppercase());
                } else if !first && !c.is_lowercase() {
                    out.extend(c.to_lowercase());
                } else {
                    out.push(c);
                }
                first = c.is_whitespace();
            }
            out
        }
        F::Trim => s.trim().to_owned(),
        F::Truncate(n) => {
            let mut n = *n;
            if n >= s.len() {
                return s.to_owned();
            }
            while !s.is_char_boundary(n) {
                n += 1;
            }
            match n == s.len() {
                true => s.to_owned(),
                false => format!("{}...", &s[..n]),
            }
        }
        F::Indent(n) => {
            if *n >= MAX_LEN || s.len() >= MAX_LEN {
                return s.to_owned();
            }
            let mut out = String::new();
            for (i, c) in s.char_indices() {
                out.push(c);
                if c == '\n' && i + 1 < s.len() {
                    out.push_str(&" ".repeat(*n));
                }
            }
            out
        }
        F::Center(n) => {
            let len = s.chars().count();
            if *n >= MAX_LEN || len >= *n {
                return s.to_owned();
            }
            let left = (*n - len) / 2;
            let right = *n - len - left;
            format!("{}{s}{}", " ".repeat(left), " ".repeat(right))
        }
        F::Wordcount => s.split_whitespace().count().to_string(),
        F::Linebreaks => format!("<p>{}</p>", s.replace("\n\n", "</p><p>").replace('\n', "<br/>")),
        F::LinebreaksBr => s.replace('\n', "<br/>"),
        F::Paragraphbreaks => format!("<p>{}</p>", s.replace("\n\n", "</p><p>").replace("<p></p>", "")),
        F::Urlencode | F::UrlencodeStrict => {
            let mut out = String::new();
            for b in s.bytes() {
                if b.is_ascii_alphanumeric() || b"_.-~".contains(&b) || (b == b'/' && matches!(f, F::Urlencode)) {
                    out.push(b as char);
                } else {
                    out.push_str(&format!("%{b:02X}"));
                }
            }
            out
        }
        F::Fmt(a, b) => format!("{a}{s}{b}"),
        F::Eff(site) => format!("E{site}({s})"),
        F::EffLazy(site) => format!("L{site}({s})"),
        F::Safe | F::Escape(_) | F::TruncateAt(_) | F::IndentAt(_) | F::CenterAt(_) => unreachable!(),
    }
}

impl<'a> Model<'a> {
    fn occ(&mut self, site: u32) -> u32 {
        let n = self.occ.entry(site).or_insert(0);
        *n += 1;
        *n - 1
    }

    fn site(&mut self, site: u32) -> Key {
        let occ = self.occ(site);
        self.out.evals.push((site, occ as u64));
        self.vs.site(site, occ)
    }

    fn item_site(&mut self, env: &Env, var: &str, site: u32) -> Key {
        let key = self.item(env, var);
        if !self.prog.cond_sites.contains(&site) {
            self.out.evals.push((site, key.0));
        }
        key.item_site(site)
    }

    fn item(&self, env: &Env, var: &str) -> Key {
        match self.lookup(env, var) {
            Some(Val::Item(k)) => *k,
            v => panic!("{var} is no item: {v:?}"),
        }
    }

    fn lookup<'e>(&self, env: &'e Env, var: &str) -> Option<&'e Val> {
        env.iter().rev().find_map(|s| s.get(var))
    }

    /// Renders a template with its ancestors
    fn page(&mut self, file: usize, env: &mut Env) {
        let mut chain = vec![file];
        while let Some((parent, _)) = self.prog.files[*chain.last().unwrap()].extends {
            chain.push(parent);
        }
        let root = *chain.last().unwrap();
        let page = Page { chain };
        let prog = self.prog;
        self.nodes(&prog.files[root].body, root, &page, None, env);
    }

    fn nodes(&mut self, nodes: &'a [Node], file: usize, page: &Page, block: Option<&Block>, env: &mut Env) -> Flow {
        for node in nodes {
            let flow = self.node(node, file, page, block, env);
            if flow != Flow::Next {
                return flow;
            }
        }
        Flow::Next
    }

    fn scoped(
        &mut self,
        nodes: &'a [Node],
        vars: HashMap<String, Val>,
        (file, page, block): (usize, &Page, Option<&Block>),
        env: &mut Env,
    ) -> Flow {
        env.push(vars);
        let flow = self.nodes(nodes, file, page, block, env);
        env.pop();
        flow
    }

    fn write(&mut self, s: &str) {
        if self.only.is_none() {
            self.out.text.push_str(s);
        }
    }

    fn node(&mut self, node: &'a Node, file: usize, page: &Page, block: Option<&Block>, env: &mut Env) -> Flow {
        let ctx = (file, page, block);
        match node {
            Node::Lit(s) | Node::Raw(s) => self.write(s),
            Node::Comment(_) => {}
            Node::Expr(e) => {
                let s = self.display(e, env);
                self.write(&s);
            }
            Node::Let(name, rhs) => {
                let val = self.rhs(rhs, env);
                let scope = env
                    .iter_mut()
                    .rev()
                    .find(|s| s.contains_key(name))
                    .filter(|s| matches!(s[name], Val::Undeclared));
                match scope {
                    Some(scope) => scope.insert(name.clone(), val),
                    None => env.last_mut().unwrap().insert(name.clone(), val),
                };
            }
            Node::LetPat(p, s) => {
                let v = self.value(s, env);
                let mut vars = HashMap::new();
                assert!(matches(p, &v, &mut vars));
                env.last_mut().unwrap().extend(vars);
            }
            Node::Decl(name) => {
                env.last_mut().unwrap().insert(name.clone(), Val::Undeclared);
            }
            Node::If(branches, els) => {
                for (cond, body) in branches {
                    let mut vars = HashMap::new();
                    let taken = match cond {
                        Cond::Bool(b) => self.boolean(b, env),
                        Cond::Let(p, s) => {
                            let v = self.value(s, env);
                            matches(p, &v, &mut vars)
                        }
                    };
                    if taken {
                        return self.scoped(body, vars, ctx, env);
                    }
                }
                if let Some(els) = els {
                    return self.scoped(els, HashMap::new(), ctx, env);
                }
            }
            Node::Match(scrut, arms) => {
                let v = self.value(scrut, env);
                for (pat, body) in arms {
                    let mut vars = HashMap::new();
                    if pat.as_ref().map_or(true, |p| matches(p, &v, &mut vars)) {
                        return self.scoped(body, vars, ctx, env);
                    }
                }
                unreachable!("no arm");
            }
            Node::For(f) => self.for_(f, ctx, env),
            Node::Break => return Flow::Break,
            Node::Continue => return Flow::Continue,
            Node::Block(name, _) => self.block(name, 0, page),
            Node::Super => {
                let block = block.expect("super() outside of a block");
                self.block(&block.name, block.level + 1, page);
            }
            Node::Include(file, _) => {
                // Sees the variables of the template that includes it
                let mut scope = HashMap::new();
                for vars in env.iter() {
                    for (name, val) in vars {
                        scope.remove(name);
                        if matches!(val, Val::Undeclared) {
                            scope.insert(name.clone(), Val::Foreign);
                        }
                    }
                }
                env.push(scope);
                self.page(*file, env);
                env.pop();
            }
            Node::Call { scope, name, args } => {
                let prog = self.prog;
                let def_file = scope.as_ref().map_or(file, |(_, f)| *f);
                let def = prog.files[def_file]
                    .macros
                    .iter()
                    .find(|m| m.name == *name)
                    .expect("macro not found");
                let mut vars = HashMap::new();
                for ((param, _), (_, arg)) in def.params.iter().zip(args) {
                    let val = self.rhs(arg, env);
                    vars.insert(param.clone(), val);
                }
                let mut inner = vec![vars];
                self.nodes(&def.body, def_file, &Page { chain: vec![def_file] }, None, &mut inner);
            }
            Node::Filter(filters, body) => {
                let outer = std::mem::take(&mut self.out.text);
                let flow = self.scoped(body, HashMap::new(), ctx, env);
                assert!(flow == Flow::Next);
                let content = std::mem::replace(&mut self.out.text, outer);
                let mut s = content;
                let mut wrapped = false;
                for (i, f) in filters.iter().enumerate() {
                    s = self.filter(s, f);
                    wrapped = i + 1 == filters.len() && matches!(f, F::Safe | F::Escape(_));
                }
                if !wrapped && self.prog.html {
                    s = escape_html(&s);
                }
                self.write(&s);
            }
        }
        Flow::Next
    }

    /// The `level`th definition of a block, counted from the most derived template
    fn block(&mut self, name: &str, level: usize, page: &Page) {
        let prog = self.prog;
        let (file, body) = page
            .chain
            .iter()
            .filter_map(|&f| Some((f, find_block(&prog.files[f].body, name)?)))
            .nth(level)
            .unwrap_or_else(|| panic!("no block {name:?} at {level}"));
        let selected = self.only == Some(name) && level == 0;
        let only = self.only;
        if selected {
            self.only = None;
        }
        let block = Block {
            name: name.to_owned(),
            level,
        };
        self.nodes(body, file, page, Some(&block), &mut vec![HashMap::new()]);
        if selected {
            self.only = only;
        }
    }

    fn for_(&mut self, f: &'a For, ctx: (usize, &Page, Option<&Block>), env: &mut Env) {
        // The values of the loop variables for each item
        let mut items: Vec<(V, Option<Key>)> = Vec::new();
        let mut polled = None;
        match &f.iter {
            It::Items(s) | It::TryItems(s) | It::Pairs(s) | It::Duos(s) | It::Enumerate(s) | It::ItemItems(_, s) => {
                let key = match &f.iter {
                    It::ItemItems(v, _) => self.item_site(env, v, *s),
                    _ => self.site(*s),
                };
                polled = Some(key);
                for i in 0..key.len() {
                    let item = key.item(i);
                    let vals = match &f.iter {
                        It::Pairs(_) => V::Tuple(vec![V::Text(item.text()), V::Item(item)]),
                        It::Duos(_) => V::Duo(item),
                        It::Enumerate(_) => V::Tuple(vec![V::Num(i as u32), V::Item(item)]),
                        _ => V::Item(item),
                    };
                    items.push((vals, Some(item)));
                }
            }
            It::List(i) => {
                let key = self.vs.list_field(*i % SELF);
                for i in 0..key.len() {
                    items.push((V::Text(key.item(i).text()), None));
                }
            }
            It::Range(a, b, inclusive) => {
                let (a, b) = (self.num(a, env), self.num(b, env));
                for i in a..b + *inclusive as u32 {
                    items.push((V::Num(i), None));
                }
            }
            It::Array(list) => {
                for e in list {
                    let s = self.text(e, env);
                    items.push((V::Text(s), None));
                }
            }
        }
        let total = items.len();
        let mut accepted = Vec::new();
        for (at, (vals, item)) in items.into_iter().enumerate() {
            let mut vars = HashMap::new();
            assert!(matches(&f.pat, &vals, &mut vars));
            if let Some(cond) = &f.cond {
                env.push(vars);
                let ok = self.boolean(cond, env);
                let vars = env.pop().unwrap();
                if ok {
                    accepted.push((at, vars, item));
                }
            } else {
                accepted.push((at, vars, item));
            }
        }
        let positions: Vec<usize> = accepted.iter().map(|(at, _, _)| *at).collect();
        let n = accepted.len();
        // The polls that are needed to have fetched the nth accepted item
        let polls_for = |i: usize| positions.get(i).map_or(total + 1, |at| at + 1);

        let run_at = self.out.loops.len();
        if let Some(key) = polled {
            self.out.loops.push(LoopRun {
                id: f.id,
                key,
                polls: (total + 1, total + 1),
                bodies: Vec::new(),
            });
        }
        if n == 0 {
            if let Some(els) = &f.els {
                let flow = self.scoped(els, HashMap::new(), ctx, env);
                assert!(flow == Flow::Next);
            }
            return;
        }
        for (i, (_, vars, item)) in accepted.into_iter().enumerate() {
            if let (Some(_), Some(item)) = (polled, item) {
                self.out.loops[run_at].bodies.push((item.0, polls_for(i + 1)));
            }
            self.loops.push((i, i + 1 == n));
            let flow = self.scoped(&f.body, vars, ctx, env);
            self.loops.pop();
            if flow == Flow::Break {
                if polled.is_some() {
                    self.out.loops[run_at].polls = (polls_for(i), polls_for(i + 1));
                }
                break;
            }
        }
    }

    fn value(&mut self, s: &S, env: &Env) -> V {
        match s {
            S::En(s) | S::TryEn(s) => V::En(self.site(*s)),
            S::Opt(s) | S::TryOpt(s) => V::Opt(self.site(*s)),
            S::OptEn(s) => V::OptEn(self.site(*s)),
            S::Word(s) => V::Word(self.site(*s).word()),
            S::Chr(s) => V::Chr(self.site(*s).chr()),
            S::Duo(s) => V::Duo(self.site(*s)),
            S::Pair(s) => {
                let key = self.site(*s);
                V::Tuple(vec![V::Text(key.text()), V::Num(key.num())])
            }
            S::Item(v, s) => V::En(self.item_site(env, v, *s)),
            S::Num(n) => V::Num(self.num(n, env)),
            S::Bool(b) => V::Bool(self.boolean(b, env)),
            S::Text(e) => V::Text(self.text(e, env)),
            S::Tuple(list) => V::Tuple(list.iter().map(|s| self.value(s, env)).collect()),
        }
    }

    fn rhs(&mut self, rhs: &Rhs, env: &Env) -> Val {
        match rhs {
            Rhs::Text(e) => Val::Text(self.text(e, env)),
            Rhs::Num(n) => Val::Num(self.num(n, env)),
            Rhs::Bool(b) => Val::Bool(self.boolean(b, env)),
        }
    }

    fn display(&mut self, e: &E, env: &Env) -> String {
        let s = self.text(e, env);
        match e.wrapped() || !self.prog.html {
            true => s,
            false => escape_html(&s),
        }
    }

    fn filter(&mut self, s: String, f: &F) -> String {
        match f {
            F::TruncateAt(site) | F::IndentAt(site) | F::CenterAt(site) => {
                let n = self.site(*site).size();
                let f = match f {
                    F::TruncateAt(_) => F::Truncate(n),
                    F::IndentAt(_) => F::Indent(n),
                    _ => F::Center(n),
                };
                filter_text(&s, &f)
            }
            F::Safe => s,
            F::Escape(None) => match self.prog.html {
                true => escape_html(&s),
                false => s,
            },
            F::Escape(Some(true)) => escape_html(&s),
            F::Escape(Some(false)) => s,
            F::Eff(site) | F::EffLazy(site) => {
                let occ = self.occ(*site);
                self.out.evals.push((*site, occ as u64));
                filter_text(&s, f)
            }
            f => filter_text(&s, f),
        }
    }

    fn text(&mut self, e: &E, env: &Env) -> String {
        if self.only.is_some() {
            // Not a part of the selected block: not evaluated
            return String::new();
        }
        match e {
            E::Show(s) | E::TryShow(s) | E::Once(s) => self.site(*s).text(),
            E::Field(i) => self.vs.field(*i % SELF).text(),
            E::Var(v) => match self.lookup(env, v) {
                Some(Val::Text(s)) => s.clone(),
                Some(Val::Num(n)) => n.to_string(),
                Some(Val::Bool(b)) => b.to_string(),
                v => panic!("{e:?} is {v:?}"),
            },
            E::Bool(b) => self.boolean(b, env).to_string(),
            E::Int(s, f) => {
                let n = self.site(*s).int();
                match f {
                    Some("abs") => n.abs().to_string(),
                    _ => n.to_string(),
                }
            }
            E::Filesize(s) => filesize(self.site(*s).size()),
            E::NumFilter(s, _) | E::Amount(s, _) => self.site(*s).num().to_string(),
            E::Char(i) => CHARS[*i].to_string(),
            E::Word(s) => self.site(*s).word().to_owned(),
            E::Group(e) => self.text(e, env),
            E::Part(s, first) => {
                let key = self.site(*s);
                match first {
                    true => key.text(),
                    false => key.num().to_string(),
                }
            }
            E::Index(s, list) => {
                let at = self.site(*s).num() as usize % list.len();
                WORDS[list[at]].to_owned()
            }
            E::Num(n) => self.num(n, env).to_string(),
            E::Str(s) => s.clone(),
            E::ItemShow(v, s) | E::ItemTry(v, s) => self.item_site(env, v, *s).text(),
            E::ItemAttr(v) => self.item(env, v).text(),
            E::LoopIndex => (self.loops.last().unwrap().0 + 1).to_string(),
            E::LoopIndex0 => self.loops.last().unwrap().0.to_string(),
            E::Cycle(list) => {
                let all: Vec<String> = list.iter().map(|e| self.text(e, env)).collect();
                all[self.loops.last().unwrap().0 % all.len()].clone()
            }
            E::Join(site, sep) => {
                let key = self.site(*site);
                let sep = self.text(sep, env);
                let parts: Vec<_> = (0..key.len()).map(|i| key.item(i).text()).collect();
                parts.join(&sep)
            }
            E::JoinField(i, sep) => {
                let key = self.vs.list_field(*i % SELF);
                let sep = self.text(sep, env);
                let parts: Vec<_> = (0..key.len()).map(|i| key.item(i).text()).collect();
                parts.join(&sep)
            }
            E::Format(parts, args) => {
                let mut out = parts[0].clone();
                for (part, arg) in parts[1..].iter().zip(args) {
                    out.push_str(&self.text(arg, env));
                    out.push_str(part);
                }
                out
            }
            E::Json(site) => self.site(*site).json().filtered(),
            E::Filter(e, f) => {
                let s = self.text(e, env);
                self.filter(s, f)
            }
        }
    }

    fn num(&mut self, n: &N, env: &Env) -> u32 {
        match n {
            N::Lit(n) => *n,
            N::Call(s) | N::TryCall(s) => self.site(*s).num(),
            N::Item(v, s) => self.item_site(env, v, *s).num(),
            N::Var(v) => match self.lookup(env, v) {
                Some(Val::Num(n)) => *n,
                v => panic!("{n:?} is {v:?}"),
            },
            N::Field(i) => self.vs.num_field(*i % SELF).num(),
            N::Bin(op, a, b) => {
                let (a, b) = (self.num(a, env), self.num(b, env));
                match *op {
                    "+" => a + b,
                    "*" => a * b,
                    "%" => a % b,
                    "/" => a / b,
                    "<<" => a << b,
                    ">>" => a >> b,
                    "&" => a & b,
                    "|" => a | b,
                    "^" => a ^ b,
                    _ => unreachable!(),
                }
            }
        }
    }

    fn boolean(&mut self, b: &B, env: &Env) -> bool {
        match b {
            B::Lit(b) => *b,
            B::Call(s) | B::TryCall(s) => self.site(*s).boolean(),
            B::Item(v, s) => self.item_site(env, v, *s).boolean(),
            B::Var(v) => match self.lookup(env, v) {
                Some(Val::Bool(b)) => *b,
                v => panic!("{b:?} is {v:?}"),
            },
            B::First => self.loops.last().unwrap().0 == 0,
            B::Last => self.loops.last().unwrap().1,
            B::Not(b) => !self.boolean(b, env),
            B::And(a, b) => self.boolean(a, env) && self.boolean(b, env),
            B::Or(a, b) => self.boolean(a, env) || self.boolean(b, env),
            B::Cmp(op, x, y) => {
                let (x, y) = (self.num(x, env), self.num(y, env));
                match *op {
                    "<" => x < y,
                    ">" => x > y,
                    "==" => x == y,
                    "!=" => x != y,
                    "<=" => x <= y,
                    ">=" => x >= y,
                    _ => unreachable!(),
                }
            }
        }
    }
}

/// A number of bytes with the SI prefix that makes it smaller than 1000
fn filesize(bytes: usize) -> String {
    let mut n = bytes as f64;
    let mut units = ["B", "kB", "MB", "GB", "TB", "PB", "EB"].iter();
    let mut unit = units.next().unwrap();
    while n >= 1000.0 {
        n /= 1000.0;
        unit = units.next().unwrap();
    }
    match n.fract() == 0.0 {
        true => format!("{n} {unit}"),
        false => format!("{n:.2} {unit}"),
    }
}
