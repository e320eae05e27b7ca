//! The template programs the simulator generates, and how they are written as askama templates.

use std::fmt::Write;

use crate::rng::{mix, mix_str};
use crate::values::TICK;
use crate::style::{restyle, Style};

#[derive(Clone, Debug)]
pub struct Program {
    /// Whether values are escaped for HTML
    pub html: bool,
    /// Further arguments of the attribute
    pub attr: String,
    /// Written into the attribute, instead of a file
    pub inline: bool,
    pub style: Style,
    pub files: Vec<File>,
    /// The file the struct is derived for
    pub main: usize,
    /// Renders only this block
    pub block: Option<String>,
    pub fields: usize,
    pub nums: usize,
    pub lists: usize,
    /// Sites which are evaluated in the condition of a for node
    pub cond_sites: Vec<u32>,
    /// Evaluated at unspecified times, so that only the output is compared
    pub output_only: bool,
}

#[derive(Clone, Debug)]
pub struct File {
    /// Relative to the directory of the program
    pub path: String,
    pub extends: Option<(usize, String)>,
    pub imports: Vec<(String, usize, String)>,
    pub macros: Vec<Macro>,
    pub body: Vec<Node>,
}

#[derive(Clone, Debug)]
pub struct Macro {
    pub name: String,
    pub params: Vec<(String, Kind)>,
    pub body: Vec<Node>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Anything that can be displayed
    Text,
    /// A `Show`
    Show,
    /// A `u32`
    Num,
    Bool,
    Item,
}

#[derive(Clone, Debug)]
pub enum Node {
    Lit(String),
    Comment(String),
    Raw(String),
    Expr(E),
    Let(String, Rhs),
    /// With a pattern that always matches
    LetPat(P, S),
    Decl(String),
    If(Vec<(Cond, Vec<Node>)>, Option<Vec<Node>>),
    /// The last arm may be an `else`
    Match(S, Vec<(Option<P>, Vec<Node>)>),
    For(Box<For>),
    Break,
    Continue,
    Block(String, Vec<Node>),
    Super,
    Include(usize, String),
    Call {
        /// Alias and file of an imported macro
        scope: Option<(String, usize)>,
        name: String,
        /// With the parameter's name if it is passed by name
        args: Vec<(Option<String>, Rhs)>,
    },
    Filter(Vec<F>, Vec<Node>),
}

#[derive(Clone, Debug)]
pub struct For {
    pub id: u32,
    pub pat: P,
    pub iter: It,
    pub cond: Option<B>,
    pub body: Vec<Node>,
    pub els: Option<Vec<Node>>,
}

#[derive(Clone, Debug)]
pub enum It {
    Items(u32),
    TryItems(u32),
    Pairs(u32),
    Duos(u32),
    /// `w.items(site).enumerate()`
    Enumerate(u32),
    ItemItems(String, u32),
    List(usize),
    /// First, last, and whether the last one is included
    Range(N, N, bool),
    Array(Vec<E>),
}

#[derive(Clone, Debug)]
pub enum Rhs {
    Text(E),
    Num(N),
    Bool(B),
}

#[derive(Clone, Debug)]
pub enum Cond {
    Bool(B),
    /// `if let pattern = expression`
    Let(P, S),
}

/// An expression that is matched with patterns
#[derive(Clone, Debug)]
pub enum S {
    En(u32),
    TryEn(u32),
    Opt(u32),
    TryOpt(u32),
    OptEn(u32),
    Word(u32),
    Chr(u32),
    Duo(u32),
    Pair(u32),
    Item(String, u32),
    Num(N),
    Bool(B),
    Text(E),
    Tuple(Vec<S>),
}

/// A pattern
#[derive(Clone, Debug)]
pub enum P {
    Wild,
    Bind(String),
    Num(u32),
    Bool(bool),
    Word(usize),
    Chr(usize),
    A,
    B(Box<P>, bool),
    /// The fields in any order; `None` stands for a variable of the same name
    C(Vec<(&'static str, Option<P>)>, bool),
    D,
    Some(Box<P>, bool),
    None,
    Duo(Vec<(&'static str, Option<P>)>, bool),
    Tuple(Vec<P>),
    Or(Vec<P>),
    /// In superfluous parentheses
    Group(Box<P>),
}

pub const WORDS: &[&str] = &["a", "<b>", "it's", ""];
pub const CHARS: &[char] = &['a', '<', 'é', '"'];

/// An expression that is displayed
#[derive(Clone, Debug)]
pub enum E {
    Show(u32),
    TryShow(u32),
    Once(u32),
    Field(usize),
    Var(String),
    Num(N),
    Bool(B),
    /// `w.i(site)`, maybe with a filter for numbers
    Int(u32, Option<&'static str>),
    /// `w.n(site)|filter`
    NumFilter(u32, &'static str),
    /// `(w.us(site))|filesizeformat`
    Filesize(u32),
    /// The same with a number which cannot always be converted
    Amount(u32, &'static str),
    Str(String),
    Char(usize),
    /// `w.word(site)`
    Word(u32),
    /// In parentheses
    Group(Box<E>),
    /// `w.pair(site).0` or `.1`
    Part(u32, bool),
    /// `["…", "…"][w.idx(site)]`
    Index(u32, Vec<usize>),
    ItemShow(String, u32),
    ItemTry(String, u32),
    ItemAttr(String),
    LoopIndex,
    LoopIndex0,
    Cycle(Vec<E>),
    /// `w.list(site)|join(sep)`
    Join(u32, Box<E>),
    /// `lst|join(sep)`
    JoinField(usize, Box<E>),
    /// `"…{}…"|format(…)`: the text around and between the arguments
    Format(Vec<String>, Vec<E>),
    Json(u32),
    Filter(Box<E>, F),
}

#[derive(Clone, Debug)]
pub enum F {
    Upper,
    Uppercase,
    Lower,
    Lowercase,
    /// The result has the same text
    AsRef,
    Capitalize,
    Title,
    Trim,
    Truncate(usize),
    Indent(usize),
    Center(usize),
    /// With the argument `w.us(site)`
    TruncateAt(u32),
    IndentAt(u32),
    CenterAt(u32),
    Wordcount,
    Linebreaks,
    LinebreaksBr,
    Paragraphbreaks,
    Urlencode,
    UrlencodeStrict,
    /// `fmt("<{}>")`
    Fmt(String, String),
    /// Custom filter that collects the text at once
    Eff(u32),
    /// Custom filter that displays the value later
    EffLazy(u32),
    Safe,
    Escape(Option<bool>),
}

#[derive(Clone, Debug)]
pub enum N {
    Lit(u32),
    Call(u32),
    TryCall(u32),
    Item(String, u32),
    Var(String),
    Field(usize),
    Bin(&'static str, Box<N>, Box<N>),
}

#[derive(Clone, Debug)]
pub enum B {
    Lit(bool),
    Call(u32),
    TryCall(u32),
    Item(String, u32),
    Var(String),
    First,
    Last,
    Not(Box<B>),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
    Cmp(&'static str, N, N),
}

/// Added to the index of a field that is written `self.field`
pub const SELF: usize = 100;

fn field(prefix: &str, i: usize) -> String {
    match i >= SELF {
        true => format!("self.{prefix}{}", i - SELF),
        false => format!("{prefix}{i}"),
    }
}

/// A call, written in one of its forms
fn call(o: &mut String, name: &str, site: u32) -> std::fmt::Result {
    match mix(77, site as u64) % 24 {
        _ if site >= TICK => by_value(o, name, site),
        5 => write!(o, "vrt::call!(self.w.{name}({site}))"),
        _ => by_value(o, name, site),
    }
}

/// A call in one of the forms that are passed to a filter by value
fn by_value(o: &mut String, name: &str, site: u32) -> std::fmt::Result {
    match mix(77, site as u64) % 24 {
        _ if site >= TICK => o.write_str(["w.tick()", "self.tick()", "vrt::at::tick()"][(site - TICK) as usize]),
        0 | 1 => write!(o, "self.{name}({site})"),
        2 => write!(o, "self.w.{name}({site})"),
        3 => write!(o, "at::{name}(w, {site})"),
        4 => write!(o, "vrt::at::{name}(self.w, {site})"),
        6 => write!(o, "w.me().{name}({site})"),
        7 => write!(o, "self.me().{name}({site})"),
        _ => write!(o, "w.{name}({site})"),
    }
}

impl P {
    fn print(&self, o: &mut String) {
        let fields = |o: &mut String, name: &str, with: bool, fields: &[(&'static str, Option<P>)]| {
            let _ = write!(o, "{name}{} {{ ", if with { " with" } else { "" });
            for (i, (field, p)) in fields.iter().enumerate() {
                o.push_str(if i > 0 { ", " } else { "" });
                o.push_str(field);
                if let Some(p) = p {
                    o.push_str(": ");
                    p.print(o);
                }
            }
            o.push_str(" }");
        };
        let list = |o: &mut String, list: &[P], sep: &str| {
            for (i, p) in list.iter().enumerate() {
                o.push_str(if i > 0 { sep } else { "" });
                p.print(o);
            }
        };
        let one = |o: &mut String, name: &str, with: bool, p: &P| {
            let _ = write!(o, "{name}{}(", if with { " with " } else { "" });
            p.print(o);
            o.push(')');
        };
        match self {
            P::Wild => o.push('_'),
            P::Bind(v) => o.push_str(v),
            P::Num(n) => {
                let _ = write!(o, "{n}");
            }
            P::Bool(b) => {
                let _ = write!(o, "{b}");
            }
            P::Word(i) => {
                let _ = write!(o, "\"{}\"", WORDS[*i]);
            }
            P::Chr(i) => {
                let _ = write!(o, "'{}'", CHARS[*i]);
            }
            P::A => o.push_str("En::A"),
            P::B(p, with) => one(o, "En::B", *with, p),
            P::C(list, with) => fields(o, "En::C", *with, list),
            P::D => o.push_str("En::D"),
            P::Some(p, with) => one(o, "Some", *with, p),
            P::None => o.push_str("None"),
            P::Duo(list, with) => fields(o, "Duo", *with, list),
            P::Tuple(ps) => {
                o.push('(');
                list(o, ps, ", ");
                if ps.len() == 1 {
                    o.push(',');
                }
                o.push(')');
            }
            P::Or(ps) => list(o, ps, " or "),
            P::Group(p) => {
                o.push('(');
                p.print(o);
                o.push(')');
            }
        }
    }
}

impl S {
    fn print(&self, o: &mut String, outer: u8) {
        let _ = match self {
            S::En(s) => call(o, "en", *s),
            S::TryEn(s) => call(o, "try_en", *s).and_then(|()| o.write_char('?')),
            S::Opt(s) => call(o, "opt", *s),
            S::TryOpt(s) => call(o, "try_opt", *s).and_then(|()| o.write_char('?')),
            S::OptEn(s) => call(o, "opt_en", *s),
            S::Word(s) => call(o, "word", *s),
            S::Chr(s) => call(o, "chr", *s),
            S::Duo(s) => call(o, "duo", *s),
            S::Pair(s) => call(o, "pair", *s),
            S::Item(v, s) => write!(o, "{v}.en({s})"),
            S::Num(n) => {
                n.print(o, outer);
                Ok(())
            }
            S::Bool(b) => {
                b.print(o, outer);
                Ok(())
            }
            S::Text(e) => {
                e.print(o);
                Ok(())
            }
            S::Tuple(list) => {
                o.push('(');
                for (i, s) in list.iter().enumerate() {
                    o.push_str(if i > 0 { ", " } else { "" });
                    s.print(o, 0);
                }
                if list.len() == 1 {
                    o.push(',');
                }
                o.push(')');
                Ok(())
            }
        };
    }
}

impl F {
    fn print(&self, o: &mut String) {
        let arg = |o: &mut String, name: &str, site: u32| {
            write!(o, "{name}(")?;
            by_value(o, "us", site)?;
            o.write_char(')')
        };
        let _ = match self {
            F::Upper => write!(o, "upper"),
            F::Uppercase => write!(o, "uppercase"),
            F::Lower => write!(o, "lower"),
            F::Lowercase => write!(o, "lowercase"),
            F::AsRef => write!(o, "as_ref"),
            F::Capitalize => write!(o, "capitalize"),
            F::Title => write!(o, "title"),
            F::Trim => write!(o, "trim"),
            F::Truncate(n) => write!(o, "truncate({n})"),
            F::Indent(n) => write!(o, "indent({n})"),
            F::Center(n) => write!(o, "center({n})"),
            F::TruncateAt(s) => arg(o, "truncate", *s),
            F::IndentAt(s) => arg(o, "indent", *s),
            F::CenterAt(s) => arg(o, "center", *s),
            F::Wordcount => write!(o, "wordcount"),
            F::Linebreaks => write!(o, "linebreaks"),
            F::LinebreaksBr => write!(o, "linebreaksbr"),
            F::Paragraphbreaks => write!(o, "paragraphbreaks"),
            F::Urlencode => write!(o, "urlencode"),
            F::UrlencodeStrict => write!(o, "urlencode_strict"),
            F::Fmt(a, b) => write!(o, "fmt(\"{a}{{}}{b}\")"),
            F::Eff(site) => write!(o, "eff(w, {site})"),
            F::EffLazy(site) => write!(o, "efflazy(w, {site})"),
            F::Safe => write!(o, "safe"),
            F::Escape(None) => write!(o, "escape"),
            F::Escape(Some(true)) => write!(o, "e(\"html\")"),
            F::Escape(Some(false)) => write!(o, "escape(\"txt\")"),
        };
    }
}

impl E {
    pub fn print(&self, o: &mut String) {
        let _ = match self {
            E::Show(s) => call(o, "show", *s),
            E::TryShow(s) => call(o, "try_show", *s).and_then(|()| o.write_char('?')),
            E::Once(s) => call(o, "once", *s),
            E::Word(s) => call(o, "word", *s),
            E::Char(i) => write!(o, "'{}'", CHARS[*i]),
            E::Group(e) => {
                o.push('(');
                e.print(o);
                o.push(')');
                Ok(())
            }
            E::Part(s, first) => call(o, "pair", *s).and_then(|()| write!(o, ".{}", !first as u8)),
            E::Index(s, list) => {
                o.push('[');
                for (i, word) in list.iter().enumerate() {
                    let _ = write!(o, "{}\"{}\"", if i > 0 { ", " } else { "" }, WORDS[*word]);
                }
                o.push_str("][");
                let _ = call(o, &format!("idx{}", list.len()), *s);
                o.push(']');
                Ok(())
            }
            E::Int(s, f) => {
                let _ = by_value(o, "i", *s);
                match f {
                    Some(f) => write!(o, "|{f}"),
                    None => Ok(()),
                }
            }
            E::Amount(s, f) => by_value(o, "amount", *s).and_then(|()| write!(o, "|{f}")),
            E::Filesize(s) => {
                o.push('(');
                by_value(o, "us", *s).and_then(|()| o.write_str(")|filesizeformat"))
            }
            E::NumFilter(s, f) => by_value(o, "n", *s).and_then(|()| write!(o, "|{f}")),
            E::Bool(b) => {
                b.print(o, 10);
                Ok(())
            }
            E::Field(i) => write!(o, "{}", field("f", *i)),
            E::Var(v) => write!(o, "{v}"),
            E::Num(n) => {
                n.print(o, 10);
                Ok(())
            }
            E::Str(s) => write!(o, "\"{s}\""),
            E::ItemShow(v, s) => write!(o, "{v}.show({s})"),
            E::ItemTry(v, s) => write!(o, "{v}.try_show({s})?"),
            E::ItemAttr(v) => write!(o, "{v}.v"),
            E::LoopIndex => write!(o, "loop.index"),
            E::LoopIndex0 => write!(o, "loop.index0"),
            E::Cycle(list) => {
                o.push_str("loop.cycle([");
                print_list(list, o);
                o.push_str("])");
                Ok(())
            }
            E::Join(s, sep) => {
                let _ = call(o, "list", *s);
                o.push_str("|join(");
                sep.print(o);
                o.push(')');
                Ok(())
            }
            E::JoinField(i, sep) => {
                let _ = write!(o, "{}|join(", field("lst", *i));
                sep.print(o);
                o.push(')');
                Ok(())
            }
            E::Format(parts, args) => {
                let _ = write!(o, "\"{}\"|format(", parts.join("{}"));
                print_list(args, o);
                o.push(')');
                Ok(())
            }
            E::Json(s) => call(o, "js", *s).and_then(|()| o.write_str(if s % 4 == 0 { "|tojson" } else { "|json" })),
            E::Filter(e, f) => {
                e.print(o);
                o.push('|');
                f.print(o);
                Ok(())
            }
        };
    }

    /// Whether the outermost filter decides about the escaping
    pub fn wrapped(&self) -> bool {
        matches!(self, E::Filter(_, F::Safe | F::Escape(_)))
    }
}

fn print_list(list: &[E], o: &mut String) {
    for (i, e) in list.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        e.print(o);
    }
}

/// How strongly an operator binds
fn precedence(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 3,
        "|" => 4,
        "^" => 5,
        "&" => 6,
        "<<" | ">>" => 7,
        "+" | "-" => 8,
        _ => 9,
    }
}

/// Prints parentheses if the operator does not bind strongly enough
fn infix(
    o: &mut String,
    op: &str,
    outer: u8,
    left: impl FnOnce(&mut String, u8),
    right: impl FnOnce(&mut String, u8),
) {
    let own = precedence(op);
    let paren = own < outer;
    if paren {
        o.push('(');
    }
    // Comparisons cannot be chained.
    left(o, own + (own == 3) as u8);
    let _ = write!(o, " {op} ");
    right(o, own + 1);
    if paren {
        o.push(')');
    }
}

impl N {
    fn print(&self, o: &mut String, outer: u8) {
        let _ = match self {
            N::Lit(n) => write!(o, "{n}"),
            N::Call(s) => call(o, "n", *s),
            N::TryCall(s) => call(o, "try_n", *s).and_then(|()| o.write_char('?')),
            N::Item(v, s) => write!(o, "{v}.n({s})"),
            N::Var(v) => write!(o, "{v}"),
            N::Field(i) => write!(o, "{}", field("n", *i)),
            N::Bin(op, a, b) => {
                infix(o, op, outer, |o, p| a.print(o, p), |o, p| b.print(o, p));
                Ok(())
            }
        };
    }
}

impl B {
    fn print(&self, o: &mut String, outer: u8) {
        let _ = match self {
            B::Lit(b) => write!(o, "{b}"),
            B::Call(s) => call(o, "b", *s),
            B::TryCall(s) => call(o, "try_b", *s).and_then(|()| o.write_char('?')),
            B::Item(v, s) => write!(o, "{v}.b({s})"),
            B::Var(v) => write!(o, "{v}"),
            B::First => write!(o, "loop.first"),
            B::Last => write!(o, "loop.last"),
            B::Not(b) => {
                o.push('!');
                match **b {
                    B::And(..) | B::Or(..) | B::Cmp(..) => {
                        o.push('(');
                        b.print(o, 0);
                        o.push(')');
                    }
                    _ => b.print(o, 10),
                }
                Ok(())
            }
            B::And(a, b) | B::Or(a, b) => {
                let op = if matches!(self, B::And(..)) { "&&" } else { "||" };
                infix(o, op, outer, |o, p| a.print(o, p), |o, p| b.print(o, p));
                Ok(())
            }
            B::Cmp(op, a, b) => {
                infix(o, op, outer, |o, p| a.print(o, p), |o, p| b.print(o, p));
                Ok(())
            }
        };
    }
}

impl Rhs {
    fn print(&self, o: &mut String) {
        match self {
            Rhs::Text(e) => e.print(o),
            Rhs::Num(n) => n.print(o, 0),
            Rhs::Bool(b) => b.print(o, 0),
        }
    }
}

pub fn print_nodes(nodes: &[Node], o: &mut String) {
    for node in nodes {
        node.print(o);
    }
}

impl Node {
    fn print(&self, o: &mut String) {
        match self {
            Node::Lit(s) => o.push_str(s),
            Node::Comment(s) => {
                let _ = write!(o, "{{#{s}#}}");
            }
            Node::Raw(s) => {
                let _ = write!(o, "{{% raw %}}{s}{{% endraw %}}");
            }
            Node::Expr(e) => {
                o.push_str("{{ ");
                e.print(o);
                o.push_str(" }}");
            }
            Node::Let(name, rhs) => {
                let keyword = if name.len() % 3 == 0 { "set" } else { "let" };
                let _ = write!(o, "{{% {keyword} {name} = ");
                rhs.print(o);
                o.push_str(" %}");
            }
            Node::LetPat(p, s) => {
                o.push_str("{% let ");
                p.print(o);
                o.push_str(" = ");
                s.print(o, 0);
                o.push_str(" %}");
            }
            Node::Decl(name) => {
                let _ = write!(o, "{{% let {name} %}}");
            }
            Node::If(branches, els) => {
                for (i, (cond, body)) in branches.iter().enumerate() {
                    o.push_str(match i {
                        0 => "{% if ",
                        _ if body.len() % 2 == 0 => "{% elif ",
                        _ => "{% else if ",
                    });
                    match cond {
                        Cond::Bool(b) => b.print(o, 0),
                        Cond::Let(p, s) => {
                            o.push_str("let ");
                            p.print(o);
                            o.push_str(" = ");
                            // The expression is borrowed as it is written
                            s.print(o, 10);
                        }
                    }
                    o.push_str(" %}");
                    print_nodes(body, o);
                }
                if let Some(els) = els {
                    o.push_str("{% else %}");
                    print_nodes(els, o);
                }
                o.push_str("{% endif %}");
            }
            Node::Match(scrut, arms) => {
                o.push_str("{% match ");
                // The expression is borrowed as it is written
                scrut.print(o, 10);
                o.push_str(" %}");
                for (pat, body) in arms {
                    match pat {
                        Some(p) => {
                            o.push_str("{% when ");
                            p.print(o);
                            o.push_str(" %}");
                        }
                        None => o.push_str("{% else %}"),
                    }
                    print_nodes(body, o);
                }
                o.push_str("{% endmatch %}");
            }
            Node::For(f) => {
                o.push_str("{% for ");
                f.pat.print(o);
                o.push_str(" in ");
                let _ = match &f.iter {
                    It::Items(s) => call(o, "items", *s),
                    It::TryItems(s) => call(o, "try_items", *s).and_then(|()| o.write_char('?')),
                    It::Pairs(s) => call(o, "pairs", *s),
                    It::Duos(s) => call(o, "duos", *s),
                    It::Enumerate(s) => call(o, "items", *s).and_then(|()| o.write_str(".enumerate()")),
                    It::ItemItems(v, s) => write!(o, "{v}.items({s})"),
                    It::List(i) => write!(o, "{}", field("lst", *i)),
                    It::Range(a, b, inclusive) => {
                        a.print(o, 0);
                        o.push_str(if *inclusive { "..=" } else { ".." });
                        b.print(o, 0);
                        Ok(())
                    }
                    It::Array(list) => {
                        o.push('[');
                        print_list(list, o);
                        o.push(']');
                        Ok(())
                    }
                };
                if let Some(cond) = &f.cond {
                    o.push_str(" if ");
                    cond.print(o, 0);
                }
                o.push_str(" %}");
                print_nodes(&f.body, o);
                if let Some(els) = &f.els {
                    o.push_str("{% else %}");
                    print_nodes(els, o);
                }
                o.push_str("{% endfor %}");
            }
            Node::Break => o.push_str("{% break %}"),
            Node::Continue => o.push_str("{% continue %}"),
            Node::Block(name, body) => {
                let _ = write!(o, "{{% block {name} %}}");
                print_nodes(body, o);
                o.push_str("{% endblock %}");
            }
            Node::Super => o.push_str("{% call super() %}"),
            Node::Include(_, path) => {
                let _ = write!(o, "{{% include \"{path}\" %}}");
            }
            Node::Call { scope, name, args } => {
                o.push_str("{% call ");
                if let Some((alias, _)) = scope {
                    let _ = write!(o, "{alias}::");
                }
                let _ = write!(o, "{name}(");
                for (i, (param, arg)) in args.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    if let Some(param) = param {
                        let _ = write!(o, "{param} = ");
                    }
                    arg.print(o);
                }
                o.push_str(") %}");
            }
            Node::Filter(filters, body) => {
                o.push_str("{% filter ");
                for (i, f) in filters.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    f.print(o);
                }
                o.push_str(" %}");
                print_nodes(body, o);
                o.push_str("{% endfilter %}");
            }
        }
    }
}

impl File {
    pub fn source(&self, style: Style) -> String {
        let source = self.plain();
        let seed = mix_str(78, &source);
        restyle(&source, style, seed)
    }

    fn plain(&self) -> String {
        let mut o = String::new();
        if let Some((_, path)) = &self.extends {
            let _ = write!(o, "{{% extends \"{path}\" %}}");
        }
        for (alias, _, path) in &self.imports {
            let _ = write!(o, "{{% import \"{path}\" as {alias} %}}");
        }
        for m in &self.macros {
            let params: Vec<_> = m.params.iter().map(|(p, _)| p.as_str()).collect();
            let _ = write!(o, "{{% macro {}({}) %}}", m.name, params.join(", "));
            print_nodes(&m.body, &mut o);
            o.push_str("{% endmacro %}");
        }
        print_nodes(&self.body, &mut o);
        o
    }
}

impl Program {
    /// The Rust code of the template struct, and of a function that fills it
    pub fn rust(&self, dir: &str, index: usize) -> String {
        let mut o = String::new();
        let path = match self.inline {
            // The path's extension does not apply
            true => format!("source = {:?}", self.files[self.main].source(self.style)),
            false => format!("path = {:?}", format!("{dir}/{}", self.files[self.main].path)),
        };
        let block = self.block.as_ref().map_or(String::new(), |b| format!(", block = {b:?}"));
        let _ = write!(
            o,
            "pub mod p{index} {{\nuse vrt::*;\n#[derive(askama::Template)]\n#[template({path}{block}{})]\npub struct T<'a> {{ pub w: &'a World,",
            self.attr
        );
        for i in 0..self.fields {
            let _ = write!(o, " pub f{i}: Show,");
        }
        for i in 0..self.nums {
            let _ = write!(o, " pub n{i}: u32,");
        }
        for i in 0..self.lists {
            let _ = write!(o, " pub lst{i}: Vec<Show>,");
        }
        o.push_str(" }\nimpl<'a> T<'a> { vrt::methods!(); }\npub fn with(vs: Vs, f: &mut dyn FnMut(&dyn Prog)) {\nlet w = World::new(vs);\nlet t = T { w: &w,");
        for i in 0..self.fields {
            let _ = write!(o, " f{i}: w.field({i}),");
        }
        for i in 0..self.nums {
            let _ = write!(o, " n{i}: w.num_field({i}),");
        }
        for i in 0..self.lists {
            let _ = write!(o, " lst{i}: w.list_field({i}),");
        }
        o.push_str(" };\nf(&t)\n}\n}\n");
        o
    }
}
