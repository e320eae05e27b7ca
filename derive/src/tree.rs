//! Generates packages: template files, configuration, and items to derive.

use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use vsim::gen::{generate, Profile};
use vsim::rng::Rng;
use vsim::style::{Style, PLAIN};

use crate::vfs::{Fs, Node};

pub const PACKAGE: &str = "/simfs/pkg";

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Content {
    Text(String),
    Bytes(Vec<u8>),
    Link(String),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Tree {
    pub files: BTreeMap<String, Content>,
    /// What has a `#[derive(Template)]`
    pub items: Vec<String>,
}

impl Tree {
    pub fn fs(&self) -> Fs {
        let nodes = self
            .files
            .iter()
            .map(|(path, c)| {
                let node = match c {
                    Content::Text(s) => Node::File(Arc::new(s.clone().into_bytes())),
                    Content::Bytes(b) => Node::File(Arc::new(b.clone())),
                    Content::Link(to) => Node::Link(to.clone()),
                };
                (path.clone(), node)
            })
            .collect();
        Fs { nodes }
    }

    fn put(&mut self, path: String, text: impl Into<String>) {
        // A file cannot be a directory, too
        let mut at = 0;
        while let Some(i) = path[at + 1..].find('/') {
            at += i + 1;
            if self.files.contains_key(&path[..at]) {
                return;
            }
        }
        let prefix = format!("{path}/");
        if self.files.keys().any(|k| k.starts_with(&prefix)) {
            return;
        }
        self.files.insert(path, Content::Text(text.into()));
    }
}

pub struct Options {
    /// Also files that are no valid templates
    pub malformed: bool,
}

/// The names of files in the generated soups
const NAMES: &[&str] = &["a.html", "b.html", "c.txt", "d/a.html", "d/b.html", "e.html.j2", "d/d/a.html"];

pub fn generate_tree(rng: &mut Rng, options: &Options) -> Tree {
    let mut t = Tree::default();
    // Found by anyone who resolves paths relative to the working directory
    for dir in ["/simfs/cwd", "/simfs/cwd/templates", "/simfs", "/simfs/templates"] {
        t.put(format!("{dir}/p0/main.html"), "decoy");
        t.put(format!("{dir}/a.html"), "decoy");
    }
    t.put("/simfs/cwd/askama.toml".into(), "[general]\nwhitespace = \"suppress\"\n");

    let mut dirs = vec![format!("{PACKAGE}/templates")];
    let mut toml = None;
    let mut config_arg = "";
    let mut other = false;
    if rng.chance(2, 5) {
        let mut s = String::from("[general]\n");
        if rng.chance(2, 3) {
            dirs = (0..rng.range(1, 3)).map(|i| format!("{PACKAGE}/tpl{i}")).collect();
            let list: Vec<String> = (0..dirs.len()).map(|i| format!("\"tpl{i}\"")).collect();
            s += &format!("dirs = [{}]\n", list.join(", "));
        }
        if rng.chance(1, 6) {
            other = true;
            s += "default_syntax = \"other\"\n";
        }
        if rng.chance(1, 3) {
            s += &format!("whitespace = \"{}\"\n", rng.pick(&["preserve", "suppress", "minimize"]));
        }
        if rng.chance(1, 4) {
            s += "[[escaper]]\npath = \"::my::Escaper\"\nextensions = [\"my\", \"html\"]\n";
        }
        if rng.chance(1, 4) {
            s += "[[escaper]]\npath = \"::other::Escaper\"\nextensions = [\"html\", \"txt\", \"js\"]\n";
        }
        if rng.chance(1, 4) {
            s += "[[syntax]]\nname = \"alt\"\nblock_start = \"<%\"\nblock_end = \"%>\"\nexpr_start = \"<<\"\nexpr_end = \">>\"\n";
        }
        if other {
            s += OTHER;
        }
        toml = Some(s);
    }
    if let Some(toml) = toml {
        match rng.chance(1, 3) {
            true => {
                t.put(format!("{PACKAGE}/conf/askama.toml"), toml);
                config_arg = ", config = \"conf/askama.toml\"";
                if rng.chance(1, 2) {
                    t.put(format!("{PACKAGE}/askama.toml"), "[general]\nwhitespace = \"suppress\"\ndirs = [\"no\"]\n");
                }
            }
            false => t.put(format!("{PACKAGE}/askama.toml"), toml),
        }
    }

    for i in 0..rng.range(1, 2) {
        match rng.weighted(&[10, 5, if options.malformed { 6 } else { 3 }, if options.malformed { 5 } else { 0 }, if options.malformed { 3 } else { 0 }]) {
            4 => {
                let mut text = String::from("text");
                for _ in 0..rng.range(1, 3) {
                    text += &mistakes(rng);
                }
                t.put(format!("{}/e{i}.html", dirs[0]), text);
                t.items.push(format!("#[template(path = \"e{i}.html\"{config_arg})] struct E{i};"));
            }
            0 => program(rng, &mut t, &dirs, i, config_arg, other),
            3 => {
                t.put(format!("{}/s{i}.html", dirs[0]), nasty(rng));
                t.items.push(format!("#[template(path = \"s{i}.html\"{config_arg})] struct N{i};"));
            }
            2 => graph(rng, &mut t, &dirs[0], i, config_arg),
            _ => soup(rng, &mut t, &dirs, i, config_arg, options),
        }
    }
    if rng.chance(1, 8) {
        // One of the files is a link to a file elsewhere
        let paths: Vec<String> = t.files.keys().filter(|k| k.starts_with(PACKAGE)).cloned().collect();
        let path = rng.pick(&paths).clone();
        let to = format!("/simfs/real/{}", path.rsplit_once('/').unwrap().1);
        if let Some(c) = t.files.remove(&path) {
            t.files.insert(to.clone(), c);
            t.files.insert(path, Content::Link(to));
        }
    }
    if options.malformed {
        for _ in 0..rng.weighted(&[6, 4, 2, 1]) {
            corrupt(rng, &mut t);
        }
    }
    t
}

/// The delimiters that templates can be written with
const OTHER: &str = "[[syntax]]
name = \"other\"
block_start = \"<[\"
block_end = \"]>\"
expr_start = \"$((\"
expr_end = \"))$\"
comment_start = \"/**\"
comment_end = \"**/\"
";

/// A valid family of templates
fn program(rng: &mut Rng, t: &mut Tree, dirs: &[String], i: usize, config: &str, other: bool) {
    let name = *rng.pick(&["C12", "C13", "C13", "C13", "C14"]);
    let mut profile = Profile::named(name);
    profile.budget = (4, 18);
    let p = generate(rng.next(), &profile);
    let style = Style { other, ..p.style };
    let home = rng.pick(dirs).clone();
    for (n, f) in p.files.iter().enumerate() {
        // References are relative to the file, or to any of the directories
        let leaf = f.extends.is_none() && f.imports.is_empty() && !f.source(PLAIN).contains("include \"");
        let elsewhere = n != p.main && leaf && rng.chance(1, 4) && !f.path.contains("..") && !f.path.contains('/');
        let path = match elsewhere {
            true => format!("{}/{}", rng.pick(dirs), f.path),
            false => format!("{home}/p{i}/{}", f.path),
        };
        if t.files.contains_key(&path) {
            t.put(format!("{home}/p{i}/{}", f.path), f.source(style));
            continue;
        }
        t.put(path, f.source(style));
        if !elsewhere && rng.chance(1, 5) && !f.path.contains('/') {
            // Must not be used, because the relative one exists
            let decoy = format!("{}/{}", rng.pick(dirs), f.path);
            if !t.files.contains_key(&decoy) {
                t.put(decoy, "decoy");
            }
        }
    }
    let block = p.block.as_ref().map_or(String::new(), |b| format!(", block = {b:?}"));
    let main = &p.files[p.main];
    let item = match rng.chance(1, 5) && !main.source(style).contains("\"") {
        true => format!(
            "#[template(source = {:?}, ext = \"html\"{block}{config})] struct T{i}<'a> {{ w: &'a u8 }}",
            main.source(style)
        ),
        false => format!("#[template(path = \"p{i}/{}\"{block}{config})] struct T{i}<'a> {{ w: &'a u8 }}", main.path),
    };
    t.items.push(item);
}

/// Templates that refer to each other, often in a circle
fn graph(rng: &mut Rng, t: &mut Tree, home: &str, i: usize, config: &str) {
    let n = rng.range(1, 5);
    let dir = |k: usize| ["u", "v", "v/w"][k % 3];
    let path = |k: usize| format!("g{i}/{}/n{k}.html", dir(k));
    for k in 0..n {
        let up = "../".repeat(dir(k).matches('/').count() + 1);
        let mut text = String::new();
        // Mostly to later ones, which is no circle
        let other = |rng: &mut Rng| {
            let back = rng.chance(1, 5) || k + 1 == n;
            let to = if back { rng.below(n) } else { rng.range(k + 1, n - 1) };
            match rng.below(4) {
                0 => path(to),
                1 => format!("{up}{}/../{}/n{to}.html", dir(rng.below(n)), dir(to)),
                _ => format!("{up}{}/n{to}.html", dir(to)),
            }
        };
        if rng.chance(1, 2) && k + 1 < n || rng.chance(1, 8) {
            text += &format!("{{% extends {:?} %}}", other(rng));
        }
        let mut imports = 0;
        for _ in 0..rng.below(3) {
            if k + 1 < n || rng.chance(1, 6) {
                text += &format!("{{% import {:?} as i{imports} %}}", other(rng));
                imports += 1;
            }
        }
        let own = rng.chance(1, 5);
        if own {
            text += &format!("{{% import \"n{k}.html\" as own %}}");
        }
        text += &format!("{{% macro m{k}() %}}M{k}");
        if rng.chance(1, 3) {
            text += &format!("{{% call m{}() %}}", rng.below(n));
        }
        text += "{% endmacro %}";
        if own {
            text += &format!("{{% call own::m{k}() %}}");
        }
        for _ in 0..rng.below(4) {
            match rng.below(4) {
                0 if imports > 0 => {
                    text += &format!("{{% call i{}::m{}() %}}", rng.below(imports), rng.below(n));
                }
                1 => text += &format!("{{% block b{} %}}B{k}{{% endblock %}}", rng.below(3)),
                2 if k + 1 < n || rng.chance(1, 6) => text += &format!("{{% include {:?} %}}", other(rng)),
                _ => text += "t",
            }
        }
        t.put(format!("{home}/{}", path(k)), text);
    }
    t.items.push(format!("#[template(path = {:?}{config})] struct G{i};", path(0)));
}

/// Random nodes
fn soup(rng: &mut Rng, t: &mut Tree, dirs: &[String], i: usize, config: &str, options: &Options) {
    for _ in 0..rng.range(2, 7) {
        let name = *rng.pick(NAMES);
        let path = format!("{}/{name}", rng.pick(dirs));
        let mut text = String::new();
        if rng.chance(1, 3) {
            text += &format!("{{% extends {:?} %}}", rng.pick(NAMES));
        }
        nodes(rng, &mut text, 0, true, options);
        t.put(path, text);
    }
    let name = *rng.pick(NAMES);
    let home = &dirs[0];
    if !t.files.contains_key(&format!("{home}/{name}")) {
        let mut text = String::new();
        nodes(rng, &mut text, 0, true, options);
        t.put(format!("{home}/{name}"), text);
    }
    let mut args = String::new();
    if rng.chance(1, 6) {
        args += &format!(", block = \"{}\"", rng.pick(&["x", "y", "z"]));
    }
    if rng.chance(1, 10) {
        args += &format!(", escape = \"{}\"", rng.pick(&["none", "html", "nope"]));
    }
    if rng.chance(1, 10) {
        args += &format!(", whitespace = \"{}\"", rng.pick(&["suppress", "minimize", "nope"]));
    }
    if options.malformed && rng.chance(1, 10) {
        args += rng.pick(&[", syntax = \"alt\"", ", ext = \"\"", ", path = 5", ", print = \"x\"", ", block", ", config = \"no\""]);
    }
    let item = match rng.chance(1, 4) {
        _ if options.malformed && rng.chance(1, 25) => {
            let what = *rng.pick(&["ext = \"html\"", "source = \"x\"", "path = \"a.html\", source = \"x\", ext = \"txt\"", "path = \"\""]);
            format!("#[template({what}{args}{config})] struct S{i};")
        }
        true => {
            let mut text = String::new();
            if rng.chance(1, 2) {
                text += &format!("{{% extends {:?} %}}", rng.pick(NAMES));
            }
            nodes(rng, &mut text, 0, true, options);
            format!("#[template(source = {text:?}, ext = \"html\"{args}{config})] struct S{i} {{ a: u8 }}")
        }
        false => format!("#[template(path = {name:?}{args}{config})] struct S{i}<T: Copy> where T: Clone {{ a: T }}"),
    };
    t.items.push(item);
}

fn nodes(rng: &mut Rng, o: &mut String, depth: usize, top: bool, options: &Options) {
    for _ in 0..rng.range(1, if depth == 0 { 6 } else { 3 }) {
        let deep = depth < 3;
        match rng.weighted(&[
            8,
            6,
            5,
            if top { 3 } else { 0 },
            if top && deep { 3 } else { 0 },
            if deep { 4 } else { 0 },
            if deep { 3 } else { 0 },
            if deep { 3 } else { 0 },
            if deep { 2 } else { 0 },
            if deep { 2 } else { 0 },
            3,
            2,
            2,
            1,
        ]) {
            0 => o.push_str(rng.pick(&["text", " x ", "\n", "<b>", "{", "é", "\\", "\""])),
            1 => o.push_str(&format!("{{{{ {} }}}}", expr(rng))),
            2 => o.push_str(&format!("{{% include {:?} %}}", rng.pick(NAMES))),
            3 => o.push_str(&format!("{{% import {:?} as {} %}}", rng.pick(NAMES), rng.pick(&["m", "n"]))),
            4 => {
                let name = *rng.pick(&["f", "g"]);
                o.push_str(&format!("{{% macro {name}(p, q) %}}"));
                nodes(rng, o, depth + 1, false, options);
                o.push_str("{% endmacro %}");
            }
            5 => {
                let name = *rng.pick(&["x", "y", "z"]);
                o.push_str(&format!("{{% block {name} %}}"));
                nodes(rng, o, depth + 1, false, options);
                o.push_str("{% endblock %}");
            }
            6 => {
                o.push_str(&format!("{{% if {} %}}", expr(rng)));
                nodes(rng, o, depth + 1, false, options);
                if rng.chance(1, 2) {
                    o.push_str("{% else %}");
                    nodes(rng, o, depth + 1, false, options);
                }
                o.push_str("{% endif %}");
            }
            7 => {
                o.push_str(&format!("{{% for v in {} %}}", expr(rng)));
                nodes(rng, o, depth + 1, false, options);
                o.push_str("{% endfor %}");
            }
            8 => {
                o.push_str(&format!("{{% match {} %}}{{% when Some with (v) %}}", expr(rng)));
                nodes(rng, o, depth + 1, false, options);
                o.push_str("{% else %}");
                nodes(rng, o, depth + 1, false, options);
                o.push_str("{% endmatch %}");
            }
            9 => {
                o.push_str(&format!("{{% filter {} %}}", rng.pick(&["upper", "trim|lower", "indent(2)", "json"])));
                nodes(rng, o, depth + 1, false, options);
                o.push_str("{% endfilter %}");
            }
            10 => {
                let scope = *rng.pick(&["", "", "m::", "n::"]);
                let args = *rng.pick(&[
                    "a, 1", "v, a", "q = 1, p = 2", "1", "1, 2, 3", "loop.index, a", "x = 1, y = 2", "a, y = 2",
                    "",
                ]);
                o.push_str(&format!("{{% call {scope}{}({args}) %}}", rng.pick(&["f", "g", "super", "h"])));
            }
            11 => o.push_str(&format!("{{% let {} = {} %}}", rng.pick(&["v", "a", "(v, w)", "v2"]), expr(rng))),
            12 => o.push_str(rng.pick(&[
                "{{ super() }}",
                "{%- call super() ~%}",
                "{# comment #}",
                "{% raw %}{{ x }}{% endraw %}",
                "{% let w %}",
                "{% break %}",
                "{% continue %}",
            ])),
            _ if options.malformed => o.push_str(&nasty(rng)),
            _ => o.push('.'),
        }
    }
}

/// Parts of the arguments of a Rust macro
const TOKENS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "'", "\"", "a", ", ", "'a", "'('", "'\\''", "/*", "*/", "//", "r#\"", "\"#", "\\", " ", "#",
    "\"[\"", "\"\\\"\"", "[a]", "{ b }", "é", "1",
];

fn expr(rng: &mut Rng) -> String {
    const E: &[&str] = &[
        "a", "v", "self.a", "a.b", "a.b()?", "a[0]", "a + 1", "!a", "a|upper", "a|json", "a|escape(\"html\")", "1..2",
        "\"x\"", "loop.index", "loop.cycle([1, 2])", "a && b || c", "\"{}\"|format(a)", "a|join(\", \")", "a|mine(1)?",
        "(a, b)", "[a, 1]", "crate::X", "x::y()", "p", "a as u8", "a|truncate(3)|safe", "a|fmt(\"{:?}\")", "super()",
        "mac!(a, [1, ')'], { \"(\" })",
    ];
    (*rng.pick(E)).to_owned()
}

/// Things that might upset a parser or a generator
fn nasty(rng: &mut Rng) -> String {
    if rng.chance(1, 3) {
        let args: Vec<&str> = (0..rng.range(1, 6)).map(|_| *rng.pick(TOKENS)).collect();
        return format!("{{{{ mac!({}) }}}}", args.concat());
    }
    // Blocks may be nested up to 128 times
    let n = *rng.pick(&[3, 40, 110, 112, 130, 400, 3000, 6000]);
    match rng.below(16) {
        0 => "{% if a %}".repeat(n) + "some text" + &"{% endif %}".repeat(n),
        1 => format!("{{{{ {}a{} }}}}", "(".repeat(n), ")".repeat(n)),
        2 => format!("{{{{ a{} }}}}", ".b".repeat(n)),
        3 => format!("{{{{ a{} }}}}", " + a".repeat(n)),
        4 => format!("{{{{ a{} }}}}", "|upper".repeat(n)),
        5 => format!("{{{{ {}a }}}}", "!".repeat(n)),
        6 => "{#".repeat(n) + &"#}".repeat(n),
        7 => "{% for v in a %}".repeat(n) + "some text" + &"{% endfor %}".repeat(n),
        8 => format!("{{{{ a{} }}}}", "[0]".repeat(n)),
        9 => format!("{{{{ a{} }}}}", "()".repeat(n)),
        10 => "{% filter upper %}".repeat(n) + "some text" + &"{% endfilter %}".repeat(n),
        11 => "{% match a %}{% when b %}".repeat(n) + "some text" + &"{% endmatch %}".repeat(n),
        12 => "{% block ".to_owned(),
        13 => "{{ \"unclosed }}".to_owned(),
        14 => format!("{{% let {} = 1 %}}", "v".repeat(n)),
        _ => format!("{{% include {:?} %}}", "x/".repeat(n.min(400))),
    }
}

/// Several mistakes, of which any might be reported
fn mistakes(rng: &mut Rng) -> String {
    const MACRO: &str = "{% macro vm(p, q) %}{{ p }}{% endmacro %}";
    match rng.below(8) {
        7 => "{% macro e4(a, b, c, d) %}{% endmacro %}{% call e4(1, f = 2, e = 3, g = 4) %}".into(),
        0 => format!("{MACRO}{{% call vm(x = 1, y = 2) %}}"),
        1 => format!("{MACRO}{{% call vm(1, x = 2) %}}"),
        2 => format!("{MACRO}{{% call vm() %}}{{% call vm(q = 1, p = 2, q = 3) %}}"),
        3 => "{% import \"no1.html\" as e1 %}{% import \"no2.html\" as e2 %}{% import \"no3.html\" as e3 %}".into(),
        4 => "{% include \"no1.html\" %}{% include \"no2.html\" %}{% call e1::x() %}{% call no2() %}".into(),
        5 => "{% block e1 %}{% include \"no1.html\" %}{% endblock %}{% block e2 %}{% call no1() %}{% endblock %}\
              {% block e3 %}{{ super() }}{% endblock %}"
            .into(),
        _ => "{% macro e1() %}{% call no1() %}{% endmacro %}{% macro e2() %}{% call no2() %}{% endmacro %}\
              {% call e1() %}{% call e2() %}"
            .into(),
    }
}

pub fn corrupt(rng: &mut Rng, t: &mut Tree) {
    let paths: Vec<String> = t.files.keys().filter(|k| k.starts_with(PACKAGE)).cloned().collect();
    if paths.is_empty() {
        return;
    }
    let path = rng.pick(&paths).clone();
    let mut bytes = match &t.files[&path] {
        Content::Text(s) => s.clone().into_bytes(),
        Content::Bytes(b) => b.clone(),
        Content::Link(_) => {
            t.files.insert(path.clone(), Content::Link(rng.pick(&[path.as_str(), "nowhere", "..", "/"]).to_string()));
            return;
        }
    };
    match rng.below(13) {
        0 => {
            let n = rng.below(bytes.len() + 1);
            bytes.truncate(n);
        }
        1 if !bytes.is_empty() => {
            let at = rng.below(bytes.len());
            bytes[at] = rng.next() as u8;
        }
        2 => {
            let at = rng.below(bytes.len() + 1);
            bytes.splice(at..at, [*rng.pick(b"\0\xff\xc3")]);
        }
        3 => {
            bytes.splice(0..0, *b"\xef\xbb\xbf");
        }
        4 => {
            t.files.remove(&path);
            return;
        }
        5 => {
            // A directory instead of a file
            t.files.remove(&path);
            t.put(format!("{path}/x"), "");
            return;
        }
        6 => {
            let other = rng.pick(&paths).clone();
            let c = t.files.get(&other).cloned();
            if let Some(c) = c {
                t.files.insert(path, c);
            }
            return;
        }
        7 | 12 => {
            let add = match rng.chance(1, 2) {
                true => nasty(rng),
                false => mistakes(rng),
            };
            let text = String::from_utf8_lossy(&bytes).into_owned();
            // Mostly where it might be accepted
            let ends: Vec<usize> = text.match_indices("%}").map(|(i, _)| i + 2).collect();
            let at = match ends.is_empty() {
                true => 0,
                false => *rng.pick(&ends),
            };
            bytes = format!("{}{add}{}", &text[..at], &text[at..]).into_bytes();
        }
        8 => {
            // A cycle
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let other = rng.pick(&paths).clone();
            let add = match rng.below(3) {
                0 => format!("{{% include {other:?} %}}"),
                1 => format!("{{% extends {other:?} %}}"),
                _ => format!("{{% import {other:?} as cyc %}}"),
            };
            bytes = match rng.chance(1, 2) {
                true => format!("{add}{text}"),
                false => format!("{text}{add}"),
            }
            .into_bytes();
        }
        9 => {
            let n = rng.below(bytes.len() + 1);
            let tail = bytes[n..].to_vec();
            bytes.extend(tail);
        }
        10 => bytes.clear(),
        _ => {
            let text = String::from_utf8_lossy(&bytes).replace('\n', "\r\n");
            bytes = text.into_bytes();
        }
    }
    let content = match String::from_utf8(bytes) {
        Ok(s) => Content::Text(s),
        Err(e) => Content::Bytes(e.into_bytes()),
    };
    t.files.insert(path, content);
}
