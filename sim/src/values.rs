//! What the values of the simulated world are: pure functions of a seed and a key.
//!
//! The runtime (which feeds askama) and the reference model (which predicts the text) share these
//! functions, so that the model knows every text without observing askama.

use crate::rng::{mix, Rng};

/// The seed of all values of one render
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Vs {
    pub seed: u64,
    /// Short and simple texts in one piece, used to minimise a failing run
    pub plain: bool,
}

pub const K_SITE: u64 = 1;
pub const K_FIELD: u64 = 2;
pub const K_NUM: u64 = 3;
pub const K_LIST: u64 = 4;
pub const K_ITEM: u64 = 5;
pub const K_ITEM_SITE: u64 = 6;

/// The first of the sites which are evaluated without an argument
pub const TICK: u32 = 4_000_000_000;

/// It is not known which template evaluates it
pub fn tick(site: u32, occ: u32) -> Key {
    Key(mix(mix(0x71C4, site as u64), occ as u64), false)
}

impl Vs {
    /// The value of the expression `site`, when it is evaluated for the `occ`th time
    pub fn site(self, site: u32, occ: u32) -> Key {
        if site >= TICK {
            return tick(site, occ);
        }
        let r = mix(mix(mix(self.seed, K_SITE), site as u64), occ as u64);
        // Only the first evaluation may yield a long list, so that long loops are not nested
        let long = occ == 0 && !self.plain && (r >> 16) % 120 == 0;
        match (r & 0xFFFF == LONG, long) {
            (false, true) => Key(r & !0xFFFF | LONG, self.plain),
            (true, false) => Key(r ^ 1, self.plain),
            _ => Key(r, self.plain),
        }
    }

    pub fn field(self, i: usize) -> Key {
        Key(mix(mix(self.seed, K_FIELD), i as u64), self.plain)
    }

    pub fn num_field(self, i: usize) -> Key {
        Key(mix(mix(self.seed, K_NUM), i as u64), self.plain)
    }

    pub fn list_field(self, i: usize) -> Key {
        Key(mix(mix(self.seed, K_LIST), i as u64), self.plain)
    }
}

/// The end of the keys of long lists
const LONG: u64 = 0xA5A5;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Key(pub u64, pub bool);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Str,
    Chars,
    Args,
}

impl Key {
    pub fn child(self, kind: u64, n: u64) -> Key {
        Key(mix(mix(self.0, kind), n), self.1)
    }

    /// The `idx`th item of the iterator with this key
    pub fn item(self, idx: usize) -> Key {
        self.child(K_ITEM, idx as u64)
    }

    /// What the expression `site` yields for the item with this key
    pub fn item_site(self, site: u32) -> Key {
        self.child(K_ITEM_SITE, site as u64)
    }

    pub fn num(self) -> u32 {
        (mix(self.0, 11) % 5) as u32
    }

    /// A width or length
    pub fn size(self) -> usize {
        let r = mix(self.0, 20);
        match r % 16 {
            0 => [300, 10_000, 10_001, 65_536, 1 << 40, usize::MAX][(r >> 8) as usize % 6],
            1..=4 => (r >> 8) as usize % 200,
            _ => (r >> 8) as usize % 16,
        }
    }

    pub fn int(self) -> i32 {
        [0, 1, -1, -7, 42, i32::MAX, i32::MIN + 1, 1000][(mix(self.0, 21) % 8) as usize]
    }

    pub fn word(self) -> &'static str {
        crate::ast::WORDS[(mix(self.0, 22) % crate::ast::WORDS.len() as u64) as usize]
    }

    pub fn chr(self) -> char {
        crate::ast::CHARS[(mix(self.0, 23) % crate::ast::CHARS.len() as u64) as usize]
    }

    pub fn boolean(self) -> bool {
        mix(self.0, 12) % 100 < 55
    }

    pub fn some(self) -> bool {
        mix(self.0, 13) % 3 != 0
    }

    pub fn variant(self) -> u32 {
        (mix(self.0, 14) % 3) as u32
    }

    /// How many items the iterator with this key yields
    pub fn len(self) -> usize {
        let r = mix(self.0, 15);
        match (self.0 & 0xFFFF == LONG, (r >> 8) % 3) {
            (true, 0) => 12 + (r >> 32) as usize % 32,
            (true, _) => 250 + (r >> 32) as usize % 16,
            _ => [0, 1, 2, 3, 4, 2, 1, 5, 3, 0][(r % 10) as usize],
        }
    }

    /// A size hint that need not have anything to do with the length
    pub fn size_hint(self) -> (usize, Option<usize>) {
        let n = self.len();
        match mix(self.0, 16) % 8 {
            0 => (0, None),
            1 => (usize::MAX, Some(usize::MAX)),
            2 => (n, Some(n)),
            3 => (0, Some(0)),
            4 => (n + 1, Some(n + 1)),
            5 => (usize::MAX, Some(0)),
            6 => (n.saturating_sub(1), Some(n.saturating_sub(1))),
            _ => (3, None),
        }
    }

    /// The pieces in which the text of this value is written
    pub fn chunks(self) -> Vec<(Via, String)> {
        let mut rng = Rng::new(mix(self.0, 17));
        if self.1 {
            return vec![(Via::Str, format!("t{}", rng.below(100)))];
        }
        let class = rng.below(200);
        let (pieces, max) = match class {
            0..=11 => (0, 0),
            12..=110 => (rng.range(1, 3), 6),
            111..=190 => (rng.range(2, 6), 9),
            191..=198 => (rng.range(1, 4), 180),
            _ => (rng.range(2, 4), 4000),
        };
        let alphabet = rng.below(6);
        let mut out = Vec::new();
        for _ in 0..pieces {
            let via = match rng.below(6) {
                0 => Via::Chars,
                1 => Via::Args,
                _ => Via::Str,
            };
            let len = if rng.chance(1, 9) { 0 } else { rng.range(1, max) };
            let mut s = String::new();
            for _ in 0..len {
                push_piece(&mut rng, alphabet, &mut s);
            }
            if max > 0 && via != Via::Chars && rng.chance(1, 16) {
                push_run(&mut rng, &mut s);
            }
            out.push((via, s));
        }
        out
    }

    pub fn text(self) -> String {
        self.chunks().into_iter().map(|(_, s)| s).collect()
    }
}

const SPECIAL: &[&str] = &["<", ">", "&", "\"", "'"];
const SPACE: &[&str] = &[" ", "\n", "\n\n", "\t", "\r\n", "  ", "\u{a0}", "\u{3000}"];
const UNICODE: &[&str] = &[
    "é", "ß", "İ", "ı", "Σ", "ς", "σ", "ΑΣ", "ǆ", "ǅ", "ﬃ", "ŉ", "🦀", "中", "e\u{301}", "\u{2028}", "\u{feff}",
    "\u{0}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "Ⅷ", "ᾳ", "𐐀", "ö", "Ä",
];
const MARKUP: &[&str] = &[
    "<b>", "</b>", "&amp;", "&lt;", "<!--", "-->", "</script>", "%", "%20", "/", "?", "=", "+", "{", "}", "{{", "}}",
    "{%", "%}", "{}", "\\", "\\n", "`", "#", "<p></p>", "<br/>", "...", "~", "_", "-", ".", "!", "(", ")", ",", ";",
];
const WORDS: &[&str] = &["a", "b", "foo", "Bar", "baz", "QUX", "x", "Hello", "wORLD", "0", "7", "42"];

/// One character many times, about a power of two, and something special behind it
fn push_run(rng: &mut Rng, s: &mut String) {
    let c = *rng.pick(&["x", "x", "x", "Y", " ", "<", "'", "\n", "é", "中", "🦀"]);
    let n = (1usize << rng.weighted(&[0, 0, 4, 12, 16, 16, 12, 6, 2, 1])) + rng.below(4);
    s.push_str(&c.repeat(n - 2));
    if rng.chance(3, 4) {
        s.push_str(rng.pick(SPECIAL));
    }
}

fn push_piece(rng: &mut Rng, alphabet: usize, s: &mut String) {
    let weights: [u32; 5] = match alphabet {
        0 => [1, 1, 0, 0, 8],
        1 => [6, 1, 1, 1, 3],
        2 => [1, 5, 1, 0, 5],
        3 => [1, 2, 6, 0, 2],
        4 => [2, 1, 1, 6, 2],
        _ => [2, 2, 2, 2, 4],
    };
    s.push_str(match rng.weighted(&weights) {
        0 => rng.pick(SPECIAL),
        1 => rng.pick(SPACE),
        2 => rng.pick(UNICODE),
        3 => rng.pick(MARKUP),
        _ => rng.pick(WORDS),
    });
}

// JSON documents

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    /// A plain string
    Str(String),
    /// A string that is serialized piece by piece (`collect_str`)
    Show(Key),
    Char(char),
    Arr(Vec<J>),
    /// Fields in order; the keys are unique
    Obj(Vec<(String, J)>),
    Some(Box<J>),
    /// `{"name": value}`
    Variant(&'static str, Box<J>),
}

impl Key {
    pub fn json(self) -> J {
        let mut rng = Rng::new(mix(self.0, 18));
        if self.1 {
            return J::Arr(vec![J::Str("<x>".into()), J::U(1)]);
        }
        let depth = rng.range(0, 3);
        gen_json(&mut rng, depth, self)
    }
}

fn gen_json(rng: &mut Rng, depth: usize, key: Key) -> J {
    let n = if depth == 0 { rng.below(9) } else { rng.below(14) };
    match n {
        0 => J::Null,
        1 => J::Bool(rng.chance(1, 2)),
        2 => J::I(*rng.pick(&[0, -1, 1, i64::MIN, i64::MAX, -128, 65536])),
        3 => J::U(*rng.pick(&[0, 1, u64::MAX, 255, 1 << 53])),
        4 => J::F(*rng.pick(&[
            0.0, -0.5, 1.5, 1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, 0.1, f64::NAN, f64::INFINITY, 3.0, 1e16,
        ])),
        5 => J::Char(*rng.pick(&['<', '>', '&', '\'', '"', '\\', 'a', 'é', '\n', '\u{0}', '🦀', '\u{2028}'])),
        6 | 7 => J::Str(Key(rng.next(), false).text()),
        8 => J::Show(key.child(19, rng.next())),
        9 | 10 => {
            let n = rng.below(5);
            J::Arr((0..n).map(|_| gen_json(rng, depth - 1, key)).collect())
        }
        11 | 12 => {
            let n = rng.below(5);
            J::Obj(
                (0..n)
                    .map(|i| {
                        let mut k = Key(rng.next(), false).text();
                        k.truncate(k.char_indices().nth(12).map_or(k.len(), |(i, _)| i));
                        (format!("{k}{i}"), gen_json(rng, depth - 1, key))
                    })
                    .collect(),
            )
        }
        _ => match rng.chance(1, 2) {
            true => J::Some(Box::new(gen_json(rng, depth - 1, key))),
            false => J::Variant("Va'r<>&", Box::new(gen_json(rng, depth - 1, key))),
        },
    }
}

impl J {
    /// The document as `serde_json` value; `collect_str` strings are ordinary strings
    pub fn value(&self) -> serde_json::Value {
        use serde_json::Value;
        match self {
            J::Null => Value::Null,
            J::Bool(b) => Value::Bool(*b),
            J::I(n) => (*n).into(),
            J::U(n) => (*n).into(),
            J::F(n) => serde_json::Number::from_f64(*n).map_or(Value::Null, Value::Number),
            J::Str(s) => Value::String(s.clone()),
            J::Show(k) => Value::String(k.text()),
            J::Char(c) => Value::String(c.to_string()),
            J::Arr(a) => Value::Array(a.iter().map(J::value).collect()),
            J::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
            J::Some(v) => v.value(),
            J::Variant(n, v) => Value::Object([(n.to_string(), v.value())].into_iter().collect()),
        }
    }

    /// The documented result of the json filter
    pub fn filtered(&self) -> String {
        let mut out = String::new();
        self.pretty(0, &mut out);
        out.replace('&', "\\u0026")
            .replace('\'', "\\u0027")
            .replace('<', "\\u003c")
            .replace('>', "\\u003e")
    }

    // The keys have to stay in order, so this does not use `serde_json::Value`.
    fn pretty(&self, level: usize, out: &mut String) {
        let newline = |level: usize, out: &mut String| {
            out.push('\n');
            for _ in 0..level {
                out.push_str("  ");
            }
        };
        match self {
            J::Arr(a) if a.is_empty() => out.push_str("[]"),
            J::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    newline(level + 1, out);
                    v.pretty(level + 1, out);
                }
                newline(level, out);
                out.push(']');
            }
            J::Obj(o) if o.is_empty() => out.push_str("{}"),
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    newline(level + 1, out);
                    out.push_str(&serde_json::to_string(k).unwrap());
                    out.push_str(": ");
                    v.pretty(level + 1, out);
                }
                newline(level, out);
                out.push('}');
            }
            J::Some(v) => v.pretty(level, out),
            J::Variant(n, v) => J::Obj(vec![(n.to_string(), (**v).clone())]).pretty(level, out),
            other => out.push_str(&serde_json::to_string(&other.value()).unwrap()),
        }
    }
}
