//! Calls the filters and the escaping directly, with values that come in pieces and fail.

use std::fmt::{self, Display, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

use askama::filters as f;
use askama_escape::{Html, MarkupDisplay, Text};
use serde::{Deserialize, Serialize};
use vsim::ast::F;
use vsim::model::{escape_html, filter_text};
use vsim::rng::Rng;
use vsim::values::{Key, Vs};

use crate::ctx::{self, Ctx, Fault, Op};
use crate::exec::SimSink;
use crate::world::{Js, Show};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    Upper,
    Lower,
    Uppercase,
    Lowercase,
    Capitalize,
    Title,
    Trim,
    Truncate(usize),
    Indent(usize),
    Center(usize),
    Wordcount,
    Linebreaks,
    LinebreaksBr,
    Paragraphbreaks,
    Urlencode,
    UrlencodeStrict,
    Join,
    Escape(bool),
    Safe(bool),
    /// `askama_escape::escape()`
    EscapeStr(bool),
    MarkSafe,
    Json,
    /// Two filters, one after the other
    Chain(Box<Call>, Box<Call>),
}

impl Call {
    pub fn pick(rng: &mut Rng, property: &str) -> Call {
        match property {
            "C08" => match rng.below(8) {
                0..=2 => Call::EscapeStr(rng.chance(5, 6)),
                3 | 4 => Call::Escape(true),
                5 => Call::Escape(false),
                6 => Call::Safe(rng.chance(1, 2)),
                _ => Call::MarkSafe,
            },
            "C10" => Call::Json,
            _ => match rng.chance(1, 4) {
                true => Call::Chain(Box::new(Call::filter(rng)), Box::new(Call::filter(rng))),
                false => match rng.chance(1, 12) {
                    true => Call::Join,
                    false => Call::filter(rng),
                },
            },
        }
    }

    fn filter(rng: &mut Rng) -> Call {
        match rng.below(16) {
            0 => Call::Upper,
            1 => Call::Lower,
            2 => Call::Uppercase,
            3 => Call::Lowercase,
            4 => Call::Capitalize,
            5 => Call::Title,
            6 => Call::Trim,
            7 => Call::Truncate(*rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 20, 40, 100, 500, usize::MAX])),
            8 => Call::Indent(*rng.pick(&[0, 1, 2, 4, 7, 300, 3000, 6000, 9_999, 10_000, usize::MAX])),
            9 => Call::Center(*rng.pick(&[0, 1, 2, 5, 8, 13, 21, 40, 100, 1000, 3000, 6000, 9_999, 10_000, usize::MAX])),
            10 => Call::Wordcount,
            11 => Call::Linebreaks,
            12 => Call::LinebreaksBr,
            13 => Call::Paragraphbreaks,
            14 => Call::Urlencode,
            _ => Call::UrlencodeStrict,
        }
    }

    fn expected(&self, key: Key) -> String {
        match self {
            Call::Chain(a, b) => b.of_text(&a.expected(key)),
            Call::Join => {
                let sep = key.child(77, 0).text();
                let parts: Vec<String> = (0..key.len()).map(|i| key.item(i).text()).collect();
                parts.join(&sep)
            }
            Call::Json => key.json().filtered(),
            Call::MarkSafe => key.text(),
            c => c.of_text(&key.text()),
        }
    }

    fn of_text(&self, s: &str) -> String {
        let f = match self {
            Call::Upper | Call::Uppercase => F::Upper,
            Call::Lower | Call::Lowercase => F::Lower,
            Call::Capitalize => F::Capitalize,
            Call::Title => F::Title,
            Call::Trim => F::Trim,
            Call::Truncate(n) => F::Truncate(*n),
            Call::Indent(n) => F::Indent(*n),
            Call::Center(n) => F::Center(*n),
            Call::Wordcount => F::Wordcount,
            Call::Linebreaks => F::Linebreaks,
            Call::LinebreaksBr => F::LinebreaksBr,
            Call::Paragraphbreaks => F::Paragraphbreaks,
            Call::Urlencode => F::Urlencode,
            Call::UrlencodeStrict => F::UrlencodeStrict,
            Call::Escape(true) | Call::EscapeStr(true) => return escape_html(s),
            Call::Escape(false) | Call::EscapeStr(false) | Call::Safe(_) | Call::MarkSafe => return s.to_owned(),
            Call::Join | Call::Json | Call::Chain(..) => unreachable!(),
        };
        filter_text(s, &f)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Direct {
    pub call: Call,
    pub value: u64,
    pub plain: bool,
    /// The result is displayed so often
    pub times: usize,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(usize, Fault)>,
}

#[derive(Debug)]
struct Failed;

impl<E: std::error::Error> From<E> for Failed {
    fn from(_: E) -> Self {
        Failed
    }
}

/// Displays the result so often; each time either completely or with an error
fn show(v: impl Display, times: usize, sinks: &mut [SimSink]) -> Result<(), Failed> {
    let mut failed = false;
    for sink in &mut sinks[..times] {
        failed |= write!(sink, "{v}").is_err();
        if failed {
            break;
        }
    }
    match failed {
        true => Err(Failed),
        false => Ok(()),
    }
}

fn apply(call: &Call, v: impl Display, times: usize, sinks: &mut [SimSink]) -> Result<(), Failed> {
    match call {
        Call::Upper => show(f::upper(v)?, times, sinks),
        Call::Lower => show(f::lower(v)?, times, sinks),
        Call::Uppercase => show(f::uppercase(v)?, times, sinks),
        Call::Lowercase => show(f::lowercase(v)?, times, sinks),
        Call::Capitalize => show(f::capitalize(v)?, times, sinks),
        Call::Title => show(f::title(v)?, times, sinks),
        Call::Trim => show(f::trim(v)?, times, sinks),
        Call::Truncate(n) => show(f::truncate(v, *n)?, times, sinks),
        Call::Indent(n) => show(f::indent(v, *n)?, times, sinks),
        Call::Center(n) => show(f::center(v, *n)?, times, sinks),
        Call::Wordcount => show(f::wordcount(v)?, times, sinks),
        Call::Linebreaks => show(f::linebreaks(v)?, times, sinks),
        Call::LinebreaksBr => show(f::linebreaksbr(v)?, times, sinks),
        Call::Paragraphbreaks => show(f::paragraphbreaks(v)?, times, sinks),
        Call::Urlencode => show(f::urlencode(v)?, times, sinks),
        Call::UrlencodeStrict => show(f::urlencode_strict(v)?, times, sinks),
        Call::Escape(true) => show(f::escape(Html, v)?, times, sinks),
        Call::Escape(false) => show(f::e(Text, v)?, times, sinks),
        Call::Safe(true) => show(f::safe(Html, v)?, times, sinks),
        Call::Safe(false) => show(f::safe(Text, v)?, times, sinks),
        Call::MarkSafe => show(MarkupDisplay::new_unsafe(v, Html).mark_safe(), times, sinks),
        _ => unreachable!(),
    }
}

fn first(call: &Call, v: impl Display) -> Result<Box<dyn Display>, Failed> {
    // The intermediate result is kept as string where its type borrows nothing
    let mut s = [SimSink::default()];
    // Not a sink of the simulation
    struct Plain(String);
    impl Display for Plain {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    apply(call, v, 1, &mut s)?;
    let [s] = s;
    Ok(Box::new(Plain(s.buf)))
}

fn call(d: &Direct, key: Key, sinks: &mut [SimSink]) -> Result<(), Failed> {
    match &d.call {
        Call::Chain(a, b) => {
            let v = Show(key);
            // Truncation and centering are lazy: they are chained without an intermediate text
            match &**a {
                Call::Truncate(n) => apply(b, f::truncate(v, *n)?, d.times, sinks),
                Call::Center(n) => apply(b, f::center(v, *n)?, d.times, sinks),
                Call::Urlencode => apply(b, f::urlencode(v)?, d.times, sinks),
                Call::Upper => apply(b, f::upper(v)?, d.times, sinks),
                Call::Linebreaks => apply(b, f::linebreaks(v)?, d.times, sinks),
                Call::Capitalize => apply(b, f::capitalize(v)?, d.times, sinks),
                Call::Title => apply(b, f::title(v)?, d.times, sinks),
                Call::Trim => apply(b, f::trim(v)?, d.times, sinks),
                a => apply(b, first(a, v)?, d.times, sinks),
            }
        }
        Call::Join => {
            let items = (0..key.len()).map(|i| Show(key.item(i)));
            show(f::join(items, Show(key.child(77, 0)))?, d.times, sinks)
        }
        Call::Json => show(f::json(Js(key))?, d.times, sinks),
        Call::EscapeStr(html) => {
            let s = key.text();
            match html {
                true => show(askama_escape::escape(&s, Html), d.times, sinks),
                false => show(askama_escape::escape(&s, Text), d.times, sinks),
            }
        }
        c => apply(c, Show(key), d.times, sinks),
    }
}

pub struct DirectOutcome {
    pub ops: Vec<Op>,
    pub fired: Vec<(usize, Op, String)>,
    pub violation: Option<String>,
    pub hash: u64,
}

pub fn run(d: &Direct) -> DirectOutcome {
    let key = Vs { seed: d.value, plain: d.plain }.site(1, 0);
    let mut sinks: Vec<SimSink> = (0..d.times).map(|_| SimSink::default()).collect();
    let depth = ctx::depth();
    ctx::push(Ctx {
        faults: d.faults.clone(),
        nonce: d.value,
        ..Ctx::default()
    });
    let result = catch_unwind(AssertUnwindSafe(|| call(d, key, &mut sinks)));
    ctx::truncate(depth + 1);
    let c = ctx::pop();
    let expected = d.call.expected(key);
    let injected_panic = matches!(c.failed, Some((_, _, Fault::Panic)));
    let mut violation = None;
    match &result {
        Err(payload) => {
            if !injected_panic || ctx::panic_nonce(&**payload).is_none() {
                let msg = match (payload.downcast_ref::<&str>(), payload.downcast_ref::<String>()) {
                    (Some(s), _) => s.to_string(),
                    (_, Some(s)) => s.clone(),
                    _ => String::new(),
                };
                violation = Some(format!("{:?} panicked: {msg}", d.call));
            }
        }
        Ok(Ok(())) if c.failed.is_some() => {
            violation = Some(format!("{:?} succeeded although {:?} failed", d.call, c.failed.as_ref().unwrap().1))
        }
        Ok(Err(Failed)) if c.failed.is_none() => violation = Some(format!("{:?} failed without reason", d.call)),
        _ => {}
    }
    if violation.is_none() {
        for (i, sink) in sinks.iter().enumerate() {
            let complete = c.failed.is_none();
            if complete && sink.buf != expected || !complete && !expected.starts_with(&sink.buf) {
                violation = Some(format!(
                    "{:?} displayed ({}. time, {}) {:?} instead of {:?} for {:?}",
                    d.call,
                    i + 1,
                    if complete { "no failure" } else { "up to the failure" },
                    clip(&sink.buf),
                    clip(&expected),
                    clip(&key.text())
                ));
                break;
            }
            if d.call == Call::Json && complete {
                if let Some(v) = json_problem(&sink.buf, key) {
                    violation = Some(v);
                    break;
                }
            }
        }
    }
    if violation.is_none() && c.after.iter().any(|o| o.is_sink()) {
        violation = Some(format!("{:?} went on writing after the failure", d.call));
    }
    let hash = c.ops.iter().fold(vsim::rng::mix_str(3, &format!("{:?}", d.call)), |h, op| {
        vsim::rng::mix(h, op.hash())
    });
    DirectOutcome {
        ops: c.ops,
        fired: c.fired,
        violation,
        hash,
    }
}

/// The document denotes the value, and cannot end a script element
pub fn json_problem(s: &str, key: Key) -> Option<String> {
    if let Some(c) = s.chars().find(|c| "<>&'".contains(*c)) {
        return Some(format!("the json contains {c:?}: {:?}", clip(s)));
    }
    match serde_json::from_str::<serde_json::Value>(s) {
        Err(e) => Some(format!("the json is invalid ({e}): {:?}", clip(s))),
        Ok(v) if v != reparsed(key) => Some(format!("the json denotes another value: {:?}", clip(s))),
        Ok(_) => None,
    }
}

fn reparsed(key: Key) -> serde_json::Value {
    let s = serde_json::to_string(&key.json().value()).unwrap();
    serde_json::from_str(&s).unwrap()
}

pub fn clip(s: &str) -> String {
    match s.char_indices().nth(160) {
        Some((i, _)) => format!("{}…", &s[..i]),
        None => s.to_owned(),
    }
}
