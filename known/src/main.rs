//! The inputs of the known findings. Prints what each of them yields: `id TAB result`

use std::cell::Cell;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

use askama::Template;

struct Pair {
    field: u32,
}

#[derive(Template)]
#[template(source = "{% macro m(a) %}{{ a }},{% if 1 < 2 %}{{ a }}{% endif %}{% endmacro %}{% call m(self.next().field) %}", ext = "txt")]
struct CallField {
    calls: Cell<u32>,
}

impl CallField {
    fn next(&self) -> Pair {
        self.calls.set(self.calls.get() + 1);
        Pair { field: self.calls.get() }
    }
}

#[derive(Template)]
#[template(
    source = "{% macro m(a) %}{% let x = 7 %}{{ a }},{{ x }}{% endmacro %}{% let x = 1 %}{% call m(x) %}",
    ext = "txt"
)]
struct Capture;

#[derive(Template)]
#[template(
    source = "{% macro m(a, b) %}{{ a }},{{ b }}{% endmacro %}{% let a = 1 %}{% call m(2 + 3, a) %}",
    ext = "txt"
)]
struct CaptureParameter;

struct Fails;

impl fmt::Display for Fails {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Err(fmt::Error)
    }
}

#[derive(Template)]
#[template(source = "{% for x in 0..2 if value|fmt(\"{}\") != \"\" %}{{ x }}{% endfor %}", ext = "txt")]
struct Condition {
    value: Fails,
}

fn show(id: &str, t: impl Template) {
    let result = match catch_unwind(AssertUnwindSafe(|| t.render())) {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => "error".into(),
        Err(_) => "panic".into(),
    };
    println!("{id}\t{result}");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    show("call-field", CallField { calls: Cell::new(0) });
    show("capture", Capture);
    show("capture-parameter", CaptureParameter);
    show("condition", Condition { value: Fails });
}
