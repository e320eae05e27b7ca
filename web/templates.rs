// The templates. Included by the harness of each framework, which defines `Template` and `Error`.

use vweb::values::{Vals, P};

mod filters {
    use std::fmt::Write;

    /// A filter that may fail
    pub fn checked<T: std::fmt::Display>(p: T) -> Result<String, super::Error> {
        vweb::ctx::op(4).map_err(|()| super::Error::Custom(Box::new(vweb::values::Failed)))?;
        let mut s = String::new();
        write!(s, "{p}")?;
        Ok(s)
    }
}

#[derive(Template)]
#[template(source = "PAGE<p>{{ v.a }}</p>{% for i in v.items %}<li>PAGE {{ i }}</li>{% endfor %}PAGE {{ v.b.get()? }} PAGEé", ext = "html")]
pub struct T0 {
    pub v: Vals,
}

#[derive(Template)]
#[template(source = "PAGE {{ v.a }} {{ v.b|checked }}\n{% if v.flag %}PAGE {{ v.n }}{% endif %}", ext = "txt")]
pub struct T1 {
    pub v: Vals,
}

#[derive(Template)]
#[template(source = "[\"PAGE\", {% for i in v.items %}\"{{ i }}\", {% endfor %}{{ v.n }}]", ext = "json", escape = "none")]
pub struct T2 {
    pub v: Vals,
}

#[derive(Template)]
#[template(source = "{% match v.opt %}{% when Some with (o) %}PAGE {{ o }}{% when None %}{% endmatch %}", ext = "html")]
pub struct T3<'a> {
    pub v: &'a Vals,
}

#[derive(Template)]
#[template(source = "{% macro m(x) %}PAGE {{ x }}/{{ x }}{% endmacro %}{% call m(v.a) %}{% call m(v.b.get()?) %}{% filter upper %}PAGE {{ v.b }}{% endfilter %}", ext = "svg")]
pub struct T4 {
    pub v: Vals,
}

#[derive(Template)]
#[template(source = "PAGE {{ t }}{{ t|lower }}", ext = "xml", escape = "none")]
pub struct T5<T: std::fmt::Display + Send + 'static> {
    pub t: T,
}

#[derive(Template)]
#[template(source = "PAGE {% block inner %}PAGE {{ v.a }}{% for i in v.items %}{{ loop.index }}{{ i.get()? }}{% endfor %}{% endblock %}", block = "inner", ext = "js", escape = "none")]
pub struct T6 {
    pub v: Vals,
}

#[derive(Template)]
#[template(source = "", ext = "css", escape = "none")]
pub struct T7;

/// An extension that stands for nothing, and a page with control characters at its ends
#[derive(Template)]
#[template(source = "\0\r\n{{ v.a }}PAGE\0{{ v.b }}\u{7f}\t\n\n\0", ext = "page-x", escape = "none")]
pub struct T8 {
    pub v: Vals,
}

#[derive(Template)]
#[template(source = "PAGE,\"{{ v.a }}\",{% for i in v.items %}{{ loop.index0 }},{{ i.get()? }}{% else %}none{% endfor %},,\r\n ", ext = "csv", escape = "none")]
pub struct T9 {
    pub v: std::sync::Arc<Vals>,
}

/// Calls `$f` with the template
macro_rules! with_template {
    ($n:expr, $v:expr, $f:path) => {{
        let v: Vals = $v;
        match $n {
            0 => $f(T0 { v }),
            1 => $f(T1 { v }),
            2 => $f(T2 { v }),
            3 => $f(T3 { v: &v }),
            4 => $f(T4 { v }),
            5 => $f(T5::<P> { t: v.a }),
            6 => $f(T6 { v }),
            7 => $f(T7),
            8 => $f(T8 { v }),
            _ => $f(T9 { v: std::sync::Arc::new(v) }),
        }
    }};
}

/// Without the framework
pub fn plain<T: Template>(t: T) -> Result<String, String> {
    t.render().map_err(|e| e.to_string())
}

/// As documented
pub fn mime(template: usize) -> &'static str {
    match template {
        0 | 3 => "text/html; charset=utf-8",
        1 => "text/plain; charset=utf-8",
        2 => "application/json",
        4 => "image/svg+xml",
        5 => T5::<P>::MIME_TYPE,
        6 => T6::MIME_TYPE,
        7 => "text/css; charset=utf-8",
        8 => "application/octet-stream",
        _ => "text/csv; charset=utf-8",
    }
}
