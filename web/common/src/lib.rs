//! Simulated requests to a web application: what is the same for all frameworks.

pub mod case;
pub mod ctx;
pub mod explore;
pub mod run;
pub mod values;

/// How a template is turned into a response
pub type Body = Box<dyn FnMut(usize) -> Option<Result<Vec<u8>, String>>>;

pub struct Page {
    pub status: u16,
    pub content_types: Vec<String>,
    /// As announced
    pub length: Option<u64>,
    /// Yields what comes next, about so many bytes
    pub body: Body,
}

pub enum Answer {
    Page(Page),
    /// Of a fallible function
    Error(String),
}

/// How many templates there are in `templates.rs`
pub const TEMPLATES: usize = 10;

/// A web framework, with an application that serves the templates; everything happens on one thread
pub trait Web {
    /// Whether a request can be served by an application while the same thread serves another one
    const NESTS: bool = true;

    fn new() -> Self;
    fn serve(&mut self, entry: case::Entry, template: usize, values: values::Vals) -> Answer;
    /// Without the framework
    fn render(template: usize, values: values::Vals) -> Result<String, String>;
    fn mime(template: usize) -> &'static str;
}
