//! Runs cases and decides whether the property held.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

use vsim::rng::mix;
use vsim::sched::Sched;

use crate::case::{Case, Entry, Fault, Request};
use crate::ctx::{self, Ctx, SimPanic};
use crate::values::Vals;
use crate::{Answer, Page, Web};

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub requests: u64,
    pub pages: u64,
    pub errors: u64,
    pub panics: u64,
    pub left: u64,
    pub ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub entries: BTreeMap<String, u64>,
    pub switches: u64,
    pub stalls_survived: u64,
    pub distinct: HashSet<u64>,
    pub interleavings: HashSet<u64>,
    pub double_runs: u64,
}

#[derive(Default)]
pub struct Runner {
    pub stats: Stats,
    pub last_log: Option<Vec<u8>>,
    pub last_hash: u64,
    pub blocked: bool,
}

/// What is known about a request that was served
struct Served {
    request: Request,
    outcome: Outcome,
    ops: usize,
    fired: Vec<(usize, &'static str)>,
    hash: u64,
}

enum Outcome {
    Page { status: u16, content_types: Vec<String>, length: Option<u64>, read: Vec<u8>, complete: bool, body_error: Option<String> },
    Error(String),
    Panic(Option<SimPanic>),
}

enum Expected {
    Text(String),
    Error(String),
    Panic(SimPanic),
}

/// What the templates yield without a web framework
fn expected<W: Web>(r: &Request) -> (Expected, usize) {
    let faults = r.faults.iter().filter(|f| matches!(f.1, Fault::Fail | Fault::Panic)).cloned().collect();
    let values = Vals::new(r.values);
    let (out, ctx) = ctx::with(Ctx { faults, ..Ctx::default() }, || W::render(r.template, values));
    let e = match out {
        Ok(Ok(s)) => Expected::Text(s),
        Ok(Err(e)) => Expected::Error(e),
        Err(p) => Expected::Panic(*p.downcast_ref().unwrap_or(&SimPanic(u64::MAX))),
    };
    (e, ctx.ops)
}

/// How many operations a request has
pub fn operations<W: Web>(r: &Request) -> usize {
    expected::<W>(&Request { faults: Vec::new(), ..r.clone() }).1
}

struct Open {
    request: Request,
    page: Page,
    read: Vec<u8>,
    reads: usize,
    due: usize,
    ops: usize,
    fired: Vec<(usize, &'static str)>,
    hash: u64,
}

thread_local! {
    static NESTED: RefCell<Vec<Served>> = const { RefCell::new(Vec::new()) };
}

/// Serves a request up to the response
fn start<W: Web>(web: &mut W, r: &Request, due: usize) -> Result<Open, Served> {
    let values = Vals::new(r.values);
    let ctx = Ctx { faults: r.faults.clone(), ..Ctx::default() };
    let (out, ctx) = ctx::with(ctx, || web.serve(r.entry, r.template, values));
    let mut hash = mix(ctx.hash, r.template as u64);
    hash = mix(hash, r.entry as u64);
    let served = |outcome| Served { request: r.clone(), outcome, ops: ctx.ops, fired: ctx.fired.clone(), hash };
    match out {
        Ok(Answer::Page(page)) => Ok(Open {
            request: r.clone(),
            page,
            read: Vec::new(),
            reads: 0,
            due,
            ops: ctx.ops,
            fired: ctx.fired,
            hash,
        }),
        Ok(Answer::Error(e)) => Err(served(Outcome::Error(e))),
        Err(p) => Err(served(Outcome::Panic(p.downcast_ref().copied()))),
    }
}

/// Reads once. `Some` at the end.
fn read(mut o: Open) -> Result<Served, Open> {
    let chunk = o.request.chunk.max(1);
    let mut complete = true;
    let mut body_error = None;
    let mut done = false;
    if o.request.leave == Some(o.reads) {
        complete = false;
        done = true;
    } else {
        o.reads += 1;
        match (o.page.body)(chunk) {
            Some(Ok(bytes)) => o.read.extend(bytes),
            Some(Err(e)) => {
                body_error = Some(e);
                done = true;
            }
            None => done = true,
        }
    }
    if !done {
        return Err(o);
    }
    Ok(Served {
        outcome: Outcome::Page {
            status: o.page.status,
            content_types: o.page.content_types,
            length: o.page.length,
            read: o.read,
            complete,
            body_error,
        },
        request: o.request,
        ops: o.ops,
        fired: o.fired,
        hash: o.hash,
    })
}

fn finish(mut o: Open) -> Served {
    loop {
        match read(o) {
            Ok(s) => return s,
            Err(again) => o = again,
        }
    }
}

/// Another application on the same thread
fn nested<W: Web>(r: &Request) {
    let mut r = r.clone();
    if !W::NESTS && r.entry == Entry::App {
        r.entry = Entry::Respond;
    }
    let s = match start(&mut W::new(), &r, 0) {
        Ok(o) => finish(o),
        Err(s) => s,
    };
    NESTED.with(|n| n.borrow_mut().push(s));
}

fn client<W: Web>(requests: &[Request]) -> Vec<Served> {
    ctx::set_serve(nested::<W>);
    let mut web = W::new();
    let mut open: Vec<Open> = Vec::new();
    let mut out = Vec::new();
    for (n, r) in requests.iter().enumerate() {
        match start(&mut web, r, n + r.defer) {
            Ok(o) => open.push(o),
            Err(s) => out.push(s),
        }
        // Those whose time has come, one piece of each after the other
        let (mut due, later): (Vec<Open>, Vec<Open>) = open.into_iter().partition(|o| o.due <= n);
        open = later;
        while !due.is_empty() {
            for o in std::mem::take(&mut due) {
                match read(o) {
                    Ok(s) => out.push(s),
                    Err(o) => due.push(o),
                }
            }
        }
    }
    out.extend(open.into_iter().map(finish));
    out.extend(NESTED.with(|n| std::mem::take(&mut *n.borrow_mut())));
    out
}

fn patience() -> u64 {
    std::env::var("VRT_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(30)
}

impl Runner {
    pub fn check<W: Web + 'static>(&mut self, case: &Case) -> Result<(), String> {
        self.stats.cases += 1;
        self.last_hash = 0;
        self.last_log = None;
        let n = case.threads.len();
        let sched = case.sched.as_ref().map(|s| Arc::new(Sched::new(n, s.seed, s.switch, s.script.clone())));
        let mut handles = Vec::new();
        let mut all = Vec::new();
        for (t, requests) in case.threads.iter().enumerate() {
            let (requests, sched) = (requests.clone(), sched.clone());
            let concurrent = sched.is_some();
            let h = std::thread::spawn(move || {
                if let Some(s) = &sched {
                    ctx::set_sched(Some((s.clone(), t)));
                    s.enter(t);
                }
                let out = std::panic::catch_unwind(|| client::<W>(&requests));
                ctx::set_sched(None);
                if let Some(s) = sched {
                    s.finish(t);
                }
                out
            });
            match concurrent {
                true => handles.push(h),
                false => all.push(h.join()),
            }
        }
        if let Some(s) = &sched {
            s.start();
            let r = s.join(Duration::from_secs(patience()), None);
            self.last_log = Some(r.log.clone());
            self.stats.switches += r.switches;
            self.stats.stalls_survived += r.finished_during_stall;
            self.stats.interleavings.insert(r.log.iter().fold(9, |h, &c| mix(h, c as u64)));
            if r.blocked {
                self.blocked = true;
                return Err("a request waits for another one".into());
            }
        }
        all.extend(handles.into_iter().map(|h| h.join()));
        for (t, served) in all.into_iter().enumerate() {
            let served = match served {
                Ok(Ok(s)) => s,
                Ok(Err(p)) | Err(p) => {
                    let m = p.downcast_ref::<String>().cloned();
                    let m = m.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                    return Err(format!("client {t}: reading a response panicked: {m:?}"));
                }
            };
            for s in served {
                self.note(&s);
                self.judge::<W>(&s).map_err(|m| {
                    format!("client {t}, template {} through {:?}, {:?}: {m}", s.request.template, s.request.entry, s.fired)
                })?;
            }
        }
        Ok(())
    }

    fn note(&mut self, s: &Served) {
        self.stats.requests += 1;
        self.stats.ops += s.ops as u64;
        *self.stats.entries.entry(format!("{:?}", s.request.entry)).or_default() += 1;
        for (_, what) in &s.fired {
            *self.stats.faults.entry(what.to_string()).or_default() += 1;
        }
        let mut h = s.hash;
        match &s.outcome {
            Outcome::Page { status, read, complete, .. } => {
                match (*status, *complete) {
                    (_, false) => {
                        self.stats.left += 1;
                        *self.stats.faults.entry("client leaves".into()).or_default() += 1;
                    }
                    (200, _) => self.stats.pages += 1,
                    _ => self.stats.errors += 1,
                }
                h = mix(h, *status as u64);
                h = read.iter().fold(h, |h, &b| mix(h, b as u64));
            }
            Outcome::Error(_) => {
                self.stats.errors += 1;
                h = mix(h, 1);
            }
            Outcome::Panic(_) => {
                self.stats.panics += 1;
                h = mix(h, 2);
            }
        }
        self.stats.distinct.insert(h);
        self.last_hash = mix(self.last_hash, h);
    }

    fn judge<W: Web>(&mut self, s: &Served) -> Result<(), String> {
        let (expected, _) = expected::<W>(&s.request);
        match (&expected, &s.outcome) {
            (Expected::Text(text), Outcome::Page { status, content_types, length, read, complete, body_error }) => {
                if *status != 200 {
                    return Err(format!("the template renders, but the status is {status}"));
                }
                if content_types.len() != 1 || content_types[0] != W::mime(s.request.template) {
                    return Err(format!("the content type is {content_types:?} instead of {:?}", W::mime(s.request.template)));
                }
                if let Some(e) = body_error {
                    return Err(format!("reading the body fails: {e}"));
                }
                if length.is_some_and(|l| l != text.len() as u64) {
                    return Err(format!("the announced length is {length:?} instead of {}", text.len()));
                }
                let matches = match complete {
                    true => read == text.as_bytes(),
                    false => text.as_bytes().starts_with(read),
                };
                if !matches {
                    return Err(format!("the body is {:?}\ninstead of {text:?}", String::from_utf8_lossy(read)));
                }
                Ok(())
            }
            (Expected::Text(_), Outcome::Error(e)) => Err(format!("the template renders, but the response is the error {e:?}")),
            (Expected::Text(_), Outcome::Panic(p)) => Err(format!("the template renders, but responding panics: {p:?}")),
            (Expected::Error(e), Outcome::Page { status, read, .. }) => {
                if s.request.entry == Entry::Try {
                    return Err(format!("the template fails with {e:?}, but the response is a page with status {status}"));
                }
                server_error(*status, read).map_err(|m| format!("the template fails with {e:?}, but {m}"))
            }
            (Expected::Error(e), Outcome::Error(got)) => {
                // The error of the template
                match s.request.entry == Entry::Try && got != e {
                    true => Err(format!("the error is {got:?} instead of {e:?}")),
                    false => Ok(()),
                }
            }
            (Expected::Error(e), Outcome::Panic(p)) => Err(format!("the template fails with {e:?}, but responding panics: {p:?}")),
            (Expected::Panic(p), Outcome::Panic(got)) => match got.is_none() || *got == Some(*p) {
                true => Ok(()),
                false => Err(format!("the panic is {got:?} instead of {p:?}")),
            },
            (Expected::Panic(_), Outcome::Page { status, read, .. }) => {
                server_error(*status, read).map_err(|m| format!("the template panics, but {m}"))
            }
            (Expected::Panic(_), Outcome::Error(_)) => Ok(()),
        }
    }
}

fn server_error(status: u16, body: &[u8]) -> Result<(), String> {
    if status != 500 {
        return Err(format!("the status is {status}"));
    }
    let text = String::from_utf8_lossy(body);
    if text.contains("PAGE") || text.contains("PIECE") {
        return Err(format!("the response contains a part of the page: {text:?}"));
    }
    Ok(())
}
