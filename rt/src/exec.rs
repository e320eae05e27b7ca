//! Executes one render under the simulator, and records everything that happened.

use std::cell::Cell;
use std::fmt::{self, Display, Write as _};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

use askama::{DynTemplate, Template};
use serde::{Deserialize, Serialize};
use vsim::rng::mix;
use vsim::values::Vs;

use crate::alloc;
use crate::ctx::{self, Ctx, Do, Fault, IoKind, Op, SimErr};

/// A template value, whatever its type
pub trait Prog: Sync {
    fn vrt_render(&self) -> askama::Result<String>;
    fn vrt_render_into(&self, sink: &mut SimSink) -> askama::Result<()>;
    fn vrt_write_into(&self, sink: &mut SimIo) -> io::Result<()>;
    fn vrt_ref_render_into(&self, sink: &mut SimSink) -> askama::Result<()>;
    fn vrt_ref_write_into(&self, sink: &mut SimIo) -> io::Result<()>;
    fn vrt_ref_render(&self) -> askama::Result<String>;
    fn vrt_dyn(&self) -> &dyn DynTemplate;
    fn vrt_display(&self) -> &dyn Display;
    /// Extension, size hint, MIME type: of the type, of a reference to it, of a reference to that,
    /// and by the object-safe wrapper of all three
    fn vrt_meta(&self) -> [Meta; 6];
}

pub type Meta = (Option<&'static str>, usize, &'static str);

impl<T: Template + Sync> Prog for T {
    fn vrt_render(&self) -> askama::Result<String> {
        self.render()
    }

    fn vrt_render_into(&self, sink: &mut SimSink) -> askama::Result<()> {
        self.render_into(sink)
    }

    fn vrt_write_into(&self, sink: &mut SimIo) -> io::Result<()> {
        self.write_into(sink)
    }

    fn vrt_ref_render_into(&self, sink: &mut SimSink) -> askama::Result<()> {
        <&T as Template>::render_into(&self, sink)
    }

    fn vrt_ref_write_into(&self, sink: &mut SimIo) -> io::Result<()> {
        <&T as Template>::write_into(&self, sink)
    }

    fn vrt_ref_render(&self) -> askama::Result<String> {
        <&T as Template>::render(&self)
    }

    fn vrt_dyn(&self) -> &dyn DynTemplate {
        self
    }

    fn vrt_display(&self) -> &dyn Display {
        self
    }

    fn vrt_meta(&self) -> [Meta; 6] {
        [
            meta_of(self),
            meta_of(&self),
            meta_of(&&self),
            meta_by(self),
            meta_by(&self),
            meta_by(&&self),
        ]
    }
}

fn meta_of<T: Template>(_: &T) -> Meta {
    (T::EXTENSION, T::SIZE_HINT, T::MIME_TYPE)
}

fn meta_by(t: &dyn DynTemplate) -> Meta {
    (t.extension(), t.size_hint(), t.mime_type())
}

/// A text sink that may refuse any piece
#[derive(Default)]
pub struct SimSink {
    pub buf: String,
}

impl fmt::Write for SimSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        match ctx::op(Op::Sink(s.len() as u32)) {
            Do::Fail(nonce) => {
                // A part of the refused piece may have been taken
                if nonce % 3 == 0 {
                    let mut n = (nonce >> 8) as usize % (s.len() + 1);
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    self.buf.push_str(&s[..n]);
                }
                Err(fmt::Error)
            }
            _ => {
                self.buf.push_str(s);
                Ok(())
            }
        }
    }
}

/// A byte sink that may take only a part, be interrupted, or fail
#[derive(Default)]
pub struct SimIo {
    pub buf: Vec<u8>,
    /// Takes at most so many bytes at once, if not 0
    pub chunk: u32,
}

impl io::Write for SimIo {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        let mut n = data.len();
        match ctx::op(Op::Io(n as u32)) {
            Do::Short(max) => n = n.min((max as usize).max(1)),
            Do::Intr => return Err(io::ErrorKind::Interrupted.into()),
            Do::Zero => return Ok(0),
            Do::Io(kind, nonce) => return Err(io::Error::new(kind.kind(), SimErr(nonce))),
            _ => {}
        }
        if self.chunk > 0 {
            n = n.min(self.chunk as usize);
        }
        self.buf.extend_from_slice(&data[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl IoKind {
    pub const ALL: [IoKind; 7] = [
        IoKind::Full,
        IoKind::WouldBlock,
        IoKind::BrokenPipe,
        IoKind::TimedOut,
        IoKind::Other,
        IoKind::WriteZero,
        IoKind::Eof,
    ];

    pub fn kind(self) -> io::ErrorKind {
        match self {
            IoKind::Full => io::ErrorKind::StorageFull,
            IoKind::WouldBlock => io::ErrorKind::WouldBlock,
            IoKind::BrokenPipe => io::ErrorKind::BrokenPipe,
            IoKind::TimedOut => io::ErrorKind::TimedOut,
            IoKind::Other => io::ErrorKind::Other,
            IoKind::WriteZero => io::ErrorKind::WriteZero,
            IoKind::Eof => io::ErrorKind::UnexpectedEof,
        }
    }
}

/// The ways to render a template
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Entry {
    Render,
    RenderInto,
    DynRenderInto,
    Display,
    WriteInto,
    DynWriteInto,
    RefRenderInto,
    DynRender,
    ToString,
    DynDisplay,
    RefWriteInto,
    RefRender,
}

impl Entry {
    pub const ALL: [Entry; 12] = [
        Entry::Render,
        Entry::RenderInto,
        Entry::DynRenderInto,
        Entry::Display,
        Entry::WriteInto,
        Entry::DynWriteInto,
        Entry::RefRenderInto,
        Entry::DynRender,
        Entry::ToString,
        Entry::DynDisplay,
        Entry::RefWriteInto,
        Entry::RefRender,
    ];
    pub const TEXT: [Entry; 5] = [
        Entry::RenderInto,
        Entry::DynRenderInto,
        Entry::Display,
        Entry::RefRenderInto,
        Entry::DynDisplay,
    ];
    pub const IO: [Entry; 3] = [Entry::WriteInto, Entry::DynWriteInto, Entry::RefWriteInto];
    pub const STRING: [Entry; 4] = [Entry::Render, Entry::DynRender, Entry::ToString, Entry::RefRender];

    pub fn is_text(self) -> bool {
        Self::TEXT.contains(&self)
    }

    pub fn is_io(self) -> bool {
        Self::IO.contains(&self)
    }

    pub fn is_string(self) -> bool {
        Self::STRING.contains(&self)
    }

    /// Whether the error is reported only as formatting error
    pub fn opaque(self) -> bool {
        matches!(self, Entry::Display | Entry::DynDisplay | Entry::ToString)
    }
}

/// One render, with everything the simulator does to it
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RenderSpec {
    /// The template value: index into the values of the case
    pub inst: usize,
    pub entry: Entry,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(usize, Fault)>,
    /// Bytes the byte sink takes at once; the style of the formatter for `Display`
    #[serde(default, skip_serializing_if = "is_zero")]
    pub chunk: u32,
    /// The values ignore that what they write is refused
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub careless: bool,
    /// Allocations of so many bytes fail
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub alloc: Option<usize>,
}

fn is_zero(n: &u32) -> bool {
    *n == 0
}

impl RenderSpec {
    pub fn new(inst: usize, entry: Entry) -> Self {
        RenderSpec {
            inst,
            entry,
            faults: Vec::new(),
            chunk: 0,
            careless: false,
            alloc: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    Fmt,
    /// With the number of the error, if it is one of the simulator
    Custom(Option<u64>),
    OtherError(String),
    Io(io::ErrorKind, Option<u64>),
    /// An I/O error that carries an error of the template
    IoTemplate(Box<Res>),
    Panic(Option<u64>, String),
}

impl Res {
    fn of(e: &askama::Error) -> Res {
        match e {
            askama::Error::Fmt(_) => Res::Fmt,
            askama::Error::Custom(e) => Res::Custom(e.downcast_ref::<SimErr>().map(|e| e.0)),
            e => Res::OtherError(e.to_string()),
        }
    }

    fn of_io(e: &io::Error) -> Res {
        if let Some(inner) = e.get_ref() {
            if let Some(e) = inner.downcast_ref::<askama::Error>() {
                return Res::IoTemplate(Box::new(Res::of(e)));
            }
            if let Some(sim) = inner.downcast_ref::<SimErr>() {
                return Res::Io(e.kind(), Some(sim.0));
            }
        }
        Res::Io(e.kind(), None)
    }

    pub fn is_ok(&self) -> bool {
        *self == Res::Ok
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Res,
    /// What has arrived in the sink; the returned string, if there is no sink
    pub out: Vec<u8>,
    pub ops: Vec<Op>,
    pub fired: Vec<(usize, Op, String)>,
    pub failed: Option<(usize, Op, Fault)>,
    pub after: Vec<Op>,
    pub polls: std::collections::HashMap<u64, (u32, u32)>,
    pub item_polls: Vec<(u64, u64, u32, u32)>,
    pub nested: Vec<(RenderSpec, Outcome)>,
    pub alloc_failed: u32,
    nonce: u64,
}

impl Outcome {
    /// The number of the error that the terminal fault has raised
    pub fn error_nonce(&self) -> Option<u64> {
        self.failed.as_ref().map(|(at, _, _)| mix(self.nonce, *at as u64))
    }

    pub fn same(&self, other: &Outcome) -> bool {
        self.res == other.res && self.out == other.out && self.ops == other.ops
    }

    /// The outcome as a number, comparable between processes
    pub fn hash(&self) -> u64 {
        let h = vsim::rng::mix_str(1, &format!("{:?}", self.res));
        let h = self.out.iter().fold(mix(h, self.out.len() as u64), |h, b| mix(h, *b as u64));
        self.ops.iter().fold(h, |h, op| mix(h, op.hash()))
    }
}

thread_local! {
    /// The template values of the running case
    static VALUES: Cell<Option<*const [&'static dyn Prog]>> = const { Cell::new(None) };
}

/// Makes the values known to the renders of this thread, also to nested ones
pub fn with_values<R>(values: &[&dyn Prog], f: impl FnOnce() -> R) -> R {
    let ptr: *const [&dyn Prog] = values;
    // The pointer is used only until this function returns.
    let ptr: *const [&'static dyn Prog] = unsafe { std::mem::transmute(ptr) };
    let old = VALUES.with(|v| v.replace(Some(ptr)));
    struct Reset(Option<*const [&'static dyn Prog]>);
    impl Drop for Reset {
        fn drop(&mut self) {
            VALUES.with(|v| v.set(self.0));
        }
    }
    let _reset = Reset(old);
    f()
}

fn value(i: usize) -> &'static dyn Prog {
    let values = VALUES.with(|v| v.get()).expect("no values");
    unsafe { (*values)[i] }
}

pub fn run_nested(spec: &RenderSpec) -> Outcome {
    let guard = alloc::suspend();
    let outcome = run(spec, 0);
    drop(guard);
    outcome
}

/// Width, precision and flags of the formatter have no influence on a template
fn display<D: Display + ?Sized>(text: &mut SimSink, style: u32, value: &D) -> fmt::Result {
    match style % 6 {
        0 => write!(text, "{value}"),
        1 => write!(text, "{value:>40}"),
        2 => write!(text, "{value:.3}"),
        3 => write!(text, "{value:*^+#300.1}"),
        4 => write!(text, "{value:0100}"),
        _ => write!(text, "{value:<5.70}"),
    }
}

/// Runs a render on this thread
pub fn run(spec: &RenderSpec, seed: u64) -> Outcome {
    let prog = value(spec.inst);
    let nonce = mix(seed, 0xE44);
    let depth = ctx::depth();
    ctx::push(Ctx {
        faults: spec.faults.clone(),
        nonce,
        depth,
        careless: spec.careless,
        ..Ctx::default()
    });
    let mut text = SimSink::default();
    let mut bytes = SimIo {
        chunk: spec.chunk,
        ..SimIo::default()
    };
    let armed = spec.alloc.map(alloc::arm);
    let result = catch_unwind(AssertUnwindSafe(|| -> (Res, Option<String>) {
        let fmt_res = |r: fmt::Result| match r {
            Ok(()) => Res::Ok,
            Err(_) => Res::Fmt,
        };
        let res = |r: askama::Result<()>| match r {
            Ok(()) => Res::Ok,
            Err(e) => Res::of(&e),
        };
        let io_res = |r: io::Result<()>| match r {
            Ok(()) => Res::Ok,
            Err(e) => Res::of_io(&e),
        };
        let string_res = |r: askama::Result<String>| match r {
            Ok(s) => (Res::Ok, Some(s)),
            Err(e) => (Res::of(&e), None),
        };
        match spec.entry {
            Entry::Render => string_res(prog.vrt_render()),
            Entry::DynRender => string_res(prog.vrt_dyn().dyn_render()),
            Entry::RefRender => string_res(prog.vrt_ref_render()),
            Entry::ToString => (Res::Ok, Some(prog.vrt_display().to_string())),
            Entry::RenderInto => (res(prog.vrt_render_into(&mut text)), None),
            Entry::RefRenderInto => (res(prog.vrt_ref_render_into(&mut text)), None),
            Entry::DynRenderInto => (res(prog.vrt_dyn().dyn_render_into(&mut text)), None),
            Entry::Display => (fmt_res(display(&mut text, spec.chunk, prog.vrt_display())), None),
            Entry::DynDisplay => (fmt_res(display(&mut text, spec.chunk, prog.vrt_dyn())), None),
            Entry::WriteInto => (io_res(prog.vrt_write_into(&mut bytes)), None),
            Entry::DynWriteInto => (io_res(prog.vrt_dyn().dyn_write_into(&mut bytes)), None),
            Entry::RefWriteInto => (io_res(prog.vrt_ref_write_into(&mut bytes)), None),
        }
    }));
    let alloc_failed = armed.map_or(0, |a| a.disarm());
    ctx::truncate(depth + 1);
    let (res, string) = match result {
        Ok(r) => r,
        Err(payload) => {
            let nonce = ctx::panic_nonce(&*payload);
            let msg = match (payload.downcast_ref::<&str>(), payload.downcast_ref::<String>()) {
                (Some(s), _) => s.to_string(),
                (_, Some(s)) => s.clone(),
                _ => String::new(),
            };
            // The standard library's answer to a Display implementation that fails
            match spec.entry == Entry::ToString && msg.contains("Display implementation returned an error") {
                true => (Res::Fmt, None),
                false => (Res::Panic(nonce, msg), None),
            }
        }
    };
    let out = if spec.entry.is_text() {
        text.buf.into_bytes()
    } else if spec.entry.is_io() {
        bytes.buf
    } else {
        string.unwrap_or_default().into_bytes()
    };
    let c = ctx::pop();
    Outcome {
        res,
        out,
        ops: c.ops,
        fired: c.fired,
        failed: c.failed,
        after: c.after,
        polls: c.polls,
        item_polls: c.item_polls,
        nested: c.nested,
        alloc_failed,
        nonce,
    }
}

/// A compiled template program
pub struct Compiled {
    pub seed: u64,
    pub with: fn(Vs, &mut dyn FnMut(&dyn Prog)),
}

/// Creates template values that exist at the same time
pub fn with_instances(progs: &[Compiled], insts: &[(usize, Vs)], f: &mut dyn FnMut(&[&dyn Prog])) {
    fn go<'a>(
        progs: &[Compiled],
        rest: &[(usize, Vs)],
        made: &[&'a dyn Prog],
        f: &mut dyn FnMut(&[&dyn Prog]),
    ) {
        match rest.split_first() {
            None => f(made),
            Some(((prog, vs), rest)) => (progs[*prog].with)(*vs, &mut |p| {
                let mut all: Vec<&dyn Prog> = made.to_vec();
                all.push(p);
                go(progs, rest, &all, f);
            }),
        }
    }
    go(progs, insts, &[], f)
}
