//! The simulator's view of a running render: every call askama makes into a value, an iterator,
//! a filter, a serializer or a sink is an operation with a number, and at every operation the
//! simulator may inject a fault, run another render, or hand over to another thread.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use vsim::rng::mix;

use crate::exec::RenderSpec;
use vsim::sched::Sched;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// An expression of the template is evaluated: site, and which time
    Eval(u32, u32),
    /// Like `Eval`, and the call may yield an error
    Try(u32, u32),
    /// A method of a loop item is called: site, and key of the item
    Item(u32, u64),
    ItemTry(u32, u64),
    /// A custom filter is called
    Eff(u32, u32),
    /// A value writes its nth piece (the last one stands for the end of the text)
    Disp(u64, u32),
    /// The nth poll of an iterator
    Next(u64, u32),
    /// A serializable value is visited for the nth time
    Ser(u64, u32),
    /// The text sink gets a piece of this length
    Sink(u32),
    /// The byte sink gets a piece of this length
    Io(u32),
}

impl Op {
    pub fn hash(self) -> u64 {
        match self {
            Op::Eval(a, b) => mix(mix(1, a as u64), b as u64),
            Op::Try(a, b) => mix(mix(2, a as u64), b as u64),
            Op::Item(a, b) => mix(mix(3, a as u64), b),
            Op::ItemTry(a, b) => mix(mix(4, a as u64), b),
            Op::Eff(a, b) => mix(mix(5, a as u64), b as u64),
            Op::Disp(a, b) => mix(mix(6, a), b as u64),
            Op::Next(a, b) => mix(mix(7, a), b as u64),
            Op::Ser(a, b) => mix(mix(8, a), b as u64),
            Op::Sink(a) => mix(9, a as u64),
            Op::Io(a) => mix(10, a as u64),
        }
    }

    pub fn name(self) -> &'static str {
        match self {
            Op::Eval(..) => "eval",
            Op::Try(..) => "try",
            Op::Item(..) => "item",
            Op::ItemTry(..) => "item-try",
            Op::Eff(..) => "filter",
            Op::Disp(..) => "display",
            Op::Next(..) => "next",
            Op::Ser(..) => "serialize",
            Op::Sink(..) => "sink",
            Op::Io(..) => "io",
        }
    }

    pub fn can_fail(self) -> bool {
        !matches!(self, Op::Eval(..) | Op::Item(..) | Op::Next(..) | Op::Io(..))
    }

    /// Whether this is an operation of a sink, i.e. not of a value
    pub fn is_sink(self) -> bool {
        matches!(self, Op::Sink(..) | Op::Io(..))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// The operation fails
    Err,
    Panic,
    /// Another render takes place inside of the operation
    Nested(Box<RenderSpec>),
    /// The thread stops here until nobody else can go on
    Stall,
    /// The byte sink takes only so many bytes
    Short(u32),
    /// The byte sink is interrupted
    Intr,
    /// The byte sink fails
    Io(IoKind),
    /// The byte sink takes nothing
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IoKind {
    Full,
    WouldBlock,
    BrokenPipe,
    TimedOut,
    Other,
    WriteZero,
    Eof,
}

impl Fault {
    pub fn name(&self) -> String {
        match self {
            Fault::Err => "error".into(),
            Fault::Panic => "panic".into(),
            Fault::Nested(_) => "nested render".into(),
            Fault::Stall => "stall".into(),
            Fault::Short(_) => "short write".into(),
            Fault::Intr => "interrupted write".into(),
            Fault::Io(k) => format!("i/o error {k:?}"),
            Fault::Zero => "zero write".into(),
        }
    }

    /// Whether the render cannot succeed any more
    pub fn terminal(&self) -> bool {
        matches!(self, Fault::Err | Fault::Panic | Fault::Io(_) | Fault::Zero)
    }
}

/// The payload of an injected panic
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct SimPanic(pub u64);

/// The error an injected fault raises
#[derive(Debug, Clone, PartialEq)]
pub struct SimErr(pub u64);

impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}

impl std::error::Error for SimErr {}

#[derive(Default)]
pub struct Ctx {
    pub ops: Vec<Op>,
    pub occ: HashMap<u32, u32>,
    /// Faults still to be injected, by operation
    pub faults: Vec<(usize, Fault)>,
    pub nonce: u64,
    /// The faults that were injected: operation, its number, fault
    pub fired: Vec<(usize, Op, String)>,
    /// The first fault after which the render cannot succeed
    pub failed: Option<(usize, Op, Fault)>,
    /// Operations after this
    pub after: Vec<Op>,
    /// How often each iterator was polled, and how often after its end
    pub polls: HashMap<u64, (u32, u32)>,
    /// Evaluations for loop items: item, iterator, polls so far, site
    pub item_polls: Vec<(u64, u64, u32, u32)>,
    /// Outcomes of the nested renders
    pub nested: Vec<(RenderSpec, crate::exec::Outcome)>,
    /// Renders are nested at most so deep
    pub depth: usize,
    /// The values ignore that what they write is refused
    pub careless: bool,
}

/// No render has so many operations, by far
const MAX_OPS: usize = 3_000_000;

thread_local! {
    static STACK: RefCell<Vec<Ctx>> = const { RefCell::new(Vec::new()) };
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

pub fn set_sched(sched: Option<(Arc<Sched>, usize)>) {
    SCHED.with(|s| *s.borrow_mut() = sched);
}

pub fn push(ctx: Ctx) {
    STACK.with(|s| s.borrow_mut().push(ctx));
}

pub fn pop() -> Ctx {
    STACK.with(|s| s.borrow_mut().pop().expect("no render"))
}

pub fn depth() -> usize {
    STACK.with(|s| s.borrow().len())
}

pub fn truncate(depth: usize) {
    STACK.with(|s| s.borrow_mut().truncate(depth));
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    // The simulator's own memory is not limited
    let _guard = crate::alloc::suspend();
    STACK.with(|s| f(s.borrow_mut().last_mut().expect("no render")))
}

pub fn occ(site: u32) -> u32 {
    with(|c| {
        let n = c.occ.entry(site).or_insert(0);
        *n += 1;
        *n - 1
    })
}

/// What an operation has to do
pub enum Do {
    Go,
    Fail(u64),
    Short(u32),
    Intr,
    Io(IoKind, u64),
    Zero,
}

/// Every call of askama into the simulated world ends up here
pub fn op(op: Op) -> Do {
    // The scheduler decides who runs next
    let sched = SCHED.with(|s| s.borrow().clone());
    if let Some((sched, me)) = &sched {
        sched.step(*me);
    }
    let (fault, nonce) = with(|c| {
        let at = c.ops.len();
        c.ops.push(op);
        if at > MAX_OPS {
            eprintln!("the render does not end");
            std::process::exit(22);
        }
        if c.failed.is_some() {
            c.after.push(op);
        }
        let fault = match c.faults.iter().position(|(i, _)| *i == at) {
            Some(i) => Some(c.faults.remove(i).1),
            None => None,
        };
        let nonce = mix(c.nonce, at as u64);
        // Ignore faults that this operation cannot have
        let fault = fault.filter(|f| match f {
            Fault::Err => op.can_fail(),
            Fault::Short(_) | Fault::Intr | Fault::Io(_) | Fault::Zero => matches!(op, Op::Io(_)),
            Fault::Nested(_) => c.depth < 3,
            Fault::Panic | Fault::Stall => true,
        });
        if let Some(f) = &fault {
            c.fired.push((at, op, f.name()));
            if f.terminal() && c.failed.is_none() {
                c.failed = Some((at, op, f.clone()));
            }
        }
        (fault, nonce)
    });
    match fault {
        None => Do::Go,
        Some(Fault::Err) => Do::Fail(nonce),
        Some(Fault::Panic) => std::panic::panic_any(SimPanic(nonce)),
        Some(Fault::Nested(spec)) => {
            let outcome = crate::exec::run_nested(&spec);
            with(|c| c.nested.push((*spec, outcome)));
            Do::Go
        }
        Some(Fault::Stall) => {
            if let Some((sched, me)) = &sched {
                sched.stall(*me);
            }
            Do::Go
        }
        Some(Fault::Short(n)) => Do::Short(n),
        Some(Fault::Intr) => Do::Intr,
        Some(Fault::Io(k)) => Do::Io(k, nonce),
        Some(Fault::Zero) => Do::Zero,
    }
}

/// An operation that can only go on or panic
pub fn plain(o: Op) {
    let _ = op(o);
}

/// An operation that may fail
pub fn fallible(o: Op) -> Result<(), SimErr> {
    match op(o) {
        Do::Fail(nonce) => Err(SimErr(nonce)),
        _ => Ok(()),
    }
}

pub fn panic_nonce(payload: &(dyn Any + Send)) -> Option<u64> {
    payload.downcast_ref::<SimPanic>().map(|p| p.0)
}
