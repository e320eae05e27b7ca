//! What the simulated values ask at each operation.

use std::cell::{Cell, RefCell};
use std::panic::panic_any;
use std::sync::Arc;

use vsim::rng::mix;
use vsim::sched::Sched;

use crate::case::{Fault, Request};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SimPanic(pub u64);

#[derive(Default)]
pub struct Ctx {
    pub ops: usize,
    pub faults: Vec<(usize, Fault)>,
    pub fired: Vec<(usize, &'static str)>,
    pub hash: u64,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// Serves a nested request
    static SERVE: Cell<Option<fn(&Request)>> = const { Cell::new(None) };
}

pub fn set_sched(s: Option<(Arc<Sched>, usize)>) {
    SCHED.with(|c| *c.borrow_mut() = s);
}

pub fn set_serve(f: fn(&Request)) {
    SERVE.with(|c| c.set(Some(f)));
}

/// Runs with a context of its own
pub fn with<R>(ctx: Ctx, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Ctx) {
    let outer = CTX.with(|c| c.borrow_mut().replace(ctx));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let ctx = CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), outer)).unwrap();
    (r, ctx)
}

fn sched() -> Option<(Arc<Sched>, usize)> {
    SCHED.with(|c| c.borrow().clone())
}

/// An operation. `Err`: it has to fail.
pub fn op(kind: u64) -> Result<(), ()> {
    if let Some((s, me)) = sched() {
        s.step(me);
    }
    let fault = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().expect("rendered outside of a request");
        let n = c.ops;
        c.ops += 1;
        c.hash = mix(c.hash, kind);
        let i = c.faults.iter().position(|f| f.0 == n)?;
        let (_, fault) = c.faults.swap_remove(i);
        let name = match &fault {
            Fault::Fail => "value fails",
            Fault::Panic => "value panics",
            Fault::Stall => "value stalls",
            Fault::Nested(_) => "value serves another request",
        };
        c.fired.push((n, name));
        c.hash = mix(c.hash, n as u64 + 77);
        Some((n, fault))
    });
    match fault {
        None => Ok(()),
        Some((_, Fault::Fail)) => Err(()),
        Some((n, Fault::Panic)) => panic_any(SimPanic(n as u64)),
        Some((_, Fault::Stall)) => {
            if let Some((s, me)) = sched() {
                s.stall(me);
            }
            Ok(())
        }
        Some((_, Fault::Nested(request))) => {
            if let Some(f) = SERVE.with(|c| c.get()) {
                f(&request);
            }
            Ok(())
        }
    }
}
