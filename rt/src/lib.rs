//! Runs compiled template programs under the simulator.

pub mod alloc;
pub mod case;
pub mod check;
pub mod ctx;
pub mod direct;
pub mod exec;
pub mod explore;
mod main_;
pub mod world;

pub use exec::{Compiled, Prog};
pub use main_::main;
pub use vsim::values::Vs;
pub use ctx::SimErr;
pub use world::{at, filters, Amount, Duo, Duos, En, Items, Js, List, Once, Pairs, Show, World, eval_tick};
