//! Seeds, values, template programs and the reference model of the simulation.

pub mod ast;
pub mod gen;
pub mod model;
pub mod rng;
pub mod sched;
pub mod style;
pub mod values;
