//! One simulated execution: which template values exist, who renders what, and what goes wrong.

use serde::{Deserialize, Serialize};
use vsim::values::Vs;

use crate::direct::Direct;
use crate::exec::RenderSpec;

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    /// Decides the numbers of the injected errors
    pub seed: u64,
    /// The template values: index of the program, and its values
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub insts: Vec<(usize, Vs)>,
    /// What each thread renders
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub threads: Vec<Vec<RenderSpec>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sched: Option<SchedSpec>,
    /// A call of a filter, instead of renders
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub direct: Option<Direct>,
    /// The whole history is repeated so often
    #[serde(default, skip_serializing_if = "is_zero")]
    pub repeat: usize,
}

fn is_zero(n: &usize) -> bool {
    *n == 0
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedSpec {
    pub seed: u64,
    /// One in so many operations hands over to another thread
    pub switch: usize,
    /// The threads in the order in which they run, if they are not chosen by the seed
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub script: Option<Vec<u8>>,
}
