//! One simulated execution: the requests of each client, and what goes wrong.

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Entry {
    /// A handler returns the template
    App,
    Into,
    Try,
    /// What a handler which returns the template would do, without the application
    Respond,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Fail,
    Panic,
    /// Until nobody else can go on
    Stall,
    /// Another request is served in the meantime
    Nested(Box<Request>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Request {
    pub template: usize,
    pub values: u64,
    pub entry: Entry,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(usize, Fault)>,
    /// So many other requests are served before the body is read
    #[serde(default)]
    pub defer: usize,
    /// How many bytes are read at once
    #[serde(default)]
    pub chunk: usize,
    /// The client goes away after so many reads
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub leave: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedSpec {
    pub seed: u64,
    pub switch: usize,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub script: Option<Vec<u8>>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub threads: Vec<Vec<Request>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sched: Option<SchedSpec>,
}
