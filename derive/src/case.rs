//! One simulated execution: the file trees, who derives what, and what goes wrong.

use serde::{Deserialize, Serialize};

use crate::tree::{Content, Tree};
use crate::vfs::Fault;

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct DeriveSpec {
    /// Index of the tree it sees
    pub tree: usize,
    /// Index of the item
    pub item: usize,
    pub cwd: String,
    /// Decides hash seeds, directory orders and time stamps
    pub hash_seed: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(usize, Fault)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedSpec {
    pub seed: u64,
    pub switch: usize,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub script: Option<Vec<u8>>,
}

/// What happens between two builds
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    /// The files that get another content, or are removed
    pub edits: Vec<(String, Option<Content>)>,
    /// The builds: which item, and what goes wrong
    pub builds: Vec<DeriveSpec>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub trees: Vec<Tree>,
    /// What each thread derives
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub threads: Vec<Vec<DeriveSpec>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sched: Option<SchedSpec>,
    /// The edits and builds of the first tree
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub steps: Vec<Step>,
}
