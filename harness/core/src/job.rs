//! What the driver and a compiled shard tell each other.

use crate::reqs::{self, ReqKnobs};
use crate::spec::*;
use crate::tape::Tape;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Default)]
pub struct Job {
    pub prop: String,
    pub seed: u64,
    pub cases: u32,
    pub families: Vec<Family>,
    /// Only run these cases (one per family, in order).
    pub replay: Vec<Case>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub req: ReqCase,
    /// Choices for schedules and interleavings.
    pub sched: Vec<u32>,
}

pub const REQ_TAPE: usize = 420;
pub const SCHED_TAPE: usize = 60;

impl Case {
    pub fn from_tape(data: &[u32], fam: &Family, knobs: &ReqKnobs) -> Case {
        let n = data.len().min(REQ_TAPE);
        Case {
            req: reqs::gen_req(&mut Tape::new(&data[..n]), fam, knobs),
            sched: data[n..].to_vec(),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
pub struct FamOut {
    pub name: String,
    pub cases: u64,
    pub executions: u64,
    pub distinct: u64,
    pub bad_requests: u64,
    pub out_of_scope: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violation: Option<Violation>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub case: Case,
    pub message: String,
    pub expected: serde_json::Value,
    pub observed: serde_json::Value,
}
