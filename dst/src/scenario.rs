use crate::arch::{self, ArchSc};
use crate::circ::{self, CircSc};
use crate::common::*;
use crate::dbg::{self, DbgSc};
use crate::tool::{self, ToolSc};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Scenario {
    Arch(ArchSc),
    Tool(ToolSc),
    Dbg(DbgSc),
    Circ(CircSc),
}

fn forked(f: impl FnOnce() -> RunResult) -> RunResult {
    match crate::runner::in_fork(40_000, || serde_json::to_vec(&f()).unwrap()) {
        Ok(b) => {
            serde_json::from_slice(&b).unwrap_or_else(|e| crate::runner::harness_error(&format!("bad result: {e}")))
        }
        Err(e) => {
            let mut r = RunResult::default();
            let class = if e.starts_with("no answer") { "hang" } else { "crash" };
            r.bad(class, format!("the simulation of this program gives no result: {e}"));
            r
        }
    }
}

impl Scenario {
    pub fn run(&self) -> RunResult {
        match self {
            Scenario::Arch(sc) => forked(|| arch::run(sc)),
            Scenario::Circ(sc) => forked(|| circ::run(sc)),
            Scenario::Tool(sc) => tool::run(sc),
            Scenario::Dbg(sc) => dbg::run(sc),
        }
    }

    /// The same scenario with every choice made explicit.
    pub fn pin(&self) -> Option<Scenario> {
        match self {
            Scenario::Arch(_) | Scenario::Circ(_) => None,
            Scenario::Tool(sc) => Some(Scenario::Tool(tool::pin(sc))),
            Scenario::Dbg(sc) => Some(Scenario::Dbg(dbg::pin(sc))),
        }
    }

    pub fn shrink(&self) -> Vec<Scenario> {
        match self {
            Scenario::Arch(sc) => arch::shrink(sc).into_iter().map(Scenario::Arch).collect(),
            Scenario::Tool(sc) => tool::shrink(sc).into_iter().map(Scenario::Tool).collect(),
            Scenario::Dbg(sc) => dbg::shrink(sc).into_iter().map(Scenario::Dbg).collect(),
            Scenario::Circ(sc) => circ::shrink(sc).into_iter().map(Scenario::Circ).collect(),
        }
    }
}
