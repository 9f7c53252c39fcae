//! What the orchestrator and the preloaded simulator tell each other.
use serde::{Deserialize, Serialize};

/// One action of a simulated client.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum COp {
    Connect,
    /// Put bytes (text, or hex if `hex`) on the wire.
    Send { text: String, #[serde(default, skip_serializing_if = "is_false")] hex: bool },
    /// Go on when this many whole messages have been received.
    Wait(u32),
    /// Go on when the server has closed the connection.
    WaitEnd,
    /// Go on when that client has completed that many of its actions.
    After(u32, u32),
    /// Go on when nothing else in the world can happen.
    Idle,
    StopReading,
    StartReading,
    Close,
    Reset,
    ShutWrite,
    /// Change the simulated disk.
    PutFile(String, String),
    RemoveFile(String),
    /// Press Ctrl-C.
    Interrupt,
    /// Note the live heap size.
    Heap,
}

fn is_false(b: &bool) -> bool {
    !*b
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    Errno(i32),
    /// Transfer at most this many bytes.
    Short(u32),
    /// Successful, but nothing more: end of file.
    Eof,
}

/// The `nth` (from 0) call at a site, counted per object, fails.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// accept, dup, thread, recv, send, open, read, write
    pub site: String,
    /// Path or client number the call works on; empty for any.
    #[serde(default)]
    pub obj: String,
    pub nth: u32,
    pub kind: FaultKind,
    /// Fails from then on.
    #[serde(default)]
    pub sticky: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Policy {
    /// 0 uniform, 1 sticky, 2 priorities
    pub mode: u8,
    pub stay_pct: u8,
    /// Percentage of deliveries that are not everything under way.
    pub chunk_pct: u8,
    /// Percentage of those that are a single byte.
    pub byte_pct: u8,
    /// Percentage of partial transfers by the code under test.
    pub short_pct: u8,
    /// Percentage of interrupted calls.
    pub eintr_pct: u8,
    /// Send buffer of each connection.
    pub window: u32,
    /// Mean number of simulated machine cycles between thread switches; 0: never.
    pub preempt: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct SimSc {
    pub seed: u64,
    /// Recorded choices; when they run out, the simplest one is taken.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub choices: Option<Vec<u32>>,
    pub policy: Policy,
    /// Random bytes the process gets.
    pub entropy: u64,
    pub clients: Vec<Vec<COp>>,
    /// Simulated disk: path, hex contents.
    pub files: Vec<(String, String)>,
    pub faults: Vec<Fault>,
    pub max_steps: u64,
    /// Steps from an interrupt to the end; 0: any number.
    #[serde(default, skip_serializing_if = "is_zero")]
    pub prompt: u64,
    /// Where the clients connect to; 0: wherever something listens.
    #[serde(default)]
    pub port: u16,
}

fn is_zero(n: &u64) -> bool {
    *n == 0
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ClientRes {
    pub done: u32,
    /// Bytes received, hex.
    pub rx: String,
    /// Time (log position) and length of each piece.
    pub pieces: Vec<(u64, u32)>,
    pub accepted: bool,
    /// The server's side is closed (or was never opened).
    pub ended: bool,
    pub refused: bool,
    /// Positions in the log at which each action was completed.
    pub op_at: Vec<u64>,
    /// Bytes the server never read.
    pub unread: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct SimRes {
    /// exit, quiet, steps, abort
    pub end: String,
    pub status: i32,
    pub steps: u64,
    pub now_us: u64,
    /// When Ctrl-C was pressed.
    #[serde(default)]
    pub interrupt_us: Option<u64>,
    pub choices: Vec<u32>,
    pub signature: u64,
    pub log: Vec<String>,
    pub clients: Vec<ClientRes>,
    /// Live threads and what each is doing.
    pub threads: Vec<String>,
    /// Open simulated descriptors.
    pub fds: Vec<String>,
    /// Final disk, path and hex contents.
    pub files: Vec<(String, String)>,
    /// Everything done to the disk by the code under test.
    pub disk_ops: Vec<String>,
    pub stdout: String,
    pub stderr: String,
    /// Faults and perturbations that really happened.
    pub fired: Vec<(String, u64)>,
    pub heap: Vec<i64>,
    /// Ended threads, neither joined nor detached.
    #[serde(default)]
    pub zombies: u32,
    pub switches: u64,
    pub rare: Vec<(String, u64)>,
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => 0,
    };
    s.as_bytes().chunks_exact(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
