//! Simulation of the debug server: the real ydb binary, its threads, sockets,
//! files and clock simulated, driven by simulated clients, and compared
//! message by message with a model of the protocol and of the machine.
use crate::common::*;
use crate::gen::{self, Opts, Want};
use crate::pipe::Sig;
use crate::prng::Rng;
use crate::prog::*;
use crate::refm::RefM;
use crate::shimrun::{self, Out};
use crate::simapi::{COp, Fault, FaultKind, Policy, SimRes, SimSc};
use crate::tool::{absorb, shrink_choices};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- scenario

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rq {
    Launch(String),
    SetBp { path: String, lines: Vec<i64> },
    ConfDone,
    /// The same with the empty arguments the protocol allows.
    ConfDoneArgs,
    Next(i64),
    Continue(i64),
    Stack { th: i64, start: Option<i64> },
    Scopes(i64),
    Vars(i64),
    Threads,
    ExcBp(Vec<String>),
    /// A well-formed request that must be refused.
    Bad { cmd: String, args: Option<Value> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileC {
    Prog(usize),
    /// Bytes (hex) that are not a program.
    Junk(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Rq { rq: Rq, sync: bool },
    Put(String, FileC),
    Remove(String),
    /// Stop and start reading responses.
    Stall,
    Resume,
    /// Let everything else in the world happen first.
    Calm,
    /// Let all other sessions come to their ends first.
    Others,
    /// A request that is cut in two, and `Others` in between.
    Halves { rq: Rq, cut: u32 },
}

/// Goes on only when the others are through.
fn hogs(s: &Session) -> bool {
    s.acts.iter().any(|a| matches!(a, Act::Others | Act::Halves { .. }))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Disconnect,
    Close,
    Reset,
    Shut,
    /// The server ends the session (after bytes that are no request).
    Wait,
    /// The session stays open.
    Hold,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Session {
    /// Starts when that session's client has finished.
    pub after: Option<u32>,
    /// Sends no initialize request.
    pub no_init: bool,
    pub acts: Vec<Act>,
    /// Bytes (hex) sent at the end that do not form a request.
    pub garbage: Option<String>,
    pub how: How,
    /// All responses are awaited before the end.
    pub sync: bool,
    /// Style of the requests' text.
    pub style: u64,
    /// Note the heap size at the end.
    pub heap: bool,
}

/// How the server is started.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Start {
    /// 0: none is named.
    pub port: u16,
    pub style: u8,
    /// -v, -q and so on.
    pub verbosity: String,
    /// No such architecture.
    pub arch: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DbgSc {
    pub prop: String,
    pub arch: String,
    pub limit: Option<u64>,
    #[serde(default)]
    pub start: Option<Start>,
    pub progs: Vec<Prog>,
    pub files: Vec<(String, FileC)>,
    pub sess: Vec<Session>,
    /// Ctrl-C after so many actions of client `n`.
    #[serde(default)]
    pub interrupt: Option<(u32, u32)>,
    pub seed: u64,
    pub entropy: u64,
    pub policy: Policy,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub choices: Option<Vec<u32>>,
}

const MAX_STEPS: u64 = 3_000_000;
const DEFAULT_LIMIT: u64 = 50_000;
/// Fair steps that ending takes at most.
const PROMPT: u64 = 20_000;
/// A limit nobody lives to see.
const ENDLESS: u64 = 1 << 40;

// ---------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct At {
    prog: usize,
    cycle: u64,
    regs: [u64; 16],
    faulted: bool,
    sig: Vec<(&'static str, Sig)>,
}

#[derive(Clone, Debug)]
enum Body {
    Any,
    Init,
    SetBp(Vec<(i64, Option<u64>)>),
    Threads,
    Stack { lines: Vec<i64>, path: String },
    NoFrames,
    Scopes,
    Regs(Box<At>),
    Stage(Box<At>, usize),
}

#[derive(Clone, Debug)]
enum Exp {
    Ok { seq: i64, cmd: &'static str, body: Body },
    Refused { seq: i64, what: String },
    Initialized,
    Stopped { reasons: Vec<(&'static str, &'static str)>, pc: u64, cycle: u64, text: bool, bp: bool },
}

impl Exp {
    fn describe(&self) -> String {
        match self {
            Exp::Ok { seq, cmd, .. } => format!("the response to {cmd} (seq {seq})"),
            Exp::Refused { seq, what } => format!("the refusal of {what} (seq {seq})"),
            Exp::Initialized => "the initialized event".into(),
            Exp::Stopped { reasons, pc, cycle, .. } => {
                let r: Vec<_> = reasons.iter().map(|r| r.0).collect();
                format!("a stopped event ({}, pc {pc:#x}, cycle {cycle})", r.join(" or "))
            }
        }
    }
}

struct Launched {
    path: String,
    prog: usize,
    m: RefM,
}

/// One session as the documentation describes it.
struct Model<'a> {
    sc: &'a DbgSc,
    imgs: &'a [Option<Image>],
    files: BTreeMap<String, FileC>,
    opened: BTreeMap<String, u32>,
    read: BTreeMap<String, u32>,
    cur: Option<Launched>,
    bps: Vec<(i64, u64)>,
    exp: Vec<Exp>,
    cycles: u64,
    stops: BTreeMap<&'static str, u64>,
    /// Breakpoints were set for a program launched earlier.
    stale: bool,
    /// Does something whose outcome is not settled.
    void: bool,
    /// Executes a program that does not stop by itself.
    busy: bool,
    counts: BTreeMap<String, u64>,
}

fn nstages(arch: &str) -> usize {
    static N: OnceLock<BTreeMap<String, usize>> = OnceLock::new();
    *N.get_or_init(|| {
        crate::arch::ARCHS
            .iter()
            .map(|a| {
                let l = lib_views(a, &zero_mem(), &[0]);
                (a.to_string(), l.and_then(|v| v.into_iter().next()).map_or(0, |v| v.1.stages.len()))
            })
            .collect()
    })
    .get(arch)
    .unwrap_or(&0)
}

impl<'a> Model<'a> {
    fn new(sc: &'a DbgSc, imgs: &'a [Option<Image>]) -> Self {
        Model {
            sc,
            imgs,
            files: sc.files.iter().cloned().collect(),
            opened: BTreeMap::new(),
            read: BTreeMap::new(),
            cur: None,
            bps: vec![],
            exp: vec![],
            cycles: 0,
            stops: BTreeMap::new(),
            stale: false,
            void: false,
            busy: false,
            counts: BTreeMap::new(),
        }
    }

    fn ok(&mut self, seq: i64, cmd: &'static str, body: Body) {
        self.exp.push(Exp::Ok { seq, cmd, body });
    }
    fn no(&mut self, seq: i64, what: impl Into<String>) {
        self.exp.push(Exp::Refused { seq, what: what.into() });
    }

    fn fails(&mut self, site: &str, path: &str) -> bool {
        let m = if site == "open" { &mut self.opened } else { &mut self.read };
        let e = m.entry(path.into()).or_insert(0);
        let n = *e;
        *e += 1;
        self.sc.faults.iter().any(|f| {
            f.site == site
                && f.obj == path
                && matches!(f.kind, FaultKind::Errno(_))
                && (f.nth == n || f.sticky && n > f.nth)
        })
    }

    fn launch(&mut self, path: &str) -> Result<(), String> {
        let Some(f) = self.files.get(path).cloned() else {
            return Err("launch of a missing program".into());
        };
        if self.fails("open", path) {
            return Err("launch with a failing open".into());
        }
        // only the first read of a file is ever made to fail
        if self.fails("read", path) {
            return Err("launch with a failing read".into());
        }
        match f {
            FileC::Junk(_) => Err("launch of a program that does not assemble".into()),
            FileC::Prog(k) => {
                let Some(img) = &self.imgs[k] else { return Err("launch of a bad program".into()) };
                self.stale = !self.bps.is_empty();
                self.cur = Some(Launched { path: path.into(), prog: k, m: RefM::new(&img.mem, &self.sc.arch) });
                Ok(())
            }
        }
    }

    fn at(&self) -> Box<At> {
        let l = self.cur.as_ref().unwrap();
        Box::new(At {
            prog: l.prog,
            cycle: l.m.cycle(),
            regs: l.m.regs(),
            faulted: l.m.faulted(),
            sig: l.m.signals(),
        })
    }

    fn run(&mut self, single: bool) {
        let limit = self.sc.limit.unwrap_or(DEFAULT_LIMIT);
        self.void |= self.stale;
        let l = self.cur.as_mut().unwrap();
        let mut reasons = vec![];
        let mut bp = false;
        if l.m.done() {
            reasons.push(("pause", "terminat"));
        } else {
            let before = self.cycles;
            loop {
                if self.sc.interrupt.is_some() && limit > ENDLESS && self.cycles - before > 6000 {
                    self.busy = true;
                    return;
                }
                // shrinking can make a program endless
                if self.cycles - before > 120_000 {
                    self.void = true;
                    return;
                }
                l.m.step();
                self.cycles += 1;
                let pc = l.m.pc();
                if self.bps.iter().any(|b| b.1 == pc) {
                    bp = true;
                    reasons.push(("breakpoint", "breakpoint"));
                    break;
                }
                if single {
                    reasons.push(("step", "step"));
                    break;
                }
                if l.m.cycle() >= limit {
                    reasons.push(("step", "max"));
                    if l.m.done() {
                        reasons.push(("pause", "terminat"));
                    }
                    break;
                }
                if l.m.done() {
                    reasons.push(("pause", "terminat"));
                    break;
                }
            }
        }
        *self.stops.entry(reasons[0].1).or_default() += 1;
        let (pc, cycle) = (l.m.pc(), l.m.cycle());
        self.exp.push(Exp::Stopped { reasons, pc, cycle, text: true, bp });
    }

    fn request(&mut self, seq: i64, rq: &Rq) {
        let before = self.exp.len();
        self.request1(seq, rq);
        let name = match &self.exp[before] {
            Exp::Refused { .. } => "requests_refused",
            Exp::Ok { cmd, .. } => cmd,
            _ => "",
        };
        *self.counts.entry(name.into()).or_default() += 1;
    }

    fn request1(&mut self, seq: i64, rq: &Rq) {
        let launched = self.cur.is_some();
        match rq {
            Rq::Launch(p) => match self.launch(p) {
                Ok(()) => self.ok(seq, "launch", Body::Any),
                Err(e) => self.no(seq, e),
            },
            Rq::SetBp { path, lines } => {
                if !launched {
                    return self.no(seq, "setBreakpoints before launch");
                }
                let l = self.cur.as_ref().unwrap();
                if l.path != *path {
                    return self.no(seq, "setBreakpoints in another file");
                }
                let img = self.imgs[l.prog].as_ref().unwrap();
                let mut v = vec![];
                let k = img.lines.len() as i64;
                // the end of the text may count as one more line
                self.void |= lines.iter().any(|n| *n == k + 1 || *n == k + 2);
                for n in lines {
                    if *n < 1 || *n > img.lines.len() as i64 {
                        return self.no(seq, format!("a breakpoint on line {n} of {}", img.lines.len()));
                    }
                    v.push((*n, img.lines[*n as usize - 1].0));
                }
                self.stale = false;
                self.bps = v.iter().filter_map(|(n, a)| a.map(|a| (*n, a))).collect();
                self.ok(seq, "setBreakpoints", Body::SetBp(v));
            }
            Rq::ConfDone | Rq::ConfDoneArgs if !launched => self.no(seq, "configurationDone before launch"),
            Rq::ConfDone | Rq::ConfDoneArgs => {
                self.ok(seq, "configurationDone", Body::Any);
                self.exp.push(Exp::Stopped {
                    reasons: vec![("entry", "beginning")],
                    pc: 0,
                    cycle: 0,
                    text: false,
                    bp: false,
                });
            }
            Rq::Next(t) | Rq::Continue(t) => {
                let next = matches!(rq, Rq::Next(_));
                let name = if next { "next" } else { "continue" };
                if *t != 1 {
                    return self.no(seq, format!("{name} of thread {t}"));
                }
                if !launched {
                    return self.no(seq, format!("{name} before launch"));
                }
                self.ok(seq, name, Body::Any);
                self.run(next);
            }
            Rq::Stack { th, .. } if *th != 1 => self.no(seq, format!("stackTrace of thread {th}")),
            Rq::Stack { .. } if !launched => self.no(seq, "stackTrace before launch"),
            Rq::Stack { start, .. } if start.unwrap_or(0) > 0 => self.ok(seq, "stackTrace", Body::NoFrames),
            Rq::Stack { .. } => match &self.cur {
                None => self.no(seq, "stackTrace before launch"),
                Some(l) => {
                    let img = self.imgs[l.prog].as_ref().unwrap();
                    let pc = l.m.pc();
                    let lines = (0..img.lines.len())
                        .filter(|i| img.lines[*i].0 == Some(pc))
                        .map(|i| i as i64 + 1)
                        .collect();
                    let path = l.path.clone();
                    self.ok(seq, "stackTrace", Body::Stack { lines, path });
                }
            },
            Rq::Scopes(f) if *f != 1 => self.no(seq, format!("scopes of frame {f}")),
            Rq::Scopes(_) if !launched => self.no(seq, "scopes before launch"),
            Rq::Scopes(_) => self.ok(seq, "scopes", Body::Scopes),
            Rq::Vars(_) if !launched => self.no(seq, "variables before launch"),
            Rq::Vars(1) => {
                let b = Body::Regs(self.at());
                self.ok(seq, "variables", b)
            }
            Rq::Vars(n) if *n < 1 || *n > 1 + nstages(&self.sc.arch) as i64 => {
                self.no(seq, format!("variables of reference {n}"))
            }
            Rq::Vars(n) => {
                let b = Body::Stage(self.at(), *n as usize - 2);
                self.ok(seq, "variables", b)
            }
            Rq::Threads => self.ok(seq, "threads", Body::Threads),
            Rq::ExcBp(f) if f.is_empty() => self.ok(seq, "setExceptionBreakpoints", Body::Any),
            Rq::ExcBp(_) => self.no(seq, "exception filters"),
            Rq::Bad { cmd, .. } => self.no(seq, format!("an unsupported {cmd} request")),
        }
    }
}

// ---------------------------------------------------------------- wire format

fn wire(r: &mut Rng, styled: bool, seq: i64, cmd: &str, args: Option<Value>) -> String {
    let mut fields = vec![
        ("seq", seq.to_string()),
        ("type", "\"request\"".to_string()),
        ("command", format!("\"{cmd}\"")),
    ];
    if let Some(a) = args {
        let t = if styled && r.pct(25) { serde_json::to_string_pretty(&a) } else { serde_json::to_string(&a) };
        let mut t = t.unwrap();
        if styled && r.pct(20) {
            // escapes instead of characters
            t = t
                .chars()
                .map(|c| if c.is_ascii() { c.to_string() } else { format!("\\u{:04x}", c as u32) })
                .collect();
        }
        fields.push(("arguments", t));
    }
    if styled {
        r.shuffle(&mut fields);
    }
    let (c, k, nl) = if !styled {
        (":", ",", "")
    } else {
        *r.pick(&[(":", ",", ""), (": ", ", ", ""), (" : ", " , ", " "), (":", ",\n  ", "\n"), (":\t", ",\r\n", "\r\n")])
    };
    let inner: Vec<String> = fields.iter().map(|(n, v)| format!("\"{n}\"{c}{v}")).collect();
    format!("{{{nl}{}{nl}}}", inner.join(k))
}

fn frame(body: &str) -> String {
    format!("Content-Length: {}\r\n\r\n{body}", body.len())
}

fn arguments(r: &mut Rng, styled: bool, rq: &Rq) -> (&'static str, Option<Value>) {
    let more = styled && r.pct(30);
    match rq {
        Rq::Launch(p) => (
            "launch",
            Some(if more {
                json!({"type": "y86", "request": "launch", "name": "Debug", "program": p, "noDebug": false, "stopOnEntry": true})
            } else {
                json!({"program": p})
            }),
        ),
        Rq::SetBp { path, lines } => {
            let b: Vec<Value> = lines.iter().map(|l| json!({"line": l})).collect();
            (
                "setBreakpoints",
                Some(if more {
                    json!({"source": {"name": "x", "path": path}, "lines": lines, "breakpoints": b, "sourceModified": false})
                } else {
                    json!({"source": {"path": path}, "breakpoints": b})
                }),
            )
        }
        Rq::ConfDone => ("configurationDone", None),
        Rq::ConfDoneArgs => ("configurationDone", Some(json!({}))),
        Rq::Next(t) => {
            ("next", Some(if more { json!({"threadId": t, "granularity": "instruction"}) } else { json!({"threadId": t}) }))
        }
        Rq::Continue(t) => {
            ("continue", Some(if more { json!({"threadId": t, "singleThread": true}) } else { json!({"threadId": t}) }))
        }
        Rq::Stack { th, start } => (
            "stackTrace",
            Some(match start {
                Some(s) => json!({"threadId": th, "startFrame": s, "levels": 20}),
                None => json!({"threadId": th}),
            }),
        ),
        Rq::Scopes(f) => ("scopes", Some(json!({"frameId": f}))),
        Rq::Vars(n) => ("variables", Some(json!({"variablesReference": n}))),
        Rq::Threads => ("threads", None),
        Rq::ExcBp(f) => ("setExceptionBreakpoints", Some(json!({"filters": f}))),
        Rq::Bad { args, .. } => ("", args.clone()),
    }
}

// ---------------------------------------------------------------- scripts

struct Plan {
    ops: Vec<COp>,
    exp: Vec<Exp>,
    cycles: u64,
    stops: BTreeMap<&'static str, u64>,
    /// Everything expected must have arrived at the end.
    full: bool,
    void: bool,
    counts: BTreeMap<String, u64>,
}

fn script(sc: &DbgSc, imgs: &[Option<Image>], k: usize, lens: &[u32]) -> Plan {
    let s = &sc.sess[k];
    let r = &mut Rng::new(s.style);
    let styled = s.style != 0;
    let mut m = Model::new(sc, imgs);
    let mut ops = vec![];
    let mut stalled = false;
    let step = 1 + r.below(3) as i64;
    let mut seq = if styled && r.pct(30) { 1 + r.below(1 << 40) as i64 } else { 1 };
    match s.after {
        Some(u32::MAX) => ops.extend((0..k).map(|a| COp::After(a as u32, lens[a]))),
        Some(a) => ops.push(COp::After(a, lens[a as usize])),
        None => {}
    }
    ops.push(COp::Connect);
    let send = |t: String| COp::Send { text: t, hex: false };
    if !s.no_init {
        let a = if styled && r.pct(50) {
            json!({"clientID": "vscode", "clientName": "Visual Studio Code", "adapterID": "y86", "locale": "en", "linesStartAt1": true, "columnsStartAt1": true, "pathFormat": "path", "supportsVariableType": true, "supportsProgressReporting": true})
        } else {
            json!({"adapterID": "y86"})
        };
        ops.push(send(frame(&wire(r, styled, seq, "initialize", Some(a)))));
        m.ok(seq, "initialize", Body::Init);
        m.exp.push(Exp::Initialized);
        if r.pct(50) {
            ops.push(COp::Wait(m.exp.len() as u32));
        }
    }
    let others: Vec<COp> = (0..sc.sess.len())
        .filter(|a| *a != k && sc.sess[*a].after != Some(u32::MAX) && !hogs(&sc.sess[*a]))
        .map(|a| COp::After(a as u32, u32::MAX))
        .collect();
    for a in &s.acts {
        match a {
            Act::Others => ops.extend(others.iter().cloned()),
            Act::Halves { rq, cut } => {
                seq += step;
                let (cmd, args) = arguments(r, styled, rq);
                let t = frame(&wire(r, styled, seq, cmd, args));
                m.request(seq, rq);
                let mut at = 1 + *cut as usize % (t.len() - 1);
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                ops.push(send(t[..at].into()));
                ops.extend(others.iter().cloned());
                ops.push(send(t[at..].into()));
            }
            Act::Rq { rq, sync } => {
                seq += step;
                let (cmd, args) = arguments(r, styled, rq);
                let cmd = if let Rq::Bad { cmd, .. } = rq { cmd.as_str() } else { cmd };
                ops.push(send(frame(&wire(r, styled, seq, cmd, args))));
                m.request(seq, rq);
                if m.busy {
                    // only Ctrl-C ends this one
                    let Model { exp, cycles, stops, void, counts, .. } = m;
                    return Plan { ops, exp, cycles, stops, full: false, void, counts };
                }
                if *sync && !stalled {
                    ops.push(COp::Wait(m.exp.len() as u32));
                }
            }
            Act::Put(p, c) => {
                if stalled {
                    ops.push(COp::StartReading);
                    stalled = false;
                }
                ops.push(COp::Wait(m.exp.len() as u32));
                ops.push(COp::PutFile(p.clone(), file_hex(sc, c)));
                m.files.insert(p.clone(), c.clone());
            }
            Act::Remove(p) => {
                if stalled {
                    ops.push(COp::StartReading);
                    stalled = false;
                }
                ops.push(COp::Wait(m.exp.len() as u32));
                ops.push(COp::RemoveFile(p.clone()));
                m.files.remove(p);
            }
            Act::Stall => {
                stalled = true;
                ops.push(COp::StopReading);
            }
            Act::Resume => {
                stalled = false;
                ops.push(COp::StartReading);
            }
            Act::Calm => ops.push(COp::Idle),
        }
    }
    let mut full = true;
    let gone = matches!(s.how, How::Close | How::Reset);
    if stalled && !(gone && !s.sync) {
        ops.push(COp::StartReading);
    }
    if s.sync {
        ops.push(COp::Wait(m.exp.len() as u32));
    }
    if let Some(g) = &s.garbage {
        ops.push(COp::Send { text: g.clone(), hex: true });
    }
    match s.how {
        How::Disconnect => {
            seq += step;
            let a = if styled && r.pct(50) { json!({"restart": false, "terminateDebuggee": true}) } else { json!({}) };
            ops.push(send(frame(&wire(r, styled, seq, "disconnect", Some(a)))));
            m.ok(seq, "disconnect", Body::Any);
            ops.push(COp::WaitEnd);
        }
        How::Close => {
            full = s.sync;
            ops.push(COp::Close);
        }
        How::Reset => {
            full = s.sync;
            ops.push(COp::Reset);
        }
        How::Shut => {
            ops.push(COp::ShutWrite);
            ops.push(COp::WaitEnd);
        }
        How::Wait => ops.push(COp::WaitEnd),
        How::Hold => ops.push(COp::Wait(m.exp.len() as u32)),
    }
    if s.heap {
        ops.push(COp::Idle);
        ops.push(COp::Heap);
    }
    Plan { ops, exp: m.exp, cycles: m.cycles, stops: m.stops, full, void: m.void, counts: m.counts }
}

fn file_hex(sc: &DbgSc, c: &FileC) -> String {
    match c {
        FileC::Prog(k) => hex(sc.progs[*k].render().as_bytes()),
        FileC::Junk(h) => h.clone(),
    }
}

// ---------------------------------------------------------------- the library's view

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct View {
    regs: Vec<u64>,
    pc: u64,
    /// Name, signals.
    stages: Vec<(String, Vec<(String, String)>)>,
}

/// What the simulator library shows after these cycles, in a process of its own.
fn lib_views(arch: &str, mem: &[u8; MEM], cycles: &[u64]) -> Option<BTreeMap<u64, View>> {
    let b = crate::runner::in_fork(30_000, || {
        let (arch, cycles, mem) = (arch.to_string(), cycles.to_vec(), Box::new(*mem));
        crate::arch::on_big_stack(move || {
            let mut sim = y86_sim::architectures::create_sim(arch, y86_sim::framework::MemData::init(*mem), false);
            let mut v = BTreeMap::new();
            for c in cycles {
                while sim.cycle_count() < c {
                    sim.initiate_next_cycle();
                    sim.propagate_signals();
                }
                v.insert(
                    c,
                    View {
                        regs: sim.registers().to_vec(),
                        pc: sim.program_counter(),
                        stages: sim
                            .get_stage_info()
                            .into_iter()
                            .map(|s| {
                                (
                                    s.name.to_string(),
                                    s.signals.iter().map(|(n, x)| (n.to_string(), x.to_string())).collect(),
                                )
                            })
                            .collect(),
                    },
                );
            }
            serde_json::to_vec(&v).unwrap()
        })
    })
    .ok()?;
    serde_json::from_slice(&b).ok()
}

type Views = BTreeMap<usize, Option<BTreeMap<u64, View>>>;

// ---------------------------------------------------------------- checking

/// What a property looks at.
#[derive(Clone, Copy)]
struct Look {
    stop: bool,
    bp: bool,
    insp: bool,
    flow: bool,
    ends: bool,
    /// Also answers that must be refusals or successes.
    flag: bool,
}

fn look(prop: &str) -> Look {
    let all = Look { stop: true, bp: true, insp: true, flow: true, ends: true, flag: true };
    match prop {
        "C08" => Look { stop: false, bp: false, insp: false, ..all },
        "C09" => Look { insp: false, ends: false, ..all },
        "C10" => Look { bp: false, ends: false, ..all },
        "C13" => Look { insp: false, bp: false, ends: false, ..all },
        "C14" => Look { stop: false, bp: false, insp: false, flow: false, flag: false, ends: true },
        "C15" => Look { stop: false, bp: false, insp: false, flow: false, flag: false, ends: false },
        _ => all,
    }
}

fn parse_messages(rx: &[u8]) -> Result<(Vec<Value>, usize), String> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        while i < rx.len() && matches!(rx[i], b'\r' | b'\n') {
            i += 1;
        }
        if i == rx.len() {
            return Ok((v, 0));
        }
        let rest = &rx[i..];
        let Some(h) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            let t = String::from_utf8_lossy(&rest[..rest.len().min(60)]).to_string();
            if rest.len() > 200 || !"Content-Length:".starts_with(&t[..t.len().min(15)]) {
                return Err(format!("no message header in {t:?}"));
            }
            return Ok((v, rest.len()));
        };
        let head = String::from_utf8_lossy(&rest[..h]).to_string();
        let mut len = None;
        for l in head.split("\r\n") {
            match l.split_once(": ") {
                Some(("Content-Length", n)) => {
                    len = n.parse::<usize>().ok();
                }
                Some(("Content-Type", _)) => {}
                _ => return Err(format!("bad header line {l:?}")),
            }
        }
        let Some(n) = len else { return Err(format!("no length in header {head:?}")) };
        if rest.len() < h + 4 + n {
            return Ok((v, rest.len()));
        }
        let body = &rest[h + 4..h + 4 + n];
        match serde_json::from_slice::<Value>(body) {
            Ok(j) => v.push(j),
            Err(e) => return Err(format!("message {} is not JSON ({e}): {}", v.len() + 1, String::from_utf8_lossy(body))),
        }
        i += h + 4 + n;
    }
}

fn num_of(s: &str) -> Option<u64> {
    match s {
        "true" => Some(1),
        "false" => Some(0),
        _ => match s.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => s.parse().ok(),
        },
    }
}

struct Ctx<'a> {
    sc: &'a DbgSc,
    views: &'a Views,
    look: Look,
}

fn var_list(m: &Value) -> Option<Vec<(String, String)>> {
    m["body"]["variables"]
        .as_array()?
        .iter()
        .map(|v| Some((v["name"].as_str()?.to_string(), v["value"].as_str()?.to_string())))
        .collect()
}

impl Ctx<'_> {
    fn stages<'b>(&'b self, at: &At) -> Option<&'b View> {
        self.views.get(&at.prog)?.as_ref()?.get(&at.cycle)
    }

    fn check_regs(&self, at: &At, m: &Value) -> Result<(), String> {
        let Some(v) = var_list(m) else { return Err(format!("no variables in {m}")) };
        for (i, n) in REGS.iter().enumerate() {
            let Some((_, x)) = v.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)) else {
                return Err(format!("register {n} is not shown: {m}"));
            };
            let want = if at.faulted {
                match self.stages(at) {
                    Some(l) => l.regs[i],
                    None => continue,
                }
            } else {
                at.regs[i]
            };
            if num_of(x) != Some(want) {
                return Err(format!("register {n} is shown as {x} in cycle {}, and is {want:#x}", at.cycle));
            }
        }
        Ok(())
    }

    fn check_stage(&self, at: &At, k: usize, m: &Value) -> Result<(), String> {
        let Some(v) = var_list(m) else { return Err(format!("no variables in {m}")) };
        for (n, x) in &v {
            if let Some((_, want)) = at.sig.iter().find(|(k, _)| k == n) {
                let ok = match want {
                    Sig::N(w) => num_of(x) == Some(*w),
                    Sig::S(w) => x == w.name(),
                };
                if !ok {
                    return Err(format!("signal {n} is shown as {x} in cycle {}, and is {want:x?}", at.cycle));
                }
            }
        }
        if let Some(l) = self.stages(at) {
            let Some((name, sig)) = l.stages.get(k) else { return Err(format!("no stage {k}")) };
            if *sig != v {
                let d = sig.iter().zip(&v).find(|(a, b)| a != b);
                return Err(format!(
                    "stage {name} in cycle {}: {} signals shown, {} in the machine; first difference {d:?} (machine, shown)",
                    at.cycle,
                    v.len(),
                    sig.len()
                ));
            }
        }
        Ok(())
    }

    fn check_body(&self, body: &Body, m: &Value, ids: &mut BTreeMap<u64, Value>) -> Result<(), (&'static str, String)> {
        let insp = |r: Result<(), String>| r.map_err(|e| ("inspection", e));
        let b = &m["body"];
        match body {
            Body::Any => Ok(()),
            Body::Init => {
                if b["supportsConfigurationDoneRequest"] != json!(true) {
                    return Err(("flow", format!("configurationDone is not announced: {m}")));
                }
                Ok(())
            }
            Body::SetBp(want) if self.look.bp => {
                let e = |s: String| Err(("breakpoints", s));
                let Some(got) = b["breakpoints"].as_array() else { return e(format!("no breakpoints in {m}")) };
                if got.len() != want.len() {
                    return e(format!("{} breakpoints answered for {} requested", got.len(), want.len()));
                }
                ids.clear();
                for (g, (line, addr)) in got.iter().zip(want) {
                    if g["verified"] != json!(addr.is_some()) {
                        return e(format!("breakpoint on line {line} (address {addr:x?}) answered {g}"));
                    }
                    let Some(a) = addr else { continue };
                    if g["line"] != json!(line) {
                        return e(format!("breakpoint on line {line} answered {g}"));
                    }
                    if g["id"].is_null() {
                        return e(format!("verified breakpoint without id: {g}"));
                    }
                    if let Some((b, _)) = ids.iter().find(|(b, i)| **b != *a && **i == g["id"]) {
                        return e(format!("breakpoints at {a:#x} and {b:#x} have the same id"));
                    }
                    ids.insert(*a, g["id"].clone());
                }
                Ok(())
            }
            Body::SetBp(want) => {
                ids.clear();
                if let Some(got) = b["breakpoints"].as_array() {
                    for (g, (_, addr)) in got.iter().zip(want) {
                        if let Some(a) = addr {
                            ids.insert(*a, g["id"].clone());
                        }
                    }
                }
                Ok(())
            }
            _ if !self.look.insp => Ok(()),
            Body::Threads => {
                let t = &b["threads"];
                if t.as_array().is_none_or(|t| t.len() != 1) || t[0]["id"] != json!(1) {
                    return Err(("inspection", format!("threads: {m}")));
                }
                Ok(())
            }
            Body::NoFrames => {
                if b["stackFrames"].as_array().is_none_or(|f| !f.is_empty()) {
                    return Err(("inspection", format!("there is one frame only: {m}")));
                }
                Ok(())
            }
            Body::Stack { lines, path } => {
                let f = &b["stackFrames"];
                if f.as_array().is_none_or(|f| f.len() != 1) || f[0]["id"] != json!(1) {
                    return Err(("inspection", format!("not one frame: {m}")));
                }
                if f[0]["source"]["path"] != json!(path) {
                    return Err(("inspection", format!("wrong source, {path} is being debugged: {m}")));
                }
                let n = f[0]["line"].as_i64().unwrap_or(-1);
                if !(lines.contains(&n) || lines.is_empty() && n <= 0) {
                    return Err(("inspection", format!("line {n} is shown, the program counter is on line {lines:?}")));
                }
                Ok(())
            }
            Body::Scopes => {
                let Some(s) = b["scopes"].as_array() else { return Err(("inspection", format!("no scopes: {m}"))) };
                let refs: Vec<_> = s.iter().map(|s| s["variablesReference"].as_i64().unwrap_or(0)).collect();
                let want: Vec<i64> = (1..=1 + nstages(&self.sc.arch) as i64).collect();
                if refs != want {
                    return Err(("inspection", format!("scope references {refs:?}, expected {want:?}")));
                }
                let names: Vec<_> = s.iter().map(|s| s["name"].as_str().unwrap_or("").to_string()).collect();
                if !names[0].to_lowercase().contains("register") {
                    return Err(("inspection", format!("scopes {names:?}")));
                }
                for v in self.views.values().flatten().flat_map(|v| v.values()) {
                    let l: Vec<_> = v.stages.iter().map(|s| s.0.clone()).collect();
                    if names[1..] != l[..] {
                        return Err(("inspection", format!("scopes {names:?}, stages {l:?}")));
                    }
                }
                Ok(())
            }
            Body::Regs(at) => insp(self.check_regs(at, m)),
            Body::Stage(at, k) => insp(self.check_stage(at, *k, m)),
        }
    }

    /// The first way in which the messages differ from what is expected.
    fn check_messages(&self, exp: &[Exp], got: &[Value], full: bool) -> Result<(), (&'static str, String)> {
        let mut ids: BTreeMap<u64, Value> = BTreeMap::new();
        for (i, m) in got.iter().enumerate() {
            let n = i + 1;
            if m["seq"] != json!(n) && self.look.flow {
                return Err(("sequence", format!("message {n} is numbered {}", m["seq"])));
            }
            let Some(e) = exp.get(i) else {
                return Err(("flow", format!("message {n} is one too many: {m}")));
            };
            let mism = || Err(("flow", format!("message {n} should be {} and is {m}", e.describe())));
            match e {
                Exp::Ok { seq, .. } | Exp::Refused { seq, .. } => {
                    if m["type"] != json!("response") || m["request_seq"] != json!(seq) {
                        return mism();
                    }
                    let good = matches!(e, Exp::Ok { .. });
                    if m["success"] != json!(good) {
                        if !self.look.flag {
                            return Ok(());
                        }
                        let c = if good { "refused" } else { "granted" };
                        return Err((c, format!("message {n} should be {} and is {m}", e.describe())));
                    }
                    if let Exp::Ok { cmd, body, .. } = e {
                        if !m["command"].is_null() && m["command"] != json!(cmd) {
                            return mism();
                        }
                        self.check_body(body, m, &mut ids).map_err(|(c, t)| (c, format!("message {n}: {t}")))?;
                    }
                }
                Exp::Initialized => {
                    if m["type"] != json!("event") || m["event"] != json!("initialized") {
                        return mism();
                    }
                }
                Exp::Stopped { reasons, pc, cycle, text, bp } => {
                    if m["type"] != json!("event") || m["event"] != json!("stopped") {
                        return mism();
                    }
                    if !self.look.stop {
                        continue;
                    }
                    let b = &m["body"];
                    let mism = |t: &str| Err(("stop", format!("message {n} ({t}) should be {} and is {m}", e.describe())));
                    if b["threadId"] != json!(1) {
                        return mism("thread");
                    }
                    let (r, d) = (b["reason"].as_str().unwrap_or(""), b["description"].as_str().unwrap_or(""));
                    if !reasons.iter().any(|(x, y)| r == *x && d.contains(y)) {
                        return mism("reason");
                    }
                    if *text {
                        let t = b["text"].as_str().unwrap_or("");
                        if t != format!("pc = {pc:#x}, cycle count = {cycle}") {
                            return mism("place");
                        }
                    }
                    let hit = b["hitBreakpointIds"].as_array();
                    if *bp {
                        let ok = hit.is_some_and(|h| !h.is_empty() && h.iter().all(|x| ids.get(pc) == Some(x)));
                        if !ok {
                            return mism("breakpoint id");
                        }
                    } else if hit.is_some_and(|h| !h.is_empty()) {
                        return mism("no breakpoint is hit");
                    }
                }
            }
        }
        if full && got.len() < exp.len() {
            return Err(("missing", format!("{} messages arrive; missing is {}", got.len(), exp[got.len()].describe())));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- generation

const ARCHS: [&str; 3] = crate::arch::ARCHS;

/// What the generator knows about a program.
struct Known {
    nlines: i64,
    /// Lines with an address that are executed, by the reference machine.
    hot: Vec<i64>,
    addressed: Vec<i64>,
    bare: Vec<i64>,
    /// Cycles to the end, if it ends soon.
    len: Option<u64>,
    /// Cycles at which each hot address is reached.
    pcs: Vec<u64>,
}

fn know(img: &Image, arch: &str) -> Known {
    let mut m = RefM::new(&img.mem, arch);
    let mut pcs = vec![];
    while !m.done() && m.cycle() < 3000 {
        m.step();
        pcs.push(m.pc());
    }
    let mut k = Known {
        nlines: img.lines.len() as i64,
        hot: vec![],
        addressed: vec![],
        bare: vec![],
        len: m.done().then(|| m.cycle()),
        pcs,
    };
    let set: std::collections::BTreeSet<u64> = k.pcs.iter().copied().collect();
    for (i, (a, _)) in img.lines.iter().enumerate() {
        let l = i as i64 + 1;
        match a {
            None => k.bare.push(l),
            Some(a) => {
                k.addressed.push(l);
                if set.contains(a) {
                    k.hot.push(l);
                }
            }
        }
    }
    k
}

fn policy(r: &mut Rng) -> Policy {
    let calm = r.pct(10);
    Policy {
        mode: r.below(3) as u8,
        stay_pct: *r.pick(&[50, 90, 99]),
        chunk_pct: if calm { 0 } else { *r.pick(&[0, 20, 60, 95]) },
        byte_pct: *r.pick(&[0, 10, 50]),
        short_pct: if calm { 0 } else { *r.pick(&[0, 20, 70]) },
        eintr_pct: if calm { 0 } else { *r.pick(&[0, 3, 20]) },
        window: if r.pct(60) { 65536 } else { *r.pick(&[16, 100, 300, 2000]) },
        preempt: if r.pct(40) { 0 } else { *r.pick(&[2, 10, 50, 300]) },
    }
}

const JUNK: [&str; 8] = [
    "irmovq $0x, %rax\n",
    "jmp nowhere\n",
    "\u{fffd} addq\n",
    "halt\n    nop nop\n",
    ".pos 0x10000\nhalt\n",
    "irmovq $99999999999999999999, %rax\n",
    "    addq %rax\n",
    "x: halt\n .quad y\n",
];

fn junk(r: &mut Rng) -> FileC {
    if r.pct(20) {
        let mut b = b"    irmovq $1, %rax\n# ".to_vec();
        b.push(*r.pick(&[0xffu8, 0x80, 0xc3]));
        b.extend(b"\nhalt\n");
        return FileC::Junk(hex(&b));
    }
    if r.pct(15) {
        // errors with long messages
        let n = 1 + r.idx(600);
        let t = match r.below(4) {
            0 => format!("jmp {}\n", "l".repeat(n)),
            1 => format!("halt\n.quad {}\n", "9".repeat(n + 19)),
            2 => format!("{}addq\n", " ".repeat(n)),
            _ => format!("irmovq $0x1{}, %rax\n", "0".repeat(n + 15)),
        };
        return FileC::Junk(hex(t.as_bytes()));
    }
    FileC::Junk(hex(r.pick(&JUNK).as_bytes()))
}

fn unsupported(r: &mut Rng, path: &str) -> Rq {
    let src = json!({"path": path});
    let (c, a) = match r.below(37) {
        0 => ("pause", Some(json!({"threadId": 1}))),
        1 => ("modules", Some(json!({}))),
        2 => ("source", Some(json!({"sourceReference": 0, "source": src}))),
        3 => ("evaluate", Some(json!({"expression": "%rax", "frameId": 1}))),
        4 => ("stepIn", Some(json!({"threadId": 1}))),
        5 => ("stepOut", Some(json!({"threadId": 1}))),
        6 => ("stepBack", Some(json!({"threadId": 1}))),
        7 => ("reverseContinue", Some(json!({"threadId": 1}))),
        8 => ("restart", Some(json!({}))),
        9 => ("restartFrame", Some(json!({"frameId": 1}))),
        10 => ("goto", Some(json!({"threadId": 1, "targetId": 1}))),
        11 => ("gotoTargets", Some(json!({"source": src, "line": 1}))),
        12 => ("terminate", Some(json!({}))),
        13 => ("terminateThreads", Some(json!({"threadIds": [1]}))),
        14 => ("attach", Some(json!({"program": path}))),
        15 => ("loadedSources", None),
        16 => ("cancel", Some(json!({"requestId": 1}))),
        17 => ("setVariable", Some(json!({"variablesReference": 1, "name": "rax", "value": "1"}))),
        18 => ("readMemory", Some(json!({"memoryReference": "0", "count": 8}))),
        19 => ("writeMemory", Some(json!({"memoryReference": "0", "data": "AAAA"}))),
        20 => ("disassemble", Some(json!({"memoryReference": "0", "instructionCount": 4}))),
        21 => ("exceptionInfo", Some(json!({"threadId": 1}))),
        22 => ("setFunctionBreakpoints", Some(json!({"breakpoints": []}))),
        23 => ("completions", Some(json!({"text": "a", "column": 1}))),
        24 => ("breakpointLocations", Some(json!({"source": src, "line": 1}))),
        25 => ("stepInTargets", Some(json!({"frameId": 1}))),
        26 => ("setExpression", Some(json!({"expression": "%rax", "value": "2"}))),
        27 => ("initialize", Some(json!({"adapterID": "again"}))),
        28 => ("launch", Some(json!({}))),
        29 => ("launch", Some(json!({"program": 5}))),
        30 => ("launch", Some(json!({"noDebug": true, "name": path}))),
        31 => ("setBreakpoints", Some(json!({"source": src}))),
        32 => ("setExceptionBreakpoints", Some(json!({"filters": [], "filterOptions": [{"filterId": "x"}]}))),
        33 => ("setExceptionBreakpoints", Some(json!({"filters": [], "exceptionOptions": [{"breakMode": "always"}]}))),
        34 => ("launch", Some(json!({"program": null}))),
        35 => ("launch", Some(json!({"program": [path]}))),
        _ => ("setBreakpoints", Some(json!({"source": {"name": "x"}, "breakpoints": [{"line": 1}]}))),
    };
    Rq::Bad { cmd: c.into(), args: a }
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    let full = frame("{\"seq\":99,\"type\":\"request\",\"command\":\"threads\"}").into_bytes();
    match r.below(15) {
        14 => {
            let eol = *r.pick(&["", "\r", "\r\n", "\r\n\r", "\r\n\r\n"]);
            format!("Content-Length: {}{eol}", r.pick(&[1u64 << 60, u64::MAX, 1 << 40, 1 << 34])).into_bytes()
        }
        0 => b"\r\n\r\n".to_vec(),
        1 => b"Content-Length: abc\r\n\r\n{}".to_vec(),
        2 => b"X-Header: 1\r\n\r\n".to_vec(),
        3 => b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n".to_vec(),
        4 => format!("Content-Length: {}\r\n\r\n{{", r.pick(&[1u64 << 60, u64::MAX, 1 << 40, 1 << 34])).into_bytes(),
        5 => b"Content-Length: -1\r\n\r\n{}".to_vec(),
        6 => frame("{").into_bytes(),
        7 => frame("[]").into_bytes(),
        8 => frame("{\"seq\":\"x\"}").into_bytes(),
        9 => {
            let mut b = b"Content-Length: 3\r\n\r\n".to_vec();
            b.extend([0xff, 0xfe, 0x00]);
            b
        }
        10 => (0..1 + r.below(300)).map(|_| r.next() as u8).collect(),
        11 => frame("").into_bytes(),
        _ => full[..1 + r.idx(full.len() - 1)].to_vec(),
    }
}

struct Cfg {
    /// Weights: next, continue, setBreakpoints, inspection, bad request, relaunch, file change, stall, calm, threads/exc.
    w: [u64; 10],
    n: (u64, u64),
    /// Percentage of requests that are awaited.
    sync: u64,
    early: u64,
}

struct SG<'a> {
    r: &'a mut Rng,
    sc: &'a DbgSc,
    known: &'a [Known],
    /// Files this session may use: path, and whether it is private.
    files: BTreeMap<String, FileC>,
    mine: Vec<String>,
    shared: Vec<String>,
    cur: Option<(String, usize)>,
    acts: Vec<Act>,
    sync: u64,
    stalled: bool,
    /// Cycles that may still be run.
    budget: u64,
    must_bp: bool,
}

impl SG<'_> {
    fn rq(&mut self, rq: Rq) {
        let sync = self.r.pct(self.sync);
        self.acts.push(Act::Rq { rq, sync });
    }

    fn bp_lines(&mut self, bad: bool) -> Vec<i64> {
        let Some((_, k)) = self.cur.clone() else { return vec![1] };
        let kn = &self.known[k];
        let r = &mut self.r;
        let n = match r.below(10) {
            0 => 0,
            1..=5 => 1,
            6 | 7 => 2,
            8 => 3 + r.below(4),
            _ => 1 + r.below(60),
        };
        let mut v = vec![];
        for _ in 0..n {
            let l = match r.below(10) {
                0..=5 if !kn.hot.is_empty() => *r.pick(&kn.hot),
                6 | 7 if !kn.addressed.is_empty() => *r.pick(&kn.addressed),
                8 if !kn.bare.is_empty() => *r.pick(&kn.bare),
                9 if !v.is_empty() => *r.pick(&v),
                _ if kn.nlines > 0 => 1 + r.below(kn.nlines as u64) as i64,
                _ => continue,
            };
            v.push(l);
        }
        if bad {
            let x = match r.below(7) {
                6 => (1 << r.range(16, 62)) + 1 + r.below(kn.nlines.max(1) as u64) as i64,
                0 => 0,
                1 => -1,
                2 => -(r.below(1 << 40) as i64),
                3 => i64::MAX,
                4 => i64::MIN,
                _ => kn.nlines + 3 + r.below(100) as i64,
            };
            let at = r.idx(v.len() + 1);
            v.insert(at, x);
        }
        v
    }

    fn set_bp(&mut self) {
        let Some((p, _)) = self.cur.clone() else { return };
        let lines = self.bp_lines(false);
        self.must_bp = false;
        self.rq(Rq::SetBp { path: p, lines });
    }

    fn inspect(&mut self, n: u64) {
        let ns = nstages(&self.sc.arch) as i64;
        for _ in 0..n {
            let q = match self.r.below(10) {
                0 | 1 => Rq::Stack { th: 1, start: None },
                2 => Rq::Stack { th: 1, start: Some(self.r.below(3) as i64) },
                3 => Rq::Scopes(1),
                4 => Rq::Threads,
                5 | 6 => Rq::Vars(1),
                _ => Rq::Vars(2 + self.r.below(ns.max(1) as u64) as i64),
            };
            self.rq(q);
        }
    }

    fn bad(&mut self) {
        let ns = nstages(&self.sc.arch) as i64;
        let path = self.cur.clone().map_or_else(|| self.any_path(), |c| c.0);
        let r = &mut self.r;
        let odd = [0, 2, -1, 7, i64::MAX, i64::MIN, 257, 65537, (1 << 32) + 1, -(1 << 32) + 1, 10, 11];
        let q = match r.below(16) {
            0 => Rq::Next(*r.pick(&odd)),
            1 => Rq::Continue(*r.pick(&odd)),
            2 => Rq::Stack { th: *r.pick(&odd), start: None },
            3 => Rq::Scopes(*r.pick(&odd)),
            4 | 5 => Rq::Vars(match r.below(5) {
                0 => ns + 2 + r.below(300) as i64,
                1 => (1 << r.range(8, 62)) + 1 + r.below(6) as i64,
                2 => -(r.below(300) as i64),
                _ => *r.pick(&[0, -1, ns + 2, ns + 3, i64::MAX, i64::MIN, i64::MIN + 1, 1 << 32]),
            }),
            6 => Rq::ExcBp(vec!["all".into()]),
            7 | 8 => {
                let lines = self.bp_lines(true);
                Rq::SetBp { path, lines }
            }
            9 => {
                let lines = self.bp_lines(false);
                let name = path.rsplit('/').next().unwrap_or("").to_string();
                let other = match self.r.below(7) {
                    0 => format!("/other/{name}"),
                    1 => name,
                    2 => path[..path.len() - 1].to_string(),
                    3 => path.to_uppercase(),
                    4 => String::new(),
                    5 => self.any_path(),
                    _ => format!("{path}x"),
                };
                let path = if other == path { format!("{path}x") } else { other };
                Rq::SetBp { path, lines }
            }
            10 | 11 => return self.bad_launch(),
            _ => unsupported(r, &path),
        };
        self.rq(q);
    }

    fn any_path(&mut self) -> String {
        let v: Vec<String> = self.shared.iter().chain(&self.mine).cloned().collect();
        self.r.pick(&v).clone()
    }

    fn bad_launch(&mut self) {
        let bad: Vec<String> = self.mine.iter().filter(|p| matches!(self.files.get(*p), Some(FileC::Junk(_)))).cloned().collect();
        let p = match self.r.below(4) {
            0 if !bad.is_empty() => self.r.pick(&bad).clone(),
            1 if !bad.is_empty() => self.r.pick(&bad).clone(),
            2 => self.r.pick(&["/sim", "/sim/none.ys", "", "/sim/p0.ys/x", "/sim/..", "/nowhere/x.ys", "/sim/p0.ys\0", "p0.ys ", "/sim/P0.YS"]).to_string(),
            _ => {
                // spoil, launch, and maybe repair
                let p = self.mine[self.r.idx(self.mine.len())].clone();
                if self.r.pct(50) {
                    let c = junk(self.r);
                    self.put(&p, c);
                } else {
                    self.acts.push(Act::Remove(p.clone()));
                    self.files.remove(&p);
                }
                p
            }
        };
        self.rq(Rq::Launch(p));
    }

    fn put(&mut self, p: &str, c: FileC) {
        self.stalled = false;
        self.acts.push(Act::Put(p.into(), c.clone()));
        self.files.insert(p.into(), c);
    }

    fn any_prog(&mut self) -> FileC {
        FileC::Prog(self.r.idx(self.sc.progs.len()))
    }

    /// Whether a fault may hit this launch is up to the model; here the
    /// current program is followed as if none does.
    fn launch(&mut self) {
        let good: Vec<String> = self
            .shared
            .iter()
            .chain(&self.mine)
            .filter(|p| matches!(self.files.get(*p), Some(FileC::Prog(_))))
            .cloned()
            .collect();
        let Some(p) = (!good.is_empty()).then(|| self.r.pick(&good).clone()) else {
            let p = self.mine[0].clone();
            let c = self.any_prog();
            self.put(&p, c);
            return self.launch();
        };
        let Some(FileC::Prog(k)) = self.files.get(&p).cloned() else { return };
        self.rq(Rq::Launch(p.clone()));
        if self.sc.faults.iter().any(|f| f.obj == p) {
            // may fail: once more, which may not
            self.rq(Rq::Launch(p.clone()));
        }
        self.cur = Some((p, k));
        self.must_bp = true;
    }

    fn run_one(&mut self, next: bool) {
        if self.must_bp {
            self.set_bp();
            self.must_bp = false;
        }
        let cost = if next {
            1
        } else {
            let l = self.cur.as_ref().and_then(|c| self.known[c.1].len).unwrap_or(u64::MAX);
            l.min(self.sc.limit.unwrap_or(DEFAULT_LIMIT))
        };
        if cost > self.budget {
            return;
        }
        self.budget -= cost;
        self.rq(if next { Rq::Next(1) } else { Rq::Continue(1) });
    }
}

#[allow(clippy::too_many_arguments)]
fn session(r: &mut Rng, sc: &DbgSc, known: &[Known], k: usize, mine: Vec<String>, shared: &[String], cfg: &Cfg, budget: u64) -> Vec<Act> {
    let n = r.range(cfg.n.0, cfg.n.1);
    let mut g = SG {
        r,
        sc,
        known,
        files: sc.files.iter().cloned().collect(),
        mine,
        shared: shared.to_vec(),
        cur: None,
        acts: vec![],
        sync: cfg.sync,
        stalled: false,
        budget,
        must_bp: false,
    };
    let _ = k;
    // before the launch
    if g.r.pct(cfg.early) {
        for _ in 0..1 + g.r.below(3) {
            match g.r.below(9) {
                0 => g.rq(Rq::ConfDone),
                1 => g.rq(Rq::Next(1)),
                2 => g.rq(Rq::Continue(1)),
                3 => g.inspect(1),
                4 => {
                    let p = g.any_path();
                    g.rq(Rq::SetBp { path: p, lines: vec![1] })
                }
                5 => g.rq(Rq::ExcBp(vec![])),
                6 => g.bad_launch(),
                _ => g.bad(),
            }
        }
    }
    if g.r.pct(97) {
        g.launch();
        if g.r.pct(50) {
            g.rq(Rq::ExcBp(vec![]));
        }
        g.set_bp();
        if g.r.pct(80) {
            g.rq(Rq::ConfDone);
        }
    }
    for _ in 0..n {
        if g.cur.is_none() {
            g.bad();
            continue;
        }
        match g.r.weighted(&cfg.w) {
            0 => {
                let m = if g.r.pct(30) { 1 + g.r.below(12) } else { 1 };
                for _ in 0..m {
                    g.run_one(true);
                }
            }
            1 => g.run_one(false),
            2 => g.set_bp(),
            3 => {
                let m = 1 + g.r.below(6);
                g.inspect(m)
            }
            4 => g.bad(),
            5 => {
                g.launch();
                if g.r.pct(70) {
                    g.set_bp();
                }
                if g.r.pct(50) {
                    g.rq(Rq::ConfDone);
                }
            }
            6 => {
                let p = g.mine[g.r.idx(g.mine.len())].clone();
                let c = if g.r.pct(60) { g.any_prog() } else { junk(g.r) };
                if g.r.pct(15) {
                    g.stalled = false;
                    g.acts.push(Act::Remove(p.clone()));
                    g.files.remove(&p);
                } else {
                    g.put(&p, c);
                }
            }
            7 => {
                g.stalled = !g.stalled;
                g.acts.push(if g.stalled { Act::Stall } else { Act::Resume });
            }
            8 => g.acts.push(Act::Calm),
            _ => match g.r.below(3) {
                0 => g.rq(Rq::Threads),
                1 => g.rq(Rq::ConfDone),
                _ => g.rq(Rq::ExcBp(vec![])),
            },
        }
    }
    g.acts
}

fn cfg(prop: &str, r: &mut Rng) -> Cfg {
    // next, continue, setBreakpoints, inspection, bad request, relaunch, file change, stall, calm, others
    let (w, n, early) = match prop {
        "C08" => ([6, 4, 4, 6, 3, 1, 0, 3, 1, 3], (3, 25), 40),
        "C09" => ([8, 8, 7, 1, 1, 1, 3, 0, 0, 0], (4, 25), 10),
        "C10" => ([8, 3, 1, 12, 1, 1, 1, 1, 0, 0], (3, 18), 15),
        "C11" => ([4, 3, 3, 3, 12, 2, 2, 1, 0, 1], (3, 22), 80),
        "C12" => ([5, 5, 3, 4, 2, 1, 1, 1, 1, 1], (2, 12), 20),
        "C13" => ([4, 9, 2, 1, 0, 1, 0, 0, 0, 0], (3, 14), 0),
        _ => ([4, 4, 2, 3, 2, 1, 1, 2, 1, 1], (0, 10), 30),
    };
    Cfg { w, n, sync: *r.pick(&[0, 20, 60, 100]), early }
}

const ENDINGS: [How; 5] = [How::Disconnect, How::Close, How::Reset, How::Shut, How::Hold];

pub fn generate(prop: &str, seed: u64) -> DbgSc {
    let r = &mut Rng::new(seed);
    let arch = r.pick(&ARCHS).to_string();
    let mut sc = DbgSc {
        prop: prop.into(),
        arch,
        limit: None,
        start: None,
        progs: vec![],
        files: vec![],
        sess: vec![],
        interrupt: None,
        seed: r.next(),
        entropy: r.next(),
        policy: policy(r),
        faults: vec![],
        choices: None,
    };
    let big = scale(r);
    // programs
    let np = match prop {
        "C09" | "C12" => 1 + r.below(3),
        "C11" => 2,
        "C14" | "C15" => 1,
        _ => 1 + r.below(2),
    };
    let mut known = vec![];
    for i in 0..np {
        let runaway = match prop {
            "C13" => r.pct(55),
            "C15" => r.pct(60),
            _ => r.pct(12),
        };
        let o = Opts {
            want: if runaway {
                Want::Runaway
            } else if r.pct(12) {
                Want::Fault
            } else {
                Want::Halt
            },
            iopq: false,
            size: if big > 1 {
                20 + r.below(200)
            } else if prop == "C10" || prop == "C13" {
                2 + r.below(20)
            } else {
                2 + r.below(30)
            },
            limit: if runaway { 400 } else { 1500 * big.min(4) },
            long: false,
        };
        let c = if i > 0 && r.pct(4) || prop == "C10" && r.pct(2) {
            // nothing, or nothing but words
            let mut p = Prog::new(vec![]);
            for _ in 0..r.below(4) {
                p.lines.push(Line { label: None, item: Item::None, comment: Some(" nothing".into()) });
            }
            let img = p.asm().unwrap();
            (p, img)
        } else {
            let c = gen::program(r, &o);
            (c.prog, c.img)
        };
        known.push(know(&c.1, &sc.arch));
        sc.progs.push(c.0);
    }
    // the limit
    let longest = known.iter().filter_map(|k| k.len).max();
    let endless = known.iter().any(|k| k.len.is_none());
    sc.limit = match prop {
        "C13" => {
            let k = r.pick(&known);
            let t = k.len.unwrap_or(1 + r.below(800));
            Some(match r.below(10) {
                0 => t.saturating_sub(2),
                1 | 2 => t.saturating_sub(1),
                3 | 4 => t,
                5 => t + 1,
                6 => 1 + r.below(t + 1),
                7 => 1 + r.below(10),
                8 if !endless => u64::MAX - r.below(2),
                9 if !endless => crate::tool::round(r, t),
                _ => 1 + r.below(1000),
            })
        }
        _ if endless => Some(100 + r.below(1200)),
        _ if longest.is_some_and(|l| l > 2) && r.pct(20) => Some(1 + r.below(longest.unwrap_or(2) + 3)),
        _ if r.pct(50) => None,
        _ if r.pct(50) => Some(crate::tool::round(r, longest.unwrap_or(9)).max(4000)),
        _ => Some(u64::MAX - r.below(3)),
    };
    if let Some(l) = &mut sc.limit {
        *l = (*l).max(1);
    }
    // shared files
    let odd = r.pct(20);
    let shared: Vec<String> = (0..sc.progs.len())
        .map(|i| if odd { format!("/sim/d {i}/pr\u{f6}g \u{4f60}.ys") } else { format!("/sim/p{i}.ys") })
        .collect();
    for (i, p) in shared.iter().enumerate() {
        sc.files.push((p.clone(), FileC::Prog(i)));
    }
    let crowd = matches!(prop, "C12" | "C15") && r.pct(7);
    // a long life: hundreds of sessions, few at a time
    let parade = prop == "C12" && !crowd && r.below(400) == 0;
    let ns = match prop {
        "C08" => 1 + r.below(2),
        "C10" => 1 + r.below(3),
        "C12" if crowd => 10 + r.below(50),
        "C12" if parade => 260 + r.below(300),
        "C12" => 2 + r.below(4),
        "C14" => 1 + r.below(4),
        "C15" if crowd => 2 + r.below(30),
        _ => 1,
    };
    let mut mines = vec![];
    for k in 0..ns {
        let v: Vec<String> = ["a", "b"].iter().map(|x| format!("/sim/s{k}_{x}.ys")).collect();
        let a = FileC::Prog(r.idx(sc.progs.len()));
        let b = if r.pct(50) { junk(r) } else { FileC::Prog(r.idx(sc.progs.len())) };
        sc.files.push((v[0].clone(), a));
        if r.pct(70) {
            sc.files.push((v[1].clone(), b));
        }
        mines.push(v);
    }
    // faults while launching
    if matches!(prop, "C11" | "C12" | "C14") {
        for v in &mines {
            for p in v {
                if r.pct(25) {
                    let open = r.pct(50);
                    sc.faults.push(Fault {
                        site: if open { "open" } else { "read" }.into(),
                        obj: p.clone(),
                        nth: if open && r.pct(30) { 1 } else { 0 },
                        kind: FaultKind::Errno(*r.pick(if open {
                            &[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO]
                        } else {
                            &[libc::EIO, libc::EISDIR, libc::ENXIO]
                        })),
                        sticky: false,
                    });
                }
            }
        }
    }
    let mut c = cfg(prop, r);
    c.n.1 *= big;
    if crowd || parade {
        c.n = (0, 3);
    }
    let chain = prop == "C14" && r.pct(25);
    for k in 0..ns as usize {
        let budget = match prop {
            "C13" => 6000,
            _ if crowd || parade => 300,
            _ => 4000 * big.min(4),
        };
        let sy = if prop == "C12" || prop == "C14" { *r.pick(&[0, 20, 60, 100]) } else { c.sync };
        let c = Cfg { sync: sy, ..Cfg { w: c.w, n: c.n, sync: 0, early: c.early } };
        let acts = session(r, &sc, &known, k, mines[k].clone(), &shared, &c, budget);
        let how = match prop {
            "C14" => *r.pick(&ENDINGS),
            "C12" if crowd && r.pct(60) => How::Hold,
            "C12" if parade => *r.pick(&[How::Disconnect, How::Disconnect, How::Close, How::Reset, How::Shut]),
            "C12" => *r.pick(&[How::Disconnect, How::Disconnect, How::Close, How::Reset, How::Shut, How::Hold, How::Disconnect]),
            _ if r.pct(70) => How::Disconnect,
            _ => *r.pick(&[How::Shut, How::Close]),
        };
        let mut s = Session {
            after: (parade && k > 3).then(|| (k - 1 - r.idx(3)) as u32),
            no_init: false,
            acts,
            garbage: None,
            how,
            sync: r.pct(60),
            style: if r.pct(30) { 0 } else { r.next() },
            heap: false,
        };
        if matches!(prop, "C12" | "C14") {
            if r.pct(30) && matches!(s.how, How::Close | How::Reset | How::Shut) {
                s.garbage = Some(hex(&garbage(r)));
            }
            if r.pct(10) && s.how != How::Hold && s.how != How::Disconnect {
                s.no_init = true;
                s.acts.clear();
            }
            if matches!(s.how, How::Close | How::Reset) && r.pct(20) {
                // goes away while it is not reading
                let at = r.idx(s.acts.len() + 1);
                s.acts.truncate(at);
                s.acts.push(Act::Stall);
                for _ in 0..r.below(6) {
                    s.acts.push(Act::Rq { rq: Rq::Threads, sync: false });
                }
                s.sync = false;
            }
            if k > 0 && r.pct(25) && !sc.sess.is_empty() {
                let j = r.idx(sc.sess.len());
                s.after = Some(j as u32);
            }
        }
        sc.sess.push(s);
    }
    if matches!(prop, "C12" | "C14") {
        // failing calls
        for _ in 0..if r.pct(50) { 1 + r.below(3) } else { 0 } {
            let k = r.below(ns).to_string();
            let e = |r: &mut Rng, v: &[i32]| FaultKind::Errno(*r.pick(v));
            let f = match r.below(7) {
                0 | 1 => Fault {
                    site: "accept".into(),
                    obj: String::new(),
                    nth: r.below(ns) as u32,
                    kind: e(r, &[libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPROTO, libc::EPERM]),
                    sticky: false,
                },
                2 => Fault { site: "dup".into(), obj: k, nth: 0, kind: e(r, &[libc::EMFILE]), sticky: false },
                3 => Fault {
                    site: "thread".into(),
                    obj: String::new(),
                    // the first one is needed to start at all
                    nth: 1 + r.below(ns) as u32,
                    kind: e(r, &[libc::EAGAIN]),
                    sticky: false,
                },
                4 | 5 => Fault {
                    site: "recv".into(),
                    obj: k,
                    nth: r.below(12) as u32,
                    kind: if r.pct(20) { FaultKind::Eof } else { e(r, &[libc::ECONNRESET, libc::ETIMEDOUT, libc::ENOBUFS, libc::ENOMEM]) },
                    sticky: r.pct(30),
                },
                _ => Fault {
                    site: "send".into(),
                    obj: k,
                    nth: r.below(12) as u32,
                    kind: e(r, &[libc::ECONNRESET, libc::EPIPE, libc::ENOBUFS, libc::ETIMEDOUT]),
                    sticky: r.pct(30),
                },
            };
            sc.faults.push(f);
        }
        if r.pct(6) {
            // nothing can be accepted for a while
            let k = *r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::ECONNABORTED]);
            let at = r.below(ns) as u32;
            for i in 0..*r.pick(&[4, 9, 20, 130]) {
                sc.faults.push(Fault {
                    site: "accept".into(),
                    obj: String::new(),
                    nth: at + i,
                    kind: FaultKind::Errno(k),
                    sticky: false,
                });
            }
        }
        // a session that shows that the server still serves
        let p = r.idx(sc.progs.len());
        let canary = Session {
            after: None,
            no_init: false,
            acts: vec![
                Act::Calm,
                Act::Rq { rq: Rq::Launch(shared[p].clone()), sync: true },
                Act::Rq { rq: Rq::Next(1), sync: true },
                Act::Rq { rq: Rq::Vars(1), sync: true },
            ],
            garbage: None,
            how: How::Disconnect,
            sync: true,
            style: 0,
            heap: false,
        };
        // its turn comes when all others are through
        sc.sess.push(Session { after: Some(u32::MAX), ..canary });
    }
    if prop == "C12" {
        hog(r, &mut sc, &known, &shared);
    }
    if chain {
        // the same session again and again
        let mut s = sc.sess[0].clone();
        s.how = *r.pick(&[How::Disconnect, How::Close, How::Shut, How::Reset]);
        if s.how == How::Disconnect {
            s.garbage = None;
            s.no_init = false;
        }
        s.acts.retain(|a| !matches!(a, Act::Put(..) | Act::Remove(_) | Act::Calm | Act::Stall | Act::Resume));
        s.sync = true;
        s.heap = true;
        s.after = None;
        sc.faults.clear();
        sc.policy.eintr_pct = 0;
        sc.sess = (0..if r.pct(20) { 40 + r.below(20) } else { 5 + r.below(4) }).map(|k| Session { after: if k == 0 { None } else { Some(k as u32 - 1) }, ..s.clone() }).collect();
        if r.pct(50) {
            vary(r, &mut sc);
        }
    }
    for s in &mut sc.sess {
        if s.no_init {
            s.acts.retain(|a| matches!(a, Act::Others));
        }
    }
    if r.pct(if prop == "C15" { 50 } else { 12 }) {
        sc.start = Some(Start {
            port: match r.below(4) {
                0 => 0,
                1 => *r.pick(&[1, 80, 1023, 1024, 2344, 2346, 8080, 32768, 65534, 65535]),
                _ => 1 + r.below(65535) as u16,
            },
            style: r.below(256) as u8,
            verbosity: if r.pct(if prop == "C15" { 40 } else { 70 }) {
                r.pick(&["-q", "-qq", "-v", "-vv", "-vvv", "--verbose", "--quiet"]).to_string()
            } else {
                String::new()
            },
            arch: if prop == "C15" && r.pct(8) {
                Some(r.pick(&["", "seq", "pipe", "SEQ_STD", "seq_std ", "no_such_arch", "pipe_std2"]).to_string())
            } else {
                None
            },
        });
    }
    if prop == "C15" {
        let n = sc.sess[0].acts.len() as u64;
        sc.interrupt = Some((0, r.below(2 * n + 4) as u32));
        if crowd {
            let k = r.idx(sc.sess.len());
            sc.interrupt = Some((k as u32, r.below(2 * sc.sess[k].acts.len() as u64 + 4) as u32));
        }
        if endless && known[0].len.is_none() && r.pct(40) {
            // some of them execute an endless program for ever
            sc.limit = Some(u64::MAX - r.below(1000));
            sc.policy.preempt = 1 + r.below(4) as u32;
            let k = r.idx(sc.sess.len());
            for (i, s) in sc.sess.iter_mut().enumerate() {
                if i == k || r.pct(20) {
                    s.acts.push(Act::Rq { rq: Rq::Launch(shared[0].clone()), sync: r.pct(50) });
                    s.acts.push(Act::Rq { rq: Rq::SetBp { path: shared[0].clone(), lines: vec![] }, sync: r.pct(50) });
                    s.acts.push(Act::Rq { rq: Rq::Continue(1), sync: false });
                }
            }
            for s in &mut sc.sess {
                // it never is
                s.acts.retain(|a| !matches!(a, Act::Calm));
            }
            sc.interrupt = Some((k as u32, if r.pct(70) { u32::MAX } else { r.below(2 * n + 10) as u32 }));
        }
        if r.pct(15) {
            sc.faults.push(Fault {
                site: "bind".into(),
                obj: String::new(),
                nth: 0,
                kind: FaultKind::Errno(*r.pick(&[libc::EADDRINUSE, libc::EACCES, libc::EADDRNOTAVAIL])),
                sticky: false,
            });
        }
    }
    if matches!(prop, "C08" | "C11" | "C12" | "C14" | "C15") && !chain && r.pct(8) {
        // its terminal is gone
        for o in ["stdout+", "stderr+"] {
            if r.pct(75) {
                sc.faults.push(Fault {
                    site: "write".into(),
                    obj: o.into(),
                    nth: if r.pct(60) { 0 } else { r.below(20) as u32 },
                    kind: FaultKind::Errno(*r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC])),
                    sticky: true,
                });
            }
        }
    }
    if prop == "C15" && r.pct(4) {
        // nobody ever connects
        sc.sess.clear();
        sc.interrupt = Some((0, 0));
    }
    if sc.interrupt.is_some() {
        // while a program runs for ever, waiting takes many steps
        let most = sc.faults.iter().filter(|f| f.site == "accept").map(|f| f.nth).min().unwrap_or(0) + 20;
        sc.faults.retain(|f| f.site != "accept" || f.nth < most);
    }
    sc
}

/// The sessions of a chain do the same with sources that differ, or with files of other names.
fn vary(r: &mut Rng, sc: &mut DbgSc) {
    let (text, name) = *r.pick(&[(true, false), (false, true), (true, true)]);
    let files = std::mem::take(&mut sc.files);
    let progs = if text { std::mem::take(&mut sc.progs) } else { vec![] };
    for (k, s) in sc.sess.iter_mut().enumerate() {
        let dir = if name { format!("/sim/c{k:02}/") } else { "/sim/".into() };
        let path = |p: &str| p.replacen("/sim/", &dir, 1);
        let mine: Vec<(String, FileC)> = files
            .iter()
            .map(|(p, c)| {
                let c = match c {
                    FileC::Prog(i) if text => FileC::Prog(k * progs.len() + i),
                    c => c.clone(),
                };
                (path(p), c)
            })
            .collect();
        for p in &progs {
            let mut p = p.clone();
            p.lines.push(Line { label: None, item: Item::None, comment: Some(format!(" version {k:04}")) });
            sc.progs.push(p);
        }
        for a in &mut s.acts {
            if let Act::Rq { rq: Rq::Launch(p) | Rq::SetBp { path: p, .. }, .. } = a {
                *p = path(p);
            }
        }
        if name || k == 0 {
            sc.files.extend(mine);
        } else {
            s.acts.splice(0..0, mine.into_iter().map(|(p, c)| Act::Put(p, c)));
        }
    }
}

/// Sessions that take as much of the server as they can get.
fn hog(r: &mut Rng, sc: &mut DbgSc, known: &[Known], shared: &[String]) {
    let n = sc.sess.len() - 1;
    if n < 2 || !r.pct(30) {
        return;
    }
    let how = r.below(10);
    if how < 2 {
        // executes an endless program for ever
        let Some(p) = known.iter().position(|k| k.len.is_none()) else { return };
        sc.limit = Some(u64::MAX - r.below(1000));
        sc.policy.preempt = *r.pick(&[1, 2, 4, 20]);
        sc.policy.mode = 0;
        let k = r.idx(n);
        for (i, s) in sc.sess.iter_mut().enumerate() {
            s.acts.retain(|a| !matches!(a, Act::Calm));
            if i < n && (i == k || r.pct(10)) {
                s.no_init = false;
                s.acts.push(Act::Rq { rq: Rq::Launch(shared[p].clone()), sync: r.pct(50) });
                s.acts.push(Act::Rq { rq: Rq::SetBp { path: shared[p].clone(), lines: vec![] }, sync: r.pct(50) });
                s.acts.push(Act::Rq { rq: Rq::Continue(1), sync: false });
            }
        }
        sc.interrupt = Some((n as u32, u32::MAX));
        return;
    }
    let k = r.idx(n);
    for i in 0..n {
        if i != k && !(n > 3 && r.pct(15)) {
            continue;
        }
        let s = &mut sc.sess[i];
        s.acts.retain(|a| !matches!(a, Act::Stall | Act::Resume));
        if s.how == How::Hold && r.pct(50) {
            s.how = How::Disconnect;
        }
        match how {
            // does not read
            2..=6 => {
                sc.policy.window = *r.pick(&[16, 100, 300, 2000]);
                s.no_init = false;
                s.acts.retain(|a| !matches!(a, Act::Put(..) | Act::Remove(_)));
                let at = r.idx(s.acts.len() + 1);
                s.acts.insert(at, Act::Stall);
                // one of every kind of message
                let mut more = vec![Act::Rq { rq: Rq::Threads, sync: false }; 1 + r.idx(20)];
                more.push(Act::Others);
                if r.pct(70) {
                    more.push(Act::Resume);
                }
                let at = r.range(at as u64 + 1, s.acts.len() as u64) as usize;
                s.acts.splice(at..at, more);
            }
            // says a part of what it wants
            7 | 8 => {
                s.no_init = false;
                let at = r.idx(s.acts.len() + 1);
                let rq = match r.below(4) {
                    0 => Rq::Threads,
                    1 => Rq::Launch(shared[r.idx(shared.len())].clone()),
                    2 => Rq::Next(1),
                    _ => Rq::Vars(1),
                };
                s.acts.insert(at, Act::Halves { rq, cut: r.below(400) as u32 });
            }
            // nothing at all
            _ => {
                if matches!(s.how, How::Hold | How::Disconnect) {
                    s.how = How::Shut;
                }
                s.no_init = true;
                s.acts = vec![Act::Others];
            }
        }
    }
    for i in 0..n {
        if sc.sess[i].after.is_some_and(|a| hogs(&sc.sess[a as usize])) {
            sc.sess[i].after = None;
        }
    }
}

// ---------------------------------------------------------------- running

fn args_of(sc: &DbgSc) -> Vec<String> {
    let mut s = Start { port: 1234, ..Default::default() };
    if let Some(x) = &sc.start {
        s = x.clone();
    }
    let arch = s.arch.as_ref().unwrap_or(&sc.arch);
    let mut parts: Vec<Vec<String>> = vec![];
    let pair = |eq: bool, a: &str, b: String| if eq { vec![format!("{a}={b}")] } else { vec![a.to_string(), b] };
    if s.port != 0 {
        parts.push(match s.style % 3 {
            0 => pair(false, "-p", s.port.to_string()),
            1 => pair(false, "--port", s.port.to_string()),
            _ => pair(true, "--port", s.port.to_string()),
        });
    }
    if arch != "seq_std" || s.style < 128 {
        parts.push(pair(s.style & 4 > 0, "--arch", arch.clone()));
    }
    if let Some(l) = sc.limit {
        parts.push(pair(s.style & 8 > 0, "--max-cpu-cycle", l.to_string()));
    }
    if !s.verbosity.is_empty() {
        parts.push(vec![s.verbosity]);
    }
    if parts.is_empty() {
        // without any it explains itself instead
        parts.push(vec!["-q".into()]);
    }
    let n = parts.len();
    parts.rotate_left((s.style as usize >> 4) % n);
    parts.concat()
}

/// The images, unless the scenario is outside what the properties speak of.
fn images(sc: &DbgSc) -> Option<Vec<Option<Image>>> {
    let mut v = vec![];
    for p in &sc.progs {
        let img = p.asm().ok()?;
        let o = crate::isa::run(&img.mem, false, 60_000);
        if img.overlap || o.self_modifying || o.end == crate::isa::End::Undefined {
            return None;
        }
        v.push(Some(img));
    }
    Some(v)
}

fn plans(sc: &DbgSc, imgs: &[Option<Image>]) -> Vec<Plan> {
    let mut v: Vec<Plan> = vec![];
    let mut lens = vec![];
    for k in 0..sc.sess.len() {
        let p = script(sc, imgs, k, &lens);
        lens.push(p.ops.len() as u32);
        v.push(p);
    }
    v
}

fn sim_of(sc: &DbgSc, plans: &[Plan]) -> SimSc {
    let mut clients: Vec<Vec<COp>> = plans.iter().map(|p| p.ops.clone()).collect();
    if let Some((c, n)) = sc.interrupt {
        let most = clients.get(c as usize).map_or(0, |c| c.len() as u32);
        clients.push(vec![COp::After(c, n.min(most)), COp::Interrupt]);
    }
    SimSc {
        seed: sc.seed,
        choices: sc.choices.clone(),
        policy: sc.policy.clone(),
        entropy: sc.entropy,
        clients,
        files: sc.files.iter().map(|(p, c)| (p.clone(), file_hex(sc, c))).collect(),
        faults: sc.faults.clone(),
        max_steps: if sc.interrupt.is_some() { if sc.prop == "C12" { 1_000_000 } else { 300_000 } } else { MAX_STEPS },
        prompt: if sc.interrupt.is_some() { PROMPT } else { 0 },
        port: port_of(sc),
    }
}

fn port_of(sc: &DbgSc) -> u16 {
    match &sc.start {
        None => 1234,
        Some(Start { port: 0, .. }) => 2345,
        Some(s) => s.port,
    }
}

fn kind(s: &str) -> String {
    s.split_once(':').map_or(s, |x| x.1).to_string()
}

/// Threads and descriptors of a server nobody has ever talked to.
fn idle() -> &'static (Vec<String>, Vec<String>) {
    static I: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();
    I.get_or_init(|| {
        let sc = SimSc { policy: Policy { window: 65536, ..Default::default() }, max_steps: 100_000, ..Default::default() };
        match shimrun::run("ydb", &["-p".into(), "1234".into()], &sc, 20_000) {
            Out::Res(r) if r.end == "quiet" => {
                let mut t: Vec<_> = r.threads.iter().map(|s| kind(s)).collect();
                let mut f: Vec<_> = r.fds.iter().map(|s| kind(s)).collect();
                t.sort();
                f.sort();
                (t, f)
            }
            // not a server that waits: reported by every run
            _ => (vec![], vec![]),
        }
    })
}

/// The line in which an idle server says that it is listening.
fn announces(line: &str, port: u16) -> bool {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    let words = |l: &str, p: &str| l.replace(p, "#").split_whitespace().map(String::from).collect::<Vec<_>>();
    let a = A.get_or_init(|| {
        let sc = SimSc { policy: Policy { window: 65536, ..Default::default() }, max_steps: 100_000, ..Default::default() };
        match shimrun::run("ydb", &["-p".into(), "1234".into()], &sc, 20_000) {
            Out::Res(r) => {
                let t = crate::tool::plain(&r.stdout) + &crate::tool::plain(&r.stderr);
                t.lines().find(|l| l.contains("1234")).map_or(vec![], |l| words(l, "1234"))
            }
            _ => vec![],
        }
    });
    a.len() > 2 && words(line, &port.to_string()) == *a
}

fn tail(h: &str) -> String {
    let t = crate::tool::plain(h);
    let l: Vec<&str> = t.lines().filter(|l| !l.is_empty()).collect();
    l[l.len().saturating_sub(4)..].join(" / ")
}

pub fn run(sc: &DbgSc) -> RunResult {
    let mut res = RunResult::default();
    let Some(imgs) = images(sc) else { return res };
    let plans = plans(sc, &imgs);
    if plans.iter().any(|p| p.void) {
        return res;
    }
    let lk = look(&sc.prop);
    let sim = sim_of(sc, &plans);
    let s = match shimrun::run("ydb", &args_of(sc), &sim, 30_000) {
        Out::Res(s) => s,
        Out::Hang(ms) => {
            res.bad("hang", format!("ydb makes no progress within {ms} ms"));
            return res;
        }
        Out::Died(m) => {
            res.bad("crash", format!("ydb died: {m}"));
            return res;
        }
    };
    absorb(&mut res, &s);
    res.add("sessions", sc.sess.len() as u64);
    for p in &plans {
        res.add("machine_cycles", p.cycles);
        for (k, n) in &p.stops {
            res.add(&format!("stopped_{}", k.trim_end_matches("point").trim_end_matches("at").replace("termin", "termination")), *n);
        }
        for (k, n) in &p.counts {
            res.add(&if k == "requests_refused" { k.clone() } else { format!("answered_{k}") }, *n);
        }
    }
    if sc.sess.iter().any(hogs) {
        res.add("runs_with_a_session_that_holds_the_server_up", 1);
    }
    let requests: u64 = plans.iter().flat_map(|p| p.counts.values()).sum();
    res.sample = format!(
        "{} session(s) on {}, {} requests, limit {:?}, {} steps, {} thread switches, ends {:?}, faults {:?}",
        sc.sess.len(),
        sc.arch,
        requests,
        sc.limit,
        s.steps,
        s.switches,
        sc.sess.iter().map(|s| s.how).collect::<Vec<_>>(),
        s.log.iter().filter_map(|l| l.strip_prefix("fault ")).collect::<Vec<_>>(),
    );
    let split = s.fired.iter().any(|f| f.0 == "split_delivery" || f.0.ends_with(":short") || f.0.ends_with("EINTR"));
    let fault = s.log.iter().any(|l| l.starts_with("fault "));
    res.nontrivial = match sc.prop.as_str() {
        "C08" => requests >= 5 && split,
        "C09" => plans.iter().any(|p| p.stops.len() > 1),
        "C10" => plans.iter().any(|p| p.cycles > 0 && p.counts.contains_key("variables")),
        "C11" => plans.iter().any(|p| p.counts.get("requests_refused").is_some_and(|n| *n > 1) && p.cycles > 0),
        "C12" => s.switches > 10 && requests > 10,
        "C13" => plans.iter().any(|p| p.stops.contains_key("max")),
        "C14" => sc.sess.iter().any(|s| s.how != How::Disconnect) || fault,
        _ => s.steps > 50,
    };

    // C15: how the process ends
    if sc.prop == "C15" {
        let bind = s.log.iter().any(|l| l.starts_with("fault bind"));
        let said = crate::tool::plain(&s.stdout) + &crate::tool::plain(&s.stderr);
        if sc.start.as_ref().is_some_and(|x| x.arch.is_some()) {
            if s.end != "exit" || s.status == 0 || s.status == 101 || said.is_empty() {
                res.bad("arch", format!("an unknown architecture: end {}, status {}, {said:?}", s.end, s.status));
            }
            return res;
        }
        if bind && s.end == "exit" && said.lines().any(|l| announces(l, port_of(sc))) {
            res.bad("announced", format!("the port is not available, and is announced: {said:?}"));
        }
        if !bind && s.clients.iter().any(|c| c.accepted) && !said.lines().any(|l| l.contains(&port_of(sc).to_string())) {
            res.bad("announced", format!("the port {} is not announced: {said:?}", port_of(sc)));
        }
        if s.end == "steps" && s.interrupt_us.is_none() {
            // the run is too long to get to Ctrl-C
            res.add("runs_cut_short", 1);
            return res;
        }
        if s.end != "exit" {
            res.bad("no-exit", format!("the server does not end: end {}, {}", s.end, tail(&s.stderr)));
        } else if bind && (s.status == 0 || s.status == 101 || s.stderr.is_empty()) {
            res.bad("bind", format!("the port is not available; status {}, {:?}", s.status, tail(&s.stderr)));
        } else if !bind && s.interrupt_us.is_none_or(|t| s.now_us > t + 1_000_000) {
            res.bad(
                "late",
                match s.interrupt_us {
                    None => "the server ends although nobody has pressed Ctrl-C".to_string(),
                    Some(t) => format!("the server ends {} us after Ctrl-C", s.now_us - t),
                },
            );
        } else if !bind && s.status != 0 {
            res.bad("status", format!("Ctrl-C ends the server with status {}: {}", s.status, tail(&s.stderr)));
        }
    } else if s.end == "exit"
        && s.status != 0
        && s.status != 101
        && s.log.iter().any(|l| l.starts_with("fault thread"))
        && !s.log.iter().any(|l| l.ends_with("accepted"))
    {
        // could not start its own threads: said so, and served nobody
        return res;
    } else if sc.interrupt.is_some() {
        // some session runs for ever: everybody else gets served all the same
        if s.interrupt_us.is_none() {
            let w = plans.iter().zip(&s.clients).position(|(p, c)| (c.done as usize) < p.ops.len()).unwrap_or(0);
            res.bad(
                "starved",
                format!(
                    "client {w} is not served while a program of another session runs: end {} (status {}), {} of {} actions, {}",
                    s.end,
                    s.status,
                    s.clients[w].done,
                    plans[w].ops.len(),
                    tail(&s.stderr)
                ),
            );
        }
        res.add("runs_with_an_endless_session", 1);
    } else if s.end != "quiet" {
        let c = match s.end.as_str() {
            "steps" => "polling",
            "exit" => "exit",
            _ => "crash",
        };
        res.bad(c, format!("the server does not come to rest: {} (status {}), {}", s.end, s.status, tail(&s.stderr)));
    }

    // the library's own view of the cycles that were shown
    let mut wanted: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    for e in plans.iter().flat_map(|p| &p.exp) {
        if let Exp::Ok { body: Body::Stage(at, _) | Body::Regs(at), .. } = e {
            wanted.entry(at.prog).or_default().push(at.cycle);
        }
    }
    let mut views: Views = BTreeMap::new();
    if lk.insp {
        for (k, mut c) in wanted {
            c.sort();
            c.dedup();
            views.insert(k, lib_views(&sc.arch, &imgs[k].as_ref().unwrap().mem, &c));
        }
    }
    let ctx = Ctx { sc, views: &views, look: lk };

    let mut lost = 0;
    let mut open = 0;
    for (k, (p, c)) in plans.iter().zip(&s.clients).enumerate() {
        let se = &sc.sess[k];
        let rx = unhex(&c.rx);
        let faulty = sc.faults.iter().any(|f| (f.site == "recv" || f.site == "send") && f.obj == k.to_string());
        let (got, rest) = match parse_messages(&rx) {
            Ok(x) => x,
            Err(e) => {
                res.bad("framing", format!("client {k}: {e}"));
                continue;
            }
        };
        let gone = c.refused || c.ended && got.is_empty() && !p.exp.is_empty() && !faulty && p.full;
        if gone {
            lost += 1;
        } else if se.how == How::Hold && !c.ended {
            open += 1;
        }
        if sc.prop == "C15" {
            // only the order of what did arrive
            if let Err((cl, e)) = (Ctx { sc, views: &views, look: Look { flow: true, ..lk } }).check_messages(&p.exp, &got, false) {
                res.bad(cl, format!("client {k}: {e}"));
            }
            continue;
        }
        let full = p.full && !faulty && !gone;
        if rest > 0 && full {
            res.bad("framing", format!("client {k}: {rest} bytes of an incomplete message at the end"));
        }
        let mut g = &got[..];
        if se.garbage.is_some() && got.len() > p.exp.len() && got[p.exp.len()..].iter().all(|m| m["success"] == json!(false)) {
            g = &got[..p.exp.len()];
        }
        if let Err((cl, e)) = ctx.check_messages(&p.exp, g, full && (lk.flow || lk.flag)) {
            res.bad(cl, format!("client {k}: {e}"));
        }
        if (c.done as usize) < p.ops.len() && s.end == "quiet" {
            res.bad(
                "stuck",
                format!("client {k} waits for ever at {:?} with {} of {} messages", p.ops[c.done as usize], got.len(), p.exp.len()),
            );
        }
        if lk.ends && se.how != How::Hold && !c.ended && !c.refused && (c.done as usize) >= p.ops.len() && s.end == "quiet" {
            res.bad("still-open", format!("client {k} is gone ({:?}), and the server keeps its connection", se.how));
        }
        if se.how == How::Hold && c.ended && !gone && !faulty && sc.interrupt.is_none() {
            res.bad("dropped", format!("client {k} has its connection closed by the server"));
        }
    }
    if sc.prop == "C15" {
        return res;
    }
    let may = s
        .log
        .iter()
        .filter(|l| l.starts_with("fault accept:ECONNABORTED") || l.starts_with("fault dup") || l.starts_with("fault thread"))
        .count();
    if lost > may {
        res.bad("lost", format!("{lost} connections are dropped unanswered, {may} had a reason"));
    }
    res.add("connections_lost_to_faults", lost as u64);
    res.max("max_sessions_open_at_end", open as u64);
    if s.end != "quiet" {
        return res;
    }
    if lk.ends {
        let (t0, f0) = idle();
        let mut t: Vec<_> = s.threads.iter().map(|s| kind(s)).collect();
        let mut f: Vec<_> = s.fds.iter().map(|s| kind(s)).collect();
        t.sort();
        f.sort();
        if t0.is_empty() || t.len() > t0.len() + 3 * open || open == 0 && t != *t0 {
            res.bad("threads", format!("{open} sessions are open; threads {:?}, when idle {t0:?}", s.threads));
        }
        if f.len() > f0.len() + 3 * open || open == 0 && f != *f0 {
            res.bad("descriptors", format!("{open} sessions are open; descriptors {:?}, when idle {f0:?}", s.fds));
        }
        if s.heap.len() >= 4 {
            // settled by the second session
            let n = s.heap.len();
            let grown = s.heap[n - 1] - s.heap[1];
            res.add("heap_chains", 1);
            res.max("max_sessions_in_a_heap_chain", n as u64);
            // whatever is kept for speed has its bounds
            if grown > 256 + 4 * (n as i64 - 2) {
                res.bad("heap", format!("{n} equal sessions, one after another, leave {grown} bytes behind: {:?}", s.heap));
            }
            if s.zombies as usize > n / 2 + 1 {
                res.bad("threads", format!("{} of {n} sessions leave a thread behind that has ended but is never released", s.zombies));
            }
        }
    }
    res
}

// ---------------------------------------------------------------- shrinking

pub fn pin(sc: &DbgSc) -> DbgSc {
    let mut sc = sc.clone();
    let Some(imgs) = images(&sc) else { return sc };
    let plans = plans(&sc, &imgs);
    if let Out::Res(s) = shimrun::run("ydb", &args_of(&sc), &sim_of(&sc, &plans), 30_000) {
        sc.choices = Some(s.choices);
    }
    sc
}

pub fn shrink(sc: &DbgSc) -> Vec<DbgSc> {
    let mut v = vec![];
    // nothing random at all
    if sc.choices.as_ref().is_none_or(|c| !c.is_empty()) {
        let mut s = sc.clone();
        s.choices = Some(vec![]);
        v.push(s);
    }
    for k in (0..sc.sess.len()).rev() {
        if sc.sess.len() > 1 && sc.interrupt.is_none() {
            let mut s = sc.clone();
            s.sess.remove(k);
            let fix = |a: u32| match a {
                u32::MAX => Some(a),
                a if a as usize == k => None,
                a if a as usize > k => Some(a - 1),
                a => Some(a),
            };
            for x in &mut s.sess {
                x.after = x.after.and_then(fix);
            }
            s.faults.retain(|f| f.obj != k.to_string());
            for f in &mut s.faults {
                if let Ok(n) = f.obj.parse::<usize>() {
                    if n > k {
                        f.obj = (n - 1).to_string();
                    }
                }
            }
            v.push(s);
        }
        let n = sc.sess[k].acts.len();
        let mut w = n;
        while w >= 1 {
            let mut a = 0;
            while a < n {
                let mut s = sc.clone();
                s.sess[k].acts.drain(a..(a + w).min(n));
                v.push(s);
                a += w;
            }
            w /= 2;
        }
        if sc.sess[k].style != 0 {
            let mut s = sc.clone();
            s.sess[k].style = 0;
            v.push(s);
        }
        if sc.sess[k].acts.iter().any(|a| matches!(a, Act::Rq { sync: false, .. })) {
            let mut s = sc.clone();
            for a in &mut s.sess[k].acts {
                if let Act::Rq { sync, .. } = a {
                    *sync = true;
                }
            }
            v.push(s);
        }
    }
    for k in 0..sc.faults.len() {
        let mut s = sc.clone();
        s.faults.remove(k);
        v.push(s);
        if sc.faults[k].sticky {
            let mut s = sc.clone();
            s.faults[k].sticky = false;
            v.push(s);
        }
    }
    // simpler programs: only where no breakpoint line depends on it
    if let Some(c) = &sc.choices {
        for c in shrink_choices(c) {
            let mut s = sc.clone();
            s.choices = Some(c);
            v.push(s);
        }
    }
    for (k, p) in sc.progs.iter().enumerate() {
        for q in crate::arch::shrink_prog(p) {
            let mut s = sc.clone();
            s.progs[k] = q;
            v.push(s);
        }
    }
    v
}
