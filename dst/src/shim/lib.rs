#![allow(invalid_runtime_symbol_definitions)]
//! The simulated operating system, preloaded into the real binaries.
//!
//! Threads of the process run one at a time, handing over a baton at
//! intercepted calls; sockets, pipes, the disk, the clock and entropy live in
//! this file; one stream of choices decides everything.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

#[path = "../prng.rs"]
mod prng;
#[allow(dead_code)]
#[path = "../simapi.rs"]
mod simapi;
mod hooks;
mod sys;

use prng::{mix, Rng};
use simapi::*;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::SeqCst};

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static mut SIM: Option<Box<Sim>> = None;

thread_local! {
    pub static TID: Cell<u32> = const { Cell::new(u32::MAX) };
    pub static IN: Cell<bool> = const { Cell::new(false) };
    pub static HANDLER: Cell<bool> = const { Cell::new(false) };
}

pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}

/// The call comes from the code under test, on a simulated thread.
pub fn active() -> bool {
    unsafe { SIM.is_some() && !IN.get() && TID.get() != u32::MAX }
}

/// While it lives, intercepted calls are those of the simulator itself.
pub struct Guard;
impl Guard {
    pub fn new() -> Guard {
        IN.set(true);
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN.set(false)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cond {
    Ready,
    Recv(usize),
    Send(usize),
    Accept(usize),
    Pipe(usize),
    Futex(usize),
    Join(u32),
    Poll,
    Sleep,
    Dead,
}

pub struct Thread {
    pub word: &'static AtomicU32,
    pub cond: Cond,
    pub woken: bool,
    pub deadline: Option<u64>,
    pub poll: Vec<(i32, i16)>,
    pub prio: u64,
}

pub struct Conn {
    pub client: usize,
    /// Client to server: under way, and receivable.
    pub fly: VecDeque<u8>,
    pub rx: VecDeque<u8>,
    pub fin_sent: bool,
    pub fin: bool,
    pub rst: bool,
    pub rst_told: bool,
    /// Server to client, not read by the client yet.
    pub tx: VecDeque<u8>,
    pub peer_gone: bool,
    pub server_shut: bool,
    pub refs: u32,
    pub accepted: bool,
}

pub struct Client {
    pub pc: usize,
    pub conn: Option<usize>,
    pub reading: bool,
    pub rx: Vec<u8>,
    pub parsed: usize,
    pub msgs: u32,
    pub pieces: Vec<(u64, u32)>,
    pub op_at: Vec<u64>,
    pub refused: bool,
    pub prio: u64,
}

pub struct Inode {
    pub data: Vec<u8>,
}

#[derive(Clone)]
pub enum Obj {
    Listener(usize),
    Sock(usize),
    NewSock,
    PipeR(usize),
    PipeW(usize),
    File(usize),
    /// Open file description
    Std(u8),
}

pub struct Ofd {
    pub inode: Option<usize>,
    pub path: String,
    pub pos: usize,
    pub write: bool,
    pub read: bool,
    pub append: bool,
    pub refs: u32,
}

pub struct FdEnt {
    pub obj: Obj,
    pub nonblock: bool,
}

pub struct Listener {
    pub pending: VecDeque<usize>,
    pub listening: bool,
    /// Bound to 127.0.0.1 or all addresses.
    pub local: bool,
    pub refs: u32,
    pub port: u16,
}

pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub readers: u32,
    pub writers: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Thread(u32),
    Op(usize),
    Deliver(usize),
    Drain(usize),
    Clock,
}

pub struct Sim {
    pub sc: SimSc,
    pub rng: Rng,
    pub choices: Vec<u32>,
    nchoice: usize,
    pub threads: Vec<Thread>,
    pub cur: u32,
    pub clients: Vec<Client>,
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub pipes: Vec<Pipe>,
    pub ofds: Vec<Ofd>,
    pub inodes: Vec<Inode>,
    pub dir: BTreeMap<String, usize>,
    pub fds: BTreeMap<i32, FdEnt>,
    pub now: u64,
    pub steps: u64,
    pub signature: u64,
    pub log: Vec<String>,
    pub disk_ops: Vec<String>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub fired: BTreeMap<String, u64>,
    pub rare: BTreeMap<&'static str, u64>,
    sites: BTreeMap<(String, String), u32>,
    pub heap: Vec<i64>,
    pub switches: u64,
    pub sigint: Option<extern "C" fn(i32)>,
    /// A connection has been asked for.
    pub serving: bool,
    pub ent: Rng,
    pub preempt_left: u64,
    pub interrupted: Option<(u64, u64)>,
    pub rcvtimeo: BTreeMap<usize, u64>,
    /// Microseconds since 1970 at the start.
    pub epoch: u64,
    pub pid: i32,
    pub out_fd: i32,
    pub finished: bool,
}

const EPOCH_S: u64 = 1_700_000_000;

impl Sim {
    // ------------------------------------------------------------ choices

    pub fn choose(&mut self, n: u32, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.sc.choices {
            Some(c) => c.get(self.nchoice).copied().unwrap_or(0) % n,
            None => gen(&mut self.rng) % n,
        };
        self.nchoice += 1;
        self.choices.push(v);
        v
    }
    pub fn chance(&mut self, pct: u8) -> bool {
        pct > 0 && self.choose(2, |r| r.pct(pct as u64) as u32) == 1
    }
    /// How much of `max` units is transferred (at least 1).
    pub fn amount(&mut self, max: usize, part: u8, one: u8) -> usize {
        if max <= 1 || part == 0 {
            return max;
        }
        let less = self.choose(max as u32, |r| {
            if !r.pct(part as u64) {
                0
            } else if r.pct(one as u64) {
                max as u32 - 1
            } else {
                r.below(max as u64) as u32
            }
        });
        max - less as usize
    }
    pub fn fire(&mut self, k: &str) {
        *self.fired.entry(k.into()).or_default() += 1;
    }
    pub fn hit(&mut self, k: &'static str) {
        *self.rare.entry(k).or_default() += 1;
    }
    pub fn note(&mut self, s: String) {
        if self.log.len() < 20_000 {
            self.log.push(s);
        }
    }

    /// Does this call fail?
    pub fn fault(&mut self, site: &str, obj: &str) -> Option<FaultKind> {
        if self.sc.faults.is_empty() {
            return None;
        }
        let mut count = |o: &str| {
            let e = self.sites.entry((site.into(), o.into())).or_insert(0);
            *e += 1;
            *e - 1
        };
        let any = count("");
        let own = if obj.is_empty() { any } else { count(obj) };
        let f = self.sc.faults.iter().find(|f| {
            f.site == site && {
                let n = if f.obj.is_empty() {
                    any
                } else if f.obj == obj {
                    own
                } else {
                    return false;
                };
                n == f.nth || f.sticky && n > f.nth
            }
        })?;
        let k = f.kind.clone();
        let name = match &k {
            FaultKind::Errno(e) => format!("{site}:{}", sys::errno_name(*e)),
            FaultKind::Short(_) => format!("{site}:short"),
            FaultKind::Eof => format!("{site}:eof"),
        };
        self.note(format!("fault {name} {obj}"));
        self.fire(&name);
        Some(k)
    }

    // ------------------------------------------------------------ scheduler

    fn ready(&self, t: u32) -> bool {
        let th = &self.threads[t as usize];
        if th.deadline.is_some_and(|d| d <= self.now) {
            return true;
        }
        match th.cond {
            Cond::Ready => true,
            Cond::Recv(c) => {
                let c = &self.conns[c];
                !c.rx.is_empty() || c.fin || c.rst
            }
            Cond::Send(c) => self.sendable(c),
            Cond::Accept(l) => !self.listeners[l].pending.is_empty(),
            Cond::Pipe(p) => !self.pipes[p].buf.is_empty() || self.pipes[p].writers == 0,
            Cond::Futex(_) => th.woken,
            Cond::Join(t) => self.threads[t as usize].cond == Cond::Dead,
            Cond::Poll => th.poll.iter().any(|(fd, ev)| self.poll_one(*fd, *ev) != 0),
            Cond::Sleep | Cond::Dead => false,
        }
    }

    pub fn sendable(&self, c: usize) -> bool {
        let c = &self.conns[c];
        c.rst || c.peer_gone || c.tx.len() < self.sc.policy.window as usize
    }

    pub fn poll_one(&self, fd: i32, ev: i16) -> i16 {
        let Some(e) = self.fds.get(&fd) else { return libc::POLLNVAL };
        let mut r = 0;
        match &e.obj {
            Obj::Sock(c) => {
                let k = &self.conns[*c];
                if !k.rx.is_empty() || k.fin || k.rst {
                    r |= libc::POLLIN;
                }
                if self.sendable(*c) {
                    r |= libc::POLLOUT;
                }
                if k.rst {
                    r |= libc::POLLERR | libc::POLLHUP;
                }
            }
            Obj::Listener(l) => {
                if !self.listeners[*l].pending.is_empty() {
                    r |= libc::POLLIN;
                }
            }
            Obj::PipeR(p) => {
                if !self.pipes[*p].buf.is_empty() {
                    r |= libc::POLLIN;
                }
            }
            Obj::Std(0) | Obj::NewSock => {}
            _ => r |= libc::POLLIN | libc::POLLOUT,
        }
        r & (ev | libc::POLLERR | libc::POLLHUP)
    }

    /// By a client that connects to the port of 127.0.0.1.
    fn reachable(&self, l: &Listener) -> bool {
        l.listening && l.refs > 0 && (self.sc.port == 0 || l.local && l.port == self.sc.port)
    }

    fn op_ready(&self, i: usize) -> bool {
        let c = &self.clients[i];
        let Some(op) = self.sc.clients[i].get(c.pc) else { return false };
        let ended = c.conn.is_some_and(|k| {
            let k = &self.conns[k];
            k.rst || (k.refs == 0 || k.server_shut) && k.accepted && (k.tx.is_empty() || !c.reading)
        });
        match op {
            COp::Connect => self.listeners.iter().any(|l| self.reachable(l)),
            COp::Wait(n) => c.msgs >= *n || ended || c.conn.is_none(),
            COp::WaitEnd => ended || c.conn.is_none(),
            COp::After(j, n) => {
                let j = *j as usize;
                self.clients.get(j).is_none_or(|o| o.pc >= (*n as usize).min(self.sc.clients[j].len()))
            }
            COp::Idle => false,
            COp::Interrupt => self.sigint.is_some(),
            _ => true,
        }
    }

    fn actions(&self, me: u32, v: &mut Vec<Act>) {
        v.clear();
        let n = self.threads.len() as u32;
        if me < n && self.ready(me) {
            v.push(Act::Thread(me));
        }
        for t in 0..n {
            if t != me && self.ready(t) {
                v.push(Act::Thread(t));
            }
        }
        for i in 0..self.clients.len() {
            if self.op_ready(i) {
                v.push(Act::Op(i));
            }
        }
        for (k, c) in self.conns.iter().enumerate() {
            if !c.rst && (!c.fly.is_empty() || c.fin_sent && !c.fin) {
                v.push(Act::Deliver(k));
            }
            if !c.tx.is_empty() && self.clients[c.client].reading && !c.peer_gone {
                v.push(Act::Drain(k));
            }
        }
        // a clock that runs ahead of the work
        if v.len() > 1 && self.sc.policy.mode != 1 && self.threads.iter().any(|t| t.deadline.is_some_and(|d| d > self.now)) {
            v.push(Act::Clock);
        }
    }

    fn prio(&self, a: Act) -> u64 {
        match a {
            Act::Thread(t) => self.threads[t as usize].prio,
            Act::Op(i) => self.clients[i].prio,
            Act::Deliver(k) => mix(&[self.clients[self.conns[k].client].prio, 1]),
            Act::Drain(k) => mix(&[self.clients[self.conns[k].client].prio, 2]),
            Act::Clock => 1 << 58,
        }
    }

    fn pick(&mut self, v: &[Act], me: u32) -> usize {
        let n = v.len() as u32;
        let p = self.sc.policy.clone();
        if n > 1 && p.mode == 2 && self.sc.choices.is_none() && self.rng.pct(4) {
            let k = self.rng.idx(self.threads.len() + self.clients.len());
            let x = self.rng.next();
            if k < self.threads.len() {
                self.threads[k].prio = x;
            } else {
                let n = self.threads.len();
                self.clients[k - n].prio = x;
            }
        }
        let best = (0..v.len()).max_by_key(|i| self.prio(v[*i])).unwrap_or(0) as u32;
        let mine = v[0] == Act::Thread(me);
        self.choose(n, |r| match p.mode {
            1 if mine && r.pct(p.stay_pct as u64) => 0,
            2 if !r.pct(3) => best,
            _ => r.below(n as u64) as u32,
        }) as usize
    }

    fn earliest(&self) -> Option<u64> {
        self.threads.iter().filter(|t| t.cond != Cond::Dead).filter_map(|t| t.deadline).min()
    }

    /// Decide what happens until it is some thread's turn; hand over to it.
    pub fn schedule(&mut self) {
        let me = self.cur;
        let mut v = Vec::new();
        loop {
            self.steps += 1;
            self.now += 1;
            if self.steps > self.sc.max_steps
                || self.interrupted.is_some_and(|(s, _)| self.sc.prompt > 0 && self.steps > s + self.sc.prompt)
            {
                self.finish("steps", 0);
            }
            self.actions(me, &mut v);
            if v.is_empty() {
                if let Some(d) = self.earliest() {
                    self.now = self.now.max(d);
                    continue;
                }
                let unheard = (0..self.clients.len())
                    .any(|i| matches!(self.sc.clients[i].get(self.clients[i].pc), Some(COp::Interrupt)));
                if unheard {
                    // Ctrl-C in a process that does not handle it
                    self.finish("killed", 0);
                }
                let idle = (0..self.clients.len())
                    .find(|i| matches!(self.sc.clients[*i].get(self.clients[*i].pc), Some(COp::Idle)));
                if let Some(i) = idle {
                    self.op_done(i);
                    continue;
                }
                self.finish("quiet", 0);
            }
            let mut k = self.pick(&v, me);
            let spent = self.sc.choices.as_ref().is_some_and(|c| c.len() <= self.nchoice);
            if self.sc.prompt > 0 && (spent || self.interrupted.is_some()) {
                // everybody gets a turn
                k = (k + self.steps as usize) % v.len();
            }
            let a = v[k];
            if v.len() > 1 {
                let code = match a {
                    Act::Thread(t) => t as u64,
                    Act::Op(i) => 1000 + i as u64,
                    Act::Deliver(c) => 2000 + c as u64,
                    Act::Drain(c) => 3000 + c as u64,
                    Act::Clock => 4000,
                };
                self.signature = mix(&[self.signature, code]);
            }
            match a {
                Act::Thread(t) => {
                    self.cur = t;
                    if t == me {
                        return;
                    }
                    self.switches += 1;
                    let dead = self.threads[me as usize].cond == Cond::Dead;
                    let mine = self.threads[me as usize].word;
                    sys::unpark(self.threads[t as usize].word);
                    if !dead {
                        sys::park(mine);
                    }
                    return;
                }
                Act::Op(i) => self.client_op(i),
                Act::Deliver(c) => self.deliver(c),
                Act::Drain(c) => self.drain(c),
                Act::Clock => {
                    self.fire("clock_jump");
                    if let Some(d) = self.earliest() {
                        self.now = self.now.max(d);
                    }
                }
            }
        }
    }

    /// A scheduling point of a thread that can go on.
    pub fn point(&mut self) {
        if HANDLER.get() {
            return;
        }
        self.schedule();
    }

    /// Wait for a condition; false on timeout.
    pub fn block(&mut self, c: Cond, deadline: Option<u64>) -> bool {
        let me = self.cur as usize;
        self.threads[me].cond = c;
        self.threads[me].deadline = deadline;
        self.schedule();
        let s = sim();
        let t = &mut s.threads[me];
        t.deadline = None;
        let cond = std::mem::replace(&mut t.cond, Cond::Ready);
        let woken = std::mem::replace(&mut t.woken, false);
        match cond {
            Cond::Futex(_) => woken,
            Cond::Sleep => false,
            c => {
                s.threads[me].cond = c;
                let r = {
                    let d = s.threads[me].deadline.take();
                    let r = s.ready(me as u32);
                    s.threads[me].deadline = d;
                    r
                };
                s.threads[me].cond = Cond::Ready;
                r
            }
        }
    }

    // ------------------------------------------------------------ clients

    fn op_done(&mut self, i: usize) {
        let at = self.log.len() as u64;
        let k = self.clients[i].pc;
        self.note(format!("c{i} op {k}"));
        let c = &mut self.clients[i];
        c.pc += 1;
        c.op_at.push(at);
    }

    fn client_op(&mut self, i: usize) {
        let op = self.sc.clients[i][self.clients[i].pc].clone();
        let conn = self.clients[i].conn;
        match op {
            COp::Connect => {
                let l = self.listeners.iter().position(|l| self.reachable(l)).unwrap();
                let k = self.conns.len();
                self.conns.push(Conn {
                    client: i,
                    fly: VecDeque::new(),
                    rx: VecDeque::new(),
                    fin_sent: false,
                    fin: false,
                    rst: false,
                    rst_told: false,
                    tx: VecDeque::new(),
                    peer_gone: false,
                    server_shut: false,
                    refs: 0,
                    accepted: false,
                });
                self.listeners[l].pending.push_back(k);
                self.clients[i].conn = Some(k);
            }
            COp::Send { text, hex } => {
                if let Some(k) = conn {
                    let b = if hex { unhex(&text) } else { text.into_bytes() };
                    let c = &mut self.conns[k];
                    if !c.rst && !c.fin_sent && !(c.accepted && c.refs == 0) {
                        c.fly.extend(b);
                    }
                }
            }
            COp::Close | COp::ShutWrite => {
                if let Some(k) = conn {
                    self.fire(if op == COp::Close { "client_close" } else { "client_half_close" });
                    let c = &mut self.conns[k];
                    c.fin_sent = true;
                    if op == COp::Close {
                        if !c.fly.is_empty() || !c.rx.is_empty() {
                            *self.rare.entry("close_with_requests_under_way").or_default() += 1;
                        }
                        c.peer_gone = true;
                        if !c.tx.is_empty() {
                            // unread data: the peer's stack answers with a reset
                            c.tx.clear();
                            c.fly.clear();
                            c.rst = true;
                            *self.rare.entry("close_with_unread_responses").or_default() += 1;
                        }
                    }
                }
            }
            COp::Reset => {
                if let Some(k) = conn {
                    self.fire("client_reset");
                    let c = &mut self.conns[k];
                    c.rst = true;
                    c.peer_gone = true;
                    c.fly.clear();
                    c.tx.clear();
                }
            }
            COp::StopReading => {
                self.fire("client_stall");
                self.clients[i].reading = false;
            }
            COp::StartReading => self.clients[i].reading = true,
            COp::PutFile(p, h) => {
                self.fire("file_changed");
                let n = self.inodes.len();
                match self.dir.get(&p) {
                    // as an editor that writes in place, or by renaming
                    Some(k) if h.len() % 4 != 0 => self.inodes[*k].data = unhex(&h),
                    _ => {
                        self.inodes.push(Inode { data: unhex(&h) });
                        self.dir.insert(p, n);
                    }
                }
            }
            COp::RemoveFile(p) => {
                self.fire("file_removed");
                self.dir.remove(&p);
            }
            COp::Interrupt => {
                self.fire("interrupt");
                self.interrupted.get_or_insert((self.steps, self.now));
                if let Some(h) = self.sigint {
                    HANDLER.set(true);
                    IN.set(false);
                    h(libc::SIGINT);
                    IN.set(true);
                    HANDLER.set(false);
                }
            }
            COp::Heap => self.heap.push(LIVE.load(SeqCst)),
            COp::Wait(_) | COp::WaitEnd | COp::After(..) | COp::Idle => {}
        }
        self.op_done(i);
    }

    fn deliver(&mut self, k: usize) {
        let n = self.conns[k].fly.len();
        if n == 0 {
            self.conns[k].fin = true;
            return;
        }
        let p = self.sc.policy.clone();
        let m = self.amount(n, p.chunk_pct, p.byte_pct);
        if m < n {
            self.fire("split_delivery");
        }
        let c = &mut self.conns[k];
        let b: Vec<u8> = c.fly.drain(..m).collect();
        c.rx.extend(b);
    }

    fn drain(&mut self, k: usize) {
        let n = self.conns[k].tx.len();
        let p = self.sc.policy.clone();
        let m = self.amount(n, p.chunk_pct / 2, p.byte_pct);
        let i = self.conns[k].client;
        let b: Vec<u8> = self.conns[k].tx.drain(..m).collect();
        let at = self.log.len() as u64;
        let c = &mut self.clients[i];
        c.rx.extend(&b);
        c.pieces.push((at, b.len() as u32));
        while let Some(n) = message_end(&c.rx[c.parsed..]) {
            c.parsed += n;
            c.msgs += 1;
        }
    }

    pub fn conn_unref(&mut self, k: usize) {
        let c = &mut self.conns[k];
        c.refs -= 1;
        if c.refs == 0 {
            let i = c.client;
            c.rx.len();
            self.note(format!("c{i} server closed"));
        }
    }

    // ------------------------------------------------------------ the end

    pub fn finish(&mut self, end: &str, status: i32) -> ! {
        self.report(end, status);
        sys::exit_group(0)
    }

    pub fn report(&mut self, end: &str, status: i32) {
        if self.finished {
            return;
        }
        self.finished = true;
        let mut r = SimRes {
            end: end.into(),
            status,
            steps: self.steps,
            now_us: self.now,
            interrupt_us: self.interrupted.map(|i| i.1),
            choices: std::mem::take(&mut self.choices),
            signature: self.signature,
            log: std::mem::take(&mut self.log),
            stdout: hex(&self.stdout),
            stderr: hex(&self.stderr),
            heap: self.heap.clone(),
            zombies: unsafe { hooks::zombies(&self.threads) },
            switches: self.switches,
            disk_ops: std::mem::take(&mut self.disk_ops),
            ..Default::default()
        };
        for (i, c) in self.clients.iter().enumerate() {
            let k = c.conn.map(|k| &self.conns[k]);
            let _ = i;
            r.clients.push(ClientRes {
                done: c.pc as u32,
                rx: hex(&c.rx),
                pieces: c.pieces.clone(),
                accepted: k.is_some_and(|k| k.accepted),
                ended: k.is_some_and(|k| k.accepted && k.refs == 0),
                refused: c.refused,
                op_at: c.op_at.clone(),
                unread: k.map_or(0, |k| (k.rx.len() + k.fly.len()) as u32),
            });
        }
        for (t, th) in self.threads.iter().enumerate() {
            if th.cond != Cond::Dead {
                let what = match th.cond {
                    Cond::Recv(c) => format!("recv c{}", self.conns[c].client),
                    Cond::Send(c) => format!("send c{}", self.conns[c].client),
                    Cond::Accept(_) => "accept".into(),
                    Cond::Pipe(_) => "pipe".into(),
                    Cond::Futex(_) => "futex".into(),
                    c => format!("{c:?}").to_lowercase(),
                };
                r.threads.push(format!("{t}:{what}"));
            }
        }
        for (fd, e) in &self.fds {
            let what = match &e.obj {
                Obj::Listener(_) => "listener".into(),
                Obj::Sock(c) => format!("socket c{}", self.conns[*c].client),
                Obj::NewSock => "socket".into(),
                Obj::PipeR(_) | Obj::PipeW(_) => "pipe".into(),
                Obj::File(o) => format!("file {}", self.ofds[*o].path),
                Obj::Std(_) => continue,
            };
            r.fds.push(format!("{fd}:{what}"));
        }
        for (p, i) in &self.dir {
            r.files.push((p.clone(), hex(&self.inodes[*i].data)));
        }
        r.fired = self.fired.iter().map(|(k, v)| (k.clone(), *v)).collect();
        r.rare = self.rare.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        let js = serde_json::to_vec(&r).unwrap_or_default();
        sys::write_all(self.out_fd, &js);
    }
}

/// Length of the whole message at the front.
fn message_end(b: &[u8]) -> Option<usize> {
    let skip = b.iter().take_while(|c| **c == b'\r' || **c == b'\n').count();
    let b2 = &b[skip..];
    let h = b2.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = std::str::from_utf8(&b2[..h]).ok()?;
    let n: usize = head.lines().find_map(|l| l.strip_prefix("Content-Length:"))?.trim().parse().ok()?;
    let end = h + 4 + n;
    (b2.len() >= end).then_some(skip + end)
}

// ---------------------------------------------------------------- start

extern "C" {
    fn on_exit(f: extern "C" fn(i32, *mut libc::c_void), arg: *mut libc::c_void) -> i32;
}

extern "C" fn at_exit(status: i32, _: *mut libc::c_void) {
    if unsafe { SIM.is_some() } {
        IN.set(true);
        sim().report("exit", status);
    }
}

extern "C" fn start(_argc: i32, _argv: *const *const u8, _env: *const *const u8) {
    unsafe {
        let var = |n: &[u8]| -> Option<i32> {
            let p = libc::getenv(n.as_ptr().cast());
            (!p.is_null()).then(|| libc::atoi(p))
        };
        let (Some(i), Some(o)) = (var(b"DST_IN\0"), var(b"DST_OUT\0")) else { return };
        IN.set(true);
        let js = sys::read_all(i);
        let Ok(sc) = serde_json::from_slice::<SimSc>(&js) else { sys::exit_group(96) };
        let mut rng = Rng::new(mix(&[sc.seed, 0x51e]));
        let mut dir = BTreeMap::new();
        let mut inodes = vec![];
        for (p, h) in &sc.files {
            dir.insert(p.clone(), inodes.len());
            inodes.push(Inode { data: unhex(h) });
        }
        let clients = sc
            .clients
            .iter()
            .map(|_| Client {
                pc: 0,
                conn: None,
                reading: true,
                rx: vec![],
                parsed: 0,
                msgs: 0,
                pieces: vec![],
                op_at: vec![],
                refused: false,
                prio: rng.next(),
            })
            .collect();
        let mut fds = BTreeMap::new();
        for k in 0..3u8 {
            fds.insert(k as i32, FdEnt { obj: Obj::Std(k), nonblock: false });
        }
        let ent = Rng::new(sc.entropy);
        // what else differs from process to process
        let e = sc.entropy;
        let epoch = if e == 0 { EPOCH_S * 1_000_000 } else { mix(&[e, 1]) % (2 * EPOCH_S * 1_000_000) };
        let pid = if e == 0 { 1000 } else { (mix(&[e, 2]) % 4_000_000) as i32 + 2 };
        if e != 0 && sc.clients.is_empty() {
            hooks::SCATTER.store(mix(&[e, 3]) | 1, SeqCst);
        }
        if sc.clients.iter().flatten().any(|o| matches!(o, COp::Heap)) {
            hooks::watch_heap();
        }
        SIM = Some(Box::new(Sim {
            rng,
            choices: vec![],
            nchoice: 0,
            threads: vec![],
            cur: 0,
            clients,
            conns: vec![],
            listeners: vec![],
            pipes: vec![],
            ofds: vec![],
            inodes,
            dir,
            fds,
            now: 0,
            steps: 0,
            signature: 0,
            log: vec![],
            disk_ops: vec![],
            stdout: vec![],
            stderr: vec![],
            fired: BTreeMap::new(),
            rare: BTreeMap::new(),
            sites: BTreeMap::new(),
            heap: vec![],
            switches: 0,
            sigint: None,
            serving: false,
            ent,
            preempt_left: 0,
            interrupted: None,
            rcvtimeo: BTreeMap::new(),
            epoch,
            pid,
            out_fd: o,
            finished: false,
            sc,
        }));
        hooks::new_thread();
        TID.set(0);
        hooks::init();
        on_exit(at_exit, std::ptr::null_mut());
        IN.set(false);
    }
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(i32, *const *const u8, *const *const u8) = start;
