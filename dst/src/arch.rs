//! In-process simulation of the circuit simulators: several instances,
//! interleaved step by step on threads that pass one baton, with chosen
//! entropy and chosen evaluation order.
use crate::common::*;
use crate::gen::{self, Opts, Want};
use crate::isa::{self, End};
use crate::pipe::Pipe;
use crate::prng::{mix, Rng};
use crate::prog::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use y86_sim::architectures::create_sim;
use y86_sim::framework::{CpuSim, MemData};

pub const ARCHS: [&str; 3] = ["seq_std", "seq_plus_std", "pipe_std"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Asm(Prog),
    /// (address, hex bytes)
    Raw(Vec<(u64, String)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Instance {
    pub src: usize,
    pub arch: String,
    /// Entropy of the thread it lives on is that of the first instance there.
    pub entropy: u64,
    pub order: Option<u64>,
    pub thread: usize,
    /// Drive it through `step` instead of the two phase functions.
    pub step_api: bool,
    /// Look at it after these cycles only.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub watch: Option<Vec<u64>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Create(usize),
    Step(usize, u32),
    Inspect(usize),
    Drop(usize),
    /// Create so many more like it and drop most of them at once.
    Crowd(usize, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArchSc {
    pub prop: String,
    pub srcs: Vec<Src>,
    pub insts: Vec<Instance>,
    pub ops: Vec<Op>,
    /// Cycle cap of each instance.
    pub limit: u64,
    /// Instances to run once more, looking only at one moment.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub probes: Vec<(usize, u64)>,
}

// ---------------------------------------------------------------- entropy

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
}

/// From now on this thread sees the world that follows from `e`.
pub fn set_entropy(e: u64) {
    ENTROPY.set(e);
}

/// Process entropy as seen by the code under test (std's hash maps).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng::new(ENTROPY.get() ^ 0xe47);
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

// Other things that differ from process to process: the clock, the process
// number and where the allocator puts things.  All derive from the entropy of
// the thread; 0 means the ordinary ones.

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> i32 {
    let e = ENTROPY.get();
    if e == 0 {
        return libc::syscall(libc::SYS_clock_gettime, c, t) as i32;
    }
    thread_local! {
        static TICKS: Cell<u64> = const { Cell::new(0) };
    }
    TICKS.set(TICKS.get() + 1 + mix(&[e, TICKS.get()]) % 5000);
    let s = mix(&[e, 0xc10c, c as u64]) % 2_000_000_000;
    let n = mix(&[e, 0x4a0, c as u64]) % 500_000_000 + TICKS.get();
    *t = libc::timespec { tv_sec: s as i64 + (n / 1_000_000_000) as i64, tv_nsec: (n % 1_000_000_000) as i64 };
    0
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    let e = ENTROPY.get();
    if e == 0 {
        return libc::syscall(libc::SYS_getpid) as i32;
    }
    (mix(&[e, 0x91d]) % 4_000_000) as i32 + 2
}

struct Scatter;

#[global_allocator]
static ALLOC: Scatter = Scatter;

unsafe impl std::alloc::GlobalAlloc for Scatter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        use std::alloc::System;
        thread_local! {
            static STATE: Cell<u64> = const { Cell::new(0) };
        }
        let p = System.alloc(l);
        let e = ENTROPY.get();
        if e == 0 || l.size() > 4096 || p.is_null() {
            return p;
        }
        // one of two places
        let n = mix(&[e, STATE.get()]);
        STATE.set(STATE.get() + 1);
        if n % 4 > 1 {
            return p;
        }
        let q = System.alloc(l);
        if n % 4 == 0 {
            System.dealloc(p, l);
            return q;
        }
        System.dealloc(q, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- engine

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Hist {
    /// Hash of everything visible after each cycle.
    pub cycles: Vec<u64>,
    pub pcs: Vec<u64>,
    pub counts_ok: bool,
    pub terminated: bool,
    pub cycle_count: u64,
    pub cost: u64,
    pub order_text: u64,
    pub regs: [u64; 16],
    pub pc: u64,
    pub cc: Option<(bool, bool, bool)>,
    pub mem: u64,
    /// Bytes of memory that differ from the initial image, up to 64.
    pub panic: Option<String>,
    /// Inspecting changed something.
    pub inspect_broke: Option<String>,
    pub dropped: bool,
    pub created: bool,
}

struct Live {
    sim: Box<dyn CpuSim>,
    mem: MemData,
    first: bool,
}

enum Cmd {
    Create(usize, Box<[u8; MEM]>, Instance, bool),
    Step(usize, u32, u64),
    Inspect(usize),
    Finish(usize),
    Drop(usize),
    Crowd(usize, Box<[u8; MEM]>, String, u32),
}

fn visible(l: &Live, detail: bool) -> u64 {
    let mut h = mix(&[l.sim.program_counter(), l.sim.cycle_count(), l.sim.is_terminate() as u64]);
    for r in l.sim.registers() {
        h = mix(&[h, r]);
    }
    if detail {
        for s in l.sim.get_stage_info() {
            h = mix(&[h, hash_bytes(s.name.as_bytes())]);
            for (n, v) in s.signals {
                h = mix(&[h, hash_bytes(n.as_bytes()), hash_bytes(v.as_bytes())]);
            }
        }
        if l.sim.cycle_count() % 16 == 0 || l.sim.is_terminate() {
            h = mix(&[h, hash_bytes(&l.mem.read()[..])]);
        }
    }
    h
}

fn parse_cc(sim: &dyn CpuSim) -> Option<(bool, bool, bool)> {
    for s in sim.get_stage_info() {
        for (n, v) in s.signals {
            if n == "cc" {
                let f = |k: &str| {
                    let i = v.find(&format!("{k}: "))? + k.len() + 2;
                    Some(v[i..].starts_with("true"))
                };
                return Some((f("sf")?, f("of")?, f("zf")?));
            }
        }
    }
    None
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

fn worker(entropy: u64, rx: Receiver<Cmd>, tx: Sender<(usize, Hist)>, detail: bool) {
    ENTROPY.set(entropy);
    let mut live: Vec<Option<(Live, Hist, Instance)>> = (0..32).map(|_| None).collect();
    let mut crowd: Vec<Box<dyn CpuSim>> = vec![];
    let reply = |h: Hist, i: usize| tx.send((i, h)).unwrap();
    for cmd in rx {
        match cmd {
            Cmd::Create(i, mem, inst, with_text) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    y86_sim::framework::dst::set_order_seed(inst.order);
                    let mem = MemData::init(*mem);
                    let sim = create_sim(inst.arch.clone(), mem.clone(), false);
                    let mut h = Hist { counts_ok: true, created: true, ..Default::default() };
                    h.cost = sim.cycle_cost();
                    if with_text && inst.order.is_none() {
                        h.order_text = hash_bytes(format!("{sim}").as_bytes());
                    }
                    (Live { sim, mem, first: true }, h)
                }));
                match r {
                    Ok((l, h)) => live[i] = Some((l, h, inst)),
                    Err(e) => {
                        reply(Hist { panic: Some(msg(e)), ..Default::default() }, i);
                        continue;
                    }
                }
                reply(Hist::default(), i);
            }
            Cmd::Step(i, n, limit) => {
                if let Some((l, h, inst)) = &mut live[i] {
                    for _ in 0..n {
                        if h.panic.is_some() || l.sim.is_terminate() || h.cycles.len() as u64 >= limit {
                            break;
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            if inst.step_api {
                                l.sim.step();
                            } else {
                                if !l.first {
                                    l.sim.initiate_next_cycle();
                                }
                                l.sim.propagate_signals();
                            }
                            l.first = false;
                            let n = h.cycles.len() as u64 + 1;
                            if inst.watch.as_ref().is_some_and(|w| !w.contains(&n)) {
                                return (0, 0, n);
                            }
                            (visible(l, detail), l.sim.program_counter(), l.sim.cycle_count())
                        }));
                        match r {
                            Ok((v, pc, c)) => {
                                h.cycles.push(v);
                                h.pcs.push(pc);
                                h.counts_ok &= c == h.cycles.len() as u64;
                            }
                            Err(e) => h.panic = Some(msg(e)),
                        }
                    }
                    let done = h.panic.is_some() || l.sim.is_terminate() || h.cycles.len() as u64 >= limit;
                    reply(Hist { terminated: done, ..Default::default() }, i);
                } else {
                    reply(Hist { terminated: true, ..Default::default() }, i);
                }
            }
            Cmd::Inspect(i) => {
                if let Some((l, h, _)) = &mut live[i] {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let a = visible(l, true);
                        let m = hash_bytes(&l.mem.read()[..]);
                        let _ = (format!("{}", l.sim), l.sim.cycle_cost(), l.sim.proporder().to_string());
                        let b = visible(l, true);
                        (a == b && m == hash_bytes(&l.mem.read()[..])).then_some(())
                    }));
                    match r {
                        Ok(Some(())) => {}
                        Ok(None) => h.inspect_broke = Some(format!("at cycle {}", l.sim.cycle_count())),
                        Err(e) => h.panic = Some(msg(e)),
                    }
                }
                reply(Hist::default(), i);
            }
            Cmd::Crowd(i, mem, arch, n) => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    y86_sim::framework::dst::set_order_seed(None);
                    for k in 0..n {
                        let mut s = create_sim(arch.clone(), MemData::init(*mem), false);
                        s.propagate_signals();
                        if k % 3 == 1 {
                            s.initiate_next_cycle();
                            s.propagate_signals();
                        }
                        if k % 8 == 5 {
                            crowd.push(s);
                        }
                    }
                }));
                reply(Hist { panic: r.err().map(msg), ..Default::default() }, i);
            }
            Cmd::Drop(i) => {
                let mut h = Hist::default();
                if let Some((l, mut hh, _)) = live[i].take() {
                    finish(&l, &mut hh);
                    hh.dropped = true;
                    drop(l);
                    h = hh;
                }
                reply(h, i);
            }
            Cmd::Finish(i) => {
                let mut h = Hist::default();
                if let Some((l, mut hh, _)) = live[i].take() {
                    finish(&l, &mut hh);
                    h = hh;
                }
                reply(h, i);
            }
        }
    }
}

fn finish(l: &Live, h: &mut Hist) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        (
            l.sim.is_terminate(),
            l.sim.cycle_count(),
            l.sim.registers(),
            l.sim.program_counter(),
            parse_cc(&*l.sim),
            hash_bytes(&l.mem.read()[..]),
        )
    }));
    match r {
        Ok((t, c, regs, pc, cc, mem)) => {
            h.terminated = t;
            h.cycle_count = c;
            h.regs = regs;
            h.pc = pc;
            h.cc = cc;
            h.mem = mem;
        }
        Err(e) => h.panic = h.panic.take().or(Some(msg(e))),
    }
}

/// Run instances under a schedule; afterwards everything left runs to its end.
fn execute(mems: &[Box<[u8; MEM]>], insts: &[Instance], ops: &[Op], limit: u64, detail: bool) -> Vec<Hist> {
    let nt = insts.iter().map(|i| i.thread + 1).max().unwrap_or(0);
    let (tx, rx) = channel();
    let mut to: Vec<Option<Sender<Cmd>>> = (0..nt).map(|_| None).collect();
    let mut handles = vec![];
    for t in 0..nt {
        let Some(first) = insts.iter().find(|i| i.thread == t) else { continue };
        let (ctx, crx) = channel();
        let tx = tx.clone();
        let e = first.entropy;
        handles.push(
            std::thread::Builder::new()
                .stack_size(48 << 20)
                .spawn(move || worker(e, crx, tx, detail))
                .unwrap(),
        );
        to[t] = Some(ctx);
    }
    let mut hist: Vec<Hist> = insts.iter().map(|_| Hist::default()).collect();
    let mut state = vec![0u8; insts.len()]; // 0 not created, 1 live, 2 over
    let send = |i: usize, c: Cmd| -> Hist {
        to[insts[i].thread].as_ref().unwrap().send(c).unwrap();
        rx.recv().unwrap().1
    };
    let create = |i: usize, hist: &mut Vec<Hist>, state: &mut Vec<u8>| {
        let h = send(i, Cmd::Create(i, mems[insts[i].src].clone(), insts[i].clone(), detail));
        state[i] = 1;
        if h.panic.is_some() {
            hist[i] = h;
            state[i] = 2;
        }
    };
    for op in ops {
        match *op {
            Op::Create(i) if state[i] == 0 => create(i, &mut hist, &mut state),
            Op::Step(i, n) if state[i] == 1 => {
                send(i, Cmd::Step(i, n, limit));
            }
            Op::Inspect(i) if state[i] == 1 => {
                send(i, Cmd::Inspect(i));
            }
            Op::Crowd(i, n) => {
                let h = send(i, Cmd::Crowd(i, mems[insts[i].src].clone(), insts[i].arch.clone(), n));
                if h.panic.is_some() && state[i] < 2 {
                    hist[i] = h;
                    state[i] = 2;
                }
            }
            Op::Drop(i) if state[i] == 1 => {
                hist[i] = send(i, Cmd::Drop(i));
                state[i] = 2;
            }
            _ => {}
        }
    }
    for i in 0..insts.len() {
        if state[i] == 0 {
            create(i, &mut hist, &mut state);
        }
        if state[i] == 1 {
            while !send(i, Cmd::Step(i, 1000, limit)).terminated {}
            hist[i] = send(i, Cmd::Finish(i));
        }
    }
    drop(to);
    for h in handles {
        let _ = h.join();
    }
    hist
}

/// The same in a process of its own, so that nothing that happened before can
/// influence it.
fn execute_forked(
    mems: &[Box<[u8; MEM]>],
    insts: &[Instance],
    ops: &[Op],
    limit: u64,
    detail: bool,
) -> Result<Vec<Hist>, String> {
    let out = crate::runner::in_fork(20_000, || {
        serde_json::to_vec(&execute(mems, insts, ops, limit, detail)).unwrap()
    })?;
    serde_json::from_slice(&out).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- scenarios

fn raw_src(r: &mut Rng) -> Src {
    Src::Raw(gen::raw_image(r).into_iter().map(|(a, b)| (a, hex(&b))).collect())
}

fn raw_mem(parts: &[(u64, String)]) -> Box<[u8; MEM]> {
    let mut m = zero_mem();
    for (a, h) in parts {
        for (k, b) in unhex(h).into_iter().enumerate() {
            if (*a as usize + k) < MEM {
                m[*a as usize + k] = b;
            }
        }
    }
    m
}

fn pick_size(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 1 + r.below(3),
        1..=6 => 3 + r.below(15),
        7 | 8 => 15 + r.below(30),
        _ => 40 + r.below(60),
    }
}

/// Larger ones, some of the time.
fn grow(r: &mut Rng, o: &mut Opts) {
    let k = scale(r).min(8);
    o.size = (o.size * k).min(400).max(o.size);
    o.limit *= k.min(2);
}

fn steps(r: &mut Rng, n: usize, k: u64) -> Vec<Op> {
    let mut ops = vec![];
    for _ in 0..k {
        let i = r.idx(n);
        let max = if r.pct(20) { 60 } else { 8 };
        ops.push(Op::Step(i, 1 + r.below(max) as u32));
    }
    ops
}

/// The order of evaluation may be chosen freely for this program on this
/// architecture: no byte that is ever fetched is ever written.
fn order_free(mem: &[u8; MEM], arch: &str, limit: u64) -> bool {
    if arch == "pipe_std" {
        let mut p = Pipe::new(mem);
        while !p.done && p.cycle < limit + 8 {
            p.step();
        }
        !p.fetch_write_conflict()
    } else {
        let o = isa::run(mem, false, limit + 8);
        if o.end == End::Undefined {
            return false;
        }
        // ten-byte windows, because raw fetch signals are visible too
        let mut w = vec![false; MEM + 32];
        let mut f = vec![false; MEM + 32];
        for s in &o.trace {
            if let Some(a) = s.write.filter(|a| *a <= MEM as u64 - 8) {
                w[a as usize..a as usize + 8].fill(true);
            }
            if s.pc < MEM as u64 {
                f[s.pc as usize..s.pc as usize + 10].fill(true);
            }
        }
        !f.iter().zip(&w).any(|(a, b)| *a && *b)
    }
}

pub fn generate(prop: &str, seed: u64) -> ArchSc {
    let r = &mut Rng::new(seed);
    let size = pick_size(r);
    let mut o = Opts { want: Want::Halt, iopq: false, size, limit: 1500, long: false };
    grow(r, &mut o);
    let mut sc = ArchSc { prop: prop.into(), srcs: vec![], insts: vec![], ops: vec![], limit: 12_000, probes: vec![] };
    let inst = |r: &mut Rng, src: usize, arch: &str, order: bool| Instance {
        src,
        arch: arch.into(),
        entropy: r.next(),
        order: (order && r.pct(60)).then(|| r.next()),
        thread: 0,
        step_api: r.pct(40),
        watch: None,
    };
    match prop {
        "C01" | "C04" => {
            o.iopq = prop == "C01" && r.pct(12);
            if r.below(400) == 0 {
                o.long = true;
                o.iopq = false;
                o.limit = 100_000;
                sc.limit = 150_000;
            }
            let c = gen::program(r, &o);
            sc.srcs.push(Src::Asm(c.prog));
            if !c.out.uses_iopq {
                for a in ARCHS {
                    let free = order_free(&c.img.mem, a, sc.limit);
                    let i = inst(r, 0, a, free);
                    sc.insts.push(i);
                }
                sc.ops = steps(r, 3, 8);
            }
        }
        "C02" => {
            let arch = ARCHS[[0, 1, 2, 2][r.idx(4)]];
            let src = match r.below(10) {
                0 | 1 => raw_src(r),
                2 | 3 => {
                    o.want = Want::Fault;
                    Src::Asm(gen::program(r, &o).prog)
                }
                4 => {
                    o.want = Want::Runaway;
                    o.limit = 600;
                    Src::Asm(gen::program(r, &o).prog)
                }
                5 => Src::Asm(gen::attempt_ok(r, &o)),
                _ => Src::Asm(gen::program(r, &o).prog),
            };
            sc.limit = 700;
            let mem = match &src {
                Src::Asm(p) => p.asm().unwrap().mem,
                Src::Raw(p) => raw_mem(p),
            };
            sc.srcs.push(src);
            let free = order_free(&mem, arch, sc.limit);
            for k in 0..4 {
                let mut i = inst(r, 0, arch, false);
                if k == 0 {
                    i.entropy = 0;
                    i.step_api = false;
                }
                if k >= 2 && free {
                    i.order = Some(r.next());
                }
                sc.insts.push(i);
            }
        }
        "C03" => {
            let src = match r.below(10) {
                0..=2 => raw_src(r),
                3 => Src::Asm(gen::program(r, &o).prog),
                _ => {
                    o.want = Want::Fault;
                    o.iopq = r.pct(20);
                    Src::Asm(gen::program(r, &o).prog)
                }
            };
            sc.srcs.push(src);
            sc.limit = 2500;
            for a in ARCHS {
                let i = inst(r, 0, a, false);
                sc.insts.push(i);
            }
            sc.ops = steps(r, 3, 5);
        }
        "C05" => {
            let ns = 1 + r.idx(3);
            o.size = o.size.min(25);
            for _ in 0..ns {
                o.want = *r.pick(&[Want::Halt, Want::Halt, Want::Halt, Want::Fault]);
                let p = gen::program(r, &o).prog;
                sc.srcs.push(Src::Asm(p));
            }
            sc.limit = 400;
            let ni = 2 + r.idx(5);
            let nt = 1 + r.idx(3);
            let same_arch = r.pct(40).then(|| ARCHS[r.idx(3)]);
            for _ in 0..ni {
                let a = same_arch.unwrap_or(ARCHS[r.idx(3)]);
                let s = r.idx(ns);
                let mut i = inst(r, s, a, false);
                i.thread = r.idx(nt);
                sc.insts.push(i);
            }
            let k = 10 + r.below(60);
            for _ in 0..k {
                let i = r.idx(ni);
                sc.ops.push(match r.below(20) {
                    0..=4 => Op::Create(i),
                    5 => Op::Drop(i),
                    6 | 7 => Op::Inspect(i),
                    _ => {
                        let max = if r.pct(15) { 50 } else { 6 };
                        Op::Step(i, 1 + r.below(max) as u32)
                    }
                });
            }
            if r.pct(8) {
                let at = r.idx(sc.ops.len());
                let i = r.idx(ni);
                let most = if r.pct(60) { 70 } else { 300 };
                sc.ops.insert(at, Op::Crowd(i, 1 + r.below(most) as u32));
            }
            let i = r.idx(ni);
            for _ in 0..3 {
                sc.probes.push((i, r.next() >> 40));
            }
        }
        _ => unreachable!(),
    }
    sc
}

// ---------------------------------------------------------------- checking

/// What the reference says about one source.
struct Truth {
    mem: Box<[u8; MEM]>,
    /// Without iopq, as the architectures see it.
    out: isa::Outcome,
    pipe_cycles: u64,
    final_mem: u64,
}

fn truth(mem: Box<[u8; MEM]>, limit: u64) -> Truth {
    let out = isa::run(&mem, false, limit);
    let pipe_cycles = isa::pipe_cycles(&out.trace);
    let final_mem = hash_bytes(&out.m.mem[..]);
    Truth { mem, out, pipe_cycles, final_mem }
}

fn load(sc: &ArchSc, i: usize, res: &mut RunResult) -> Option<Truth> {
    match &sc.srcs[i] {
        Src::Raw(p) => Some(truth(raw_mem(p), sc.limit)),
        Src::Asm(p) => {
            let img = p.asm().ok()?;
            let text = p.render();
            let got = catch_unwind(AssertUnwindSafe(|| {
                on_big_stack(move || {
                    y86_sim::assemble(&text, Default::default())
                        .map(|o| Box::new(o.obj.init_mem()))
                        .map_err(|e| format!("{e:#}"))
                })
            }));
            match got {
                Ok(Ok(m)) => {
                    if m[..] != img.mem[..] {
                        let at = (0..MEM).find(|k| m[*k] != img.mem[*k]).unwrap();
                        res.bad(
                            "assembled-image",
                            format!(
                                "source {i} assembles to {:02x} at {at:#x} where its text says {:02x}",
                                m[at], img.mem[at]
                            ),
                        );
                        return None;
                    }
                }
                Ok(Err(e)) => {
                    res.bad("assemble", format!("valid source {i} is refused: {e}"));
                    return None;
                }
                Err(e) => {
                    res.bad("assemble-panic", format!("assembling source {i}: {}", msg(e)));
                    return None;
                }
            }
            Some(truth(img.mem, sc.limit))
        }
    }
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(48 << 20).spawn(f).unwrap().join() {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn reg_diff(a: &[u64; 16], b: &[u64; 16], skip: &[u8]) -> Option<String> {
    let v: Vec<String> = (0..15)
        .filter(|r| !skip.contains(&(*r as u8)) && a[*r] != b[*r])
        .map(|r| format!("{} is {:#x}, expected {:#x}", REGS[r], a[r], b[r]))
        .collect();
    (!v.is_empty()).then(|| v.join(", "))
}

pub fn run(sc: &ArchSc) -> RunResult {
    let mut res = RunResult::default();
    let mut truths = vec![];
    for i in 0..sc.srcs.len() {
        match load(sc, i, &mut res) {
            Some(t) => truths.push(t),
            None => return res,
        }
    }
    if truths.is_empty() {
        return res;
    }
    match sc.prop.as_str() {
        "C01" | "C04" => check_final(sc, &truths, &mut res),
        "C02" => check_same(sc, &truths, &mut res),
        "C03" => check_fault(sc, &truths, &mut res),
        "C05" => check_isolated(sc, &truths, &mut res),
        _ => unreachable!(),
    }
    let t = &truths[0];
    let mut p = Pipe::new(&t.mem);
    while !p.done && p.cycle < 3000 {
        p.step();
    }
    res.add("probe_load_use", p.n_load_use);
    res.add("probe_mispredict", p.n_mispredict);
    res.add("probe_ret", p.n_ret);
    res.add("probe_bad_instruction_on_wrong_path", p.n_spec_fault);
    let mut sig = p.signature;
    for o in &sc.ops {
        sig = mix(&[
            sig,
            match o {
                Op::Create(i) => *i as u64,
                Op::Step(i, n) => 0x100 + *i as u64 + (*n as u64) << 16,
                Op::Inspect(i) => 0x200 + *i as u64,
                Op::Drop(i) => 0x300 + *i as u64,
                Op::Crowd(i, n) => 0x400 + *i as u64 + ((*n as u64) << 16),
            },
        ]);
    }
    for i in &sc.insts {
        sig = mix(&[sig, i.order.unwrap_or(0), hash_bytes(i.arch.as_bytes())]);
        res.add("permuted_evaluation_orders", i.order.is_some() as u64);
    }
    res.signature = sig;
    res.sample = format!(
        "{} instances of {} programs; first: {} instructions, ends {:?}; {} load/use, {} mispredictions, {} returns; {} schedule entries",
        sc.insts.len(),
        sc.srcs.len(),
        t.out.trace.len(),
        t.out.end,
        p.n_load_use,
        p.n_mispredict,
        p.n_ret,
        sc.ops.len()
    );
    res
}

fn count(res: &mut RunResult, hs: &[Hist]) {
    for h in hs {
        res.add("sim_cycles", h.cycles.len() as u64);
        res.max("max_sim_cycles_of_one_run", h.cycles.len() as u64);
    }
}

fn isa_call(mem: &[u8; MEM]) -> Result<Result<([u64; 16], u64, (bool, bool, bool), u64, u64), String>, String> {
    let m = Box::new(*mem);
    catch_unwind(AssertUnwindSafe(|| {
        on_big_stack(move || {
            y86_sim::isa::simulate(*m, false)
                .map(|r| (r.regs, hash_bytes(&r.bin[..]), (r.cc.sf, r.cc.of, r.cc.zf), r.pc as u64, r.n_insts))
                .map_err(|e| format!("{e:#}"))
        })
    }))
    .map_err(msg)
}

fn check_isa_halt(res: &mut RunResult, mem: &[u8; MEM], limit: u64) {
    let o = isa::run(mem, true, limit);
    if o.end != End::Halt || o.self_modifying {
        return;
    }
    match isa_call(mem) {
        Err(p) => res.bad("isa-panic", p),
        Ok(Err(e)) => res.bad("isa-error", format!("ISA simulator fails on a halting program: {e}")),
        Ok(Ok((regs, m, cc, pc, n))) => {
            if let Some(d) = reg_diff(&regs, &o.m.regs, &[]) {
                res.bad("isa-regs", format!("ISA simulator: {d}"));
            }
            if m != hash_bytes(&o.m.mem[..]) {
                res.bad("isa-memory", "ISA simulator: final memory differs");
            }
            if cc != (o.m.cc.sf, o.m.cc.of, o.m.cc.zf) {
                res.bad("isa-cc", format!("ISA simulator: condition codes (sf, of, zf) {cc:?}, expected {:?}", o.m.cc));
            }
            if pc != o.m.pc || n != o.m.n {
                res.bad("isa-count", format!("ISA simulator: pc {pc:#x}, {n} instructions, expected {:#x}, {}", o.m.pc, o.m.n));
            }
        }
    }
}

fn check_final(sc: &ArchSc, ts: &[Truth], res: &mut RunResult) {
    let t = &ts[0];
    let isa_o = isa::run(&t.mem, true, sc.limit);
    if isa_o.self_modifying || !matches!(isa_o.end, End::Halt) {
        return; // outside the property (only while minimising)
    }
    res.nontrivial = t.out.trace.len() > 10;
    let c04 = sc.prop == "C04";
    if !c04 {
        check_isa_halt(res, &t.mem, sc.limit);
    }
    if t.out.end != End::Halt {
        return;
    }
    let hs = execute(&[t.mem.clone()], &sc.insts, &sc.ops, sc.limit, false);
    count(res, &hs);
    for (h, i) in hs.iter().zip(&sc.insts) {
        let a = &i.arch;
        if let Some(p) = &h.panic {
            res.bad("panic", format!("{a}: {p}"));
            continue;
        }
        if !h.terminated {
            res.bad("no-halt", format!("{a}: not halted after {} cycles, expected {}", sc.limit, t.pipe_cycles));
            continue;
        }
        if c04 {
            let want = if a == "pipe_std" { t.pipe_cycles } else { t.out.m.n };
            if h.cycle_count != want || h.cycles.len() as u64 != want {
                res.bad(
                    "cycle-count",
                    format!(
                        "{a}: {} cycles ({} steps) for {} instructions, the timing model says {want}",
                        h.cycle_count,
                        h.cycles.len(),
                        t.out.m.n
                    ),
                );
            }
            if !h.counts_ok {
                res.bad("cycle-skip", format!("{a}: the cycle count does not grow by one each cycle"));
            }
        } else {
            if let Some(d) = reg_diff(&h.regs, &t.out.m.regs, &[]) {
                res.bad("regs", format!("{a}: {d}"));
            }
            if h.mem != t.final_mem {
                res.bad("memory", format!("{a}: final memory differs"));
            }
        }
    }
}

fn check_same(sc: &ArchSc, ts: &[Truth], res: &mut RunResult) {
    let mem = [ts[0].mem.clone()];
    let Some(first) = sc.insts.first() else { return };
    let free = order_free(&mem[0], &first.arch, sc.limit);
    let mut gold: Option<Hist> = None;
    for (k, i) in sc.insts.iter().enumerate() {
        let mut i = i.clone();
        if !free {
            i.order = None;
        }
        let permuted = i.order.is_some();
        let h = match execute_forked(&mem, &[i], &[], sc.limit, true) {
            Ok(mut h) => h.remove(0),
            Err(e) => return res.bad("hang", e),
        };
        count(res, std::slice::from_ref(&h));
        res.add("entropy_values", 1);
        res.nontrivial |= h.cycles.len() > 10;
        let Some(g) = &gold else {
            gold = Some(h);
            continue;
        };
        let what = if permuted { "another evaluation order" } else { "another entropy value (hashing, clock, process number, heap layout)" };
        let class = if permuted { "order" } else { "entropy" };
        if let Some(c) = (0..g.cycles.len().max(h.cycles.len())).find(|c| g.cycles.get(*c) != h.cycles.get(*c)) {
            res.bad(
                class,
                format!("{}: execution {k}, with {what}, differs from execution 0 at cycle {}", first.arch, c + 1),
            );
        } else if (g.terminated, g.cycle_count, g.regs, g.mem, &g.panic) != (h.terminated, h.cycle_count, h.regs, h.mem, &h.panic) {
            res.bad(class, format!("{}: execution {k}, with {what}, ends differently from execution 0", first.arch));
        } else if !permuted && (g.order_text, g.cost) != (h.order_text, h.cost) {
            res.bad("architecture-text", format!("{}: execution {k}: with {what}, the reported evaluation order changes", first.arch));
        }
    }
}

fn check_fault(sc: &ArchSc, ts: &[Truth], res: &mut RunResult) {
    let t = &ts[0];
    // the ISA simulator
    let o = isa::run(&t.mem, true, sc.limit);
    match o.end {
        End::Halt => check_isa_halt(res, &t.mem, sc.limit),
        End::Fault(f) if !o.self_modifying => match isa_call(&t.mem) {
            Err(p) => res.bad("isa-panic", p),
            Ok(Ok(_)) => res.bad("isa-accepts", format!("ISA simulator succeeds in spite of a {f:?} fault at {:#x}", o.m.pc)),
            Ok(Err(_)) => {}
        },
        _ => {}
    }
    let hs = execute(&[t.mem.clone()], &sc.insts, &sc.ops, sc.limit, false);
    count(res, &hs);
    let mut p = Pipe::new(&t.mem);
    while !p.done && p.cycle < sc.limit {
        p.step();
    }
    let exact = match t.out.end {
        End::Fault(_) | End::Halt => !t.out.self_modifying,
        _ => false,
    };
    res.nontrivial = matches!(t.out.end, End::Fault(_)) && t.out.trace.len() > 3;
    res.add(&format!("machine_{:?}", t.out.end).to_lowercase(), 1);
    for (h, i) in hs.iter().zip(&sc.insts) {
        let a = &i.arch;
        if let Some(p) = &h.panic {
            res.bad("panic", format!("{a}: {p}"));
            continue;
        }
        if !exact {
            continue;
        }
        let last = t.out.trace.last().unwrap();
        let what = format!("{:?} at instruction {} ({:#x})", t.out.end, t.out.trace.len(), last.pc);
        if !h.terminated {
            if p.cycle + 64 < sc.limit {
                res.bad("no-stop", format!("{a}: still running after {} cycles; {what}", sc.limit));
            }
            continue;
        }
        // cycles may only be lost to hazards: the timing model bounds them
        if h.cycle_count > t.pipe_cycles + 16 {
            res.bad("late-stop", format!("{a}: stops after {} cycles; {what}", h.cycle_count));
        }
        let skip: Vec<u8> = match t.out.end {
            End::Fault(isa::Fault::Data) => [last.dst_e(), last.dst_m()].into_iter().filter(|r| *r != RNONE).collect(),
            _ => vec![],
        };
        if let Some(d) = reg_diff(&h.regs, &t.out.m.regs, &skip) {
            res.bad("fault-regs", format!("{a}: {d}; {what}"));
        }
        if h.mem != t.final_mem {
            res.bad("fault-memory", format!("{a}: final memory differs; {what}"));
        }
        if let Some(cc) = h.cc {
            let m = t.out.m.cc;
            if cc != (m.sf, m.of, m.zf) {
                res.bad("fault-cc", format!("{a}: condition codes (sf, of, zf) {cc:?}, expected {m:?}; {what}"));
            }
        }
        if a != "pipe_std" && h.pc != last.pc {
            res.bad("fault-pc", format!("{a}: stops at {:#x}; {what}", h.pc));
        }
    }
}

fn check_isolated(sc: &ArchSc, ts: &[Truth], res: &mut RunResult) {
    let mems: Vec<_> = ts.iter().map(|t| t.mem.clone()).collect();
    let mut gold = vec![];
    for i in &sc.insts {
        let mut i = i.clone();
        i.thread = 0;
        i.entropy = 0;
        i.step_api = false;
        match execute_forked(&mems, &[i], &[], sc.limit, true) {
            Ok(mut h) => gold.push(h.remove(0)),
            Err(e) => return res.bad("hang", e),
        }
    }
    // alone, and looked at only once
    for i in 0..sc.insts.len() {
        let v: Vec<u64> = sc.probes.iter().filter(|p| p.0 == i).map(|p| p.1 % (gold[i].cycles.len() as u64).max(1) + 1).collect();
        if v.is_empty() {
            continue;
        }
        let insts: Vec<_> = v
            .iter()
            .map(|c| Instance { thread: 0, entropy: 0, step_api: false, watch: Some(vec![*c]), ..sc.insts[i].clone() })
            .collect();
        let (a, g) = (&sc.insts[i].arch, &gold[i]);
        match execute_forked(&mems, &insts, &[], sc.limit, true) {
            Err(e) => return res.bad("hang", e),
            Ok(hs) => {
                for (h, c) in hs.iter().zip(&v) {
                    if h.panic.is_some() || g.panic.is_some() {
                        continue;
                    }
                    let k = *c as usize - 1;
                    if h.cycles.get(k) != g.cycles.get(k) {
                        res.bad("looked-at", format!("instance {i} ({a}): what it shows at cycle {c} depends on whether it was inspected before"));
                    } else if (h.terminated, h.cycle_count, h.regs, h.mem) != (g.terminated, g.cycle_count, g.regs, g.mem) {
                        res.bad("looked-at", format!("instance {i} ({a}): its end depends on whether it is inspected on the way"));
                    }
                }
            }
        }
    }
    let hs = execute(&mems, &sc.insts, &sc.ops, sc.limit, true);
    count(res, &hs);
    res.nontrivial = sc.insts.len() > 1 && sc.ops.len() > 4;
    res.add("instances", sc.insts.len() as u64);
    res.add("dropped_in_mid_run", hs.iter().filter(|h| h.dropped).count() as u64);
    for (k, (h, g)) in hs.iter().zip(&gold).enumerate() {
        let a = &sc.insts[k].arch;
        if let Some(e) = &h.inspect_broke {
            res.bad("inspect", format!("instance {k} ({a}): inspecting it changed its state {e}"));
        }
        if h.panic != g.panic {
            res.bad("panic", format!("instance {k} ({a}): {:?}, alone {:?}", h.panic, g.panic));
            continue;
        }
        if let Some(c) = (0..h.cycles.len()).find(|c| g.cycles.get(*c) != Some(&h.cycles[*c])) {
            res.bad("history", format!("instance {k} ({a}): differs from the same simulator run alone at cycle {}", c + 1));
        } else if !h.dropped && (h.terminated, h.cycle_count, h.regs, h.mem) != (g.terminated, g.cycle_count, g.regs, g.mem) {
            res.bad("final", format!("instance {k} ({a}): ends differently from the same simulator run alone"));
        }
    }
}

// ---------------------------------------------------------------- shrinking

/// Smaller variants of a program.
pub fn shrink_prog(p: &Prog) -> Vec<Prog> {
    let mut v = vec![];
    let n = p.lines.len();
    if p.style != 0 {
        v.push(Prog { style: 0, ..p.clone() });
    }
    let mut k = n / 2;
    while k >= 1 {
        let mut a = 0;
        while a < n {
            let mut q = p.clone();
            q.lines.drain(a..(a + k).min(n));
            v.push(q);
            a += k;
        }
        k /= 2;
    }
    for i in 0..n {
        let l = &p.lines[i];
        if l.comment.is_some() {
            let mut q = p.clone();
            q.lines[i].comment = None;
            v.push(q);
        }
        if let Item::Inst(x) = &l.item {
            if *x != Inst::Nop {
                let mut q = p.clone();
                q.lines[i].item = Item::Inst(Inst::Nop);
                v.push(q);
            }
            if let Inst::Irmov(Val::Num(m), r) = x {
                for s in [0, 1, *m & 0xff] {
                    if s < *m {
                        let mut q = p.clone();
                        q.lines[i].item = Item::Inst(Inst::Irmov(Val::Num(s), *r));
                        v.push(q);
                    }
                }
            }
        }
    }
    v
}

pub fn shrink(sc: &ArchSc) -> Vec<ArchSc> {
    let mut v = vec![];
    for i in 0..sc.insts.len() {
        if sc.insts.len() > 1 {
            let mut s = sc.clone();
            s.insts.remove(i);
            s.probes.retain(|p| p.0 != i);
            for p in &mut s.probes {
                p.0 -= (p.0 > i) as usize;
            }
            s.ops = s
                .ops
                .iter()
                .filter_map(|o| {
                    let f = |j: usize| if j == i { None } else { Some(j - (j > i) as usize) };
                    Some(match *o {
                        Op::Create(j) => Op::Create(f(j)?),
                        Op::Step(j, n) => Op::Step(f(j)?, n),
                        Op::Inspect(j) => Op::Inspect(f(j)?),
                        Op::Drop(j) => Op::Drop(f(j)?),
                        Op::Crowd(j, n) => Op::Crowd(f(j)?, n),
                    })
                })
                .collect();
            v.push(s);
        }
        let x = &sc.insts[i];
        if x.order.is_some() && sc.prop != "C02" {
            let mut s = sc.clone();
            s.insts[i].order = None;
            v.push(s);
        }
        if x.thread != 0 {
            let mut s = sc.clone();
            s.insts[i].thread = 0;
            v.push(s);
        }
    }
    let n = sc.ops.len();
    let mut k = n;
    while k >= 1 {
        let mut a = 0;
        while a < n {
            let mut s = sc.clone();
            s.ops.drain(a..(a + k).min(n));
            v.push(s);
            a += k;
        }
        k /= 2;
    }
    for i in 0..sc.srcs.len() {
        match &sc.srcs[i] {
            Src::Asm(p) => {
                for q in shrink_prog(p) {
                    let mut s = sc.clone();
                    s.srcs[i] = Src::Asm(q);
                    v.push(s);
                }
            }
            Src::Raw(parts) => {
                for k in 0..parts.len() {
                    let mut s = sc.clone();
                    if let Src::Raw(p) = &mut s.srcs[i] {
                        p.remove(k);
                    }
                    v.push(s);
                    let n = parts[k].1.len();
                    if n > 2 {
                        let mut s = sc.clone();
                        if let Src::Raw(p) = &mut s.srcs[i] {
                            p[k].1.truncate(n / 4 * 2);
                        }
                        v.push(s);
                        let mut s = sc.clone();
                        if let Src::Raw(p) = &mut s.srcs[i] {
                            p[k].1.truncate(n - 2);
                        }
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}
