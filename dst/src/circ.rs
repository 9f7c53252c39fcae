//! Circuits of a user's own: random HCL descriptions that are built into the
//! simulator library (see `hcl`), stepped under chosen evaluation orders and
//! entropy, and compared cycle by cycle with what their text means.  Also the
//! framework's dependency graph by itself.
use crate::arch::{on_big_stack, set_entropy};
use crate::common::*;
use crate::hcl::{self, Circuit, Ex, Item, Ref, Src, Ty, V};
use crate::prng::{mix, Rng};
use crate::prog::{zero_mem, MEM};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use y86_sim::framework::{CpuSim, MemData, PropOrderBuilder};

#[cfg(y86_dst_circuits)]
use y86_sim::architectures::dst_circuits;

#[cfg(not(y86_dst_circuits))]
mod dst_circuits {
    use super::*;
    pub const COUNT: u64 = 0;
    pub fn create(_: u64, _: MemData) -> Box<dyn CpuSim> {
        unreachable!()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    pub circuit: u64,
    pub mem: usize,
    pub order: Option<u64>,
    pub step_api: bool,
    pub cycles: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Graph {
    /// (inputs, outputs) of each unit; unit k is `uk`, its ports `uk.ij`, `uk.oj`.
    pub units: Vec<(usize, usize)>,
    /// Names of the signals.
    pub sigs: Vec<usize>,
    pub edges: Vec<(String, String)>,
    /// Which entropies to build it with.
    pub entropy: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CircSc {
    Run { entropy: u64, mems: Vec<Vec<(u64, String)>>, insts: Vec<Inst>, ops: Vec<(usize, u32)> },
    Graph(Graph),
}

// ---------------------------------------------------------------- model

struct Model {
    c: Circuit,
    mem: Box<[u8; MEM]>,
    /// Bytes of which the description does not say what they are.
    open: std::collections::BTreeSet<u64>,
    mem_open: bool,
    regs: [V; 16],
    cc: V,
    cur: Vec<Vec<V>>,
    sig: Vec<V>,
    port: Vec<Vec<V>>,
    terminated: bool,
    cycle: u64,
    /// From here on the description does not say what happens.
    void: Option<&'static str>,
    /// A panic is allowed in this cycle.
    loose: bool,
    imem_first: Option<bool>,
    written: Option<u64>,
    read_first: Option<bool>,
    probes: Vec<&'static str>,
}

fn first(c: &Circuit, a: &str, b: &str) -> Option<bool> {
    let (a, b) = (Item::Unit(c.unit(a)?), Item::Unit(c.unit(b)?));
    if c.behind(b).contains(&a) {
        Some(true)
    } else if c.behind(a).contains(&b) {
        Some(false)
    } else {
        None
    }
}

fn b(x: bool) -> V {
    V::N(x as u64)
}

fn word(m: &[u8; MEM], a: u64) -> u64 {
    u64::from_le_bytes(m[a as usize..a as usize + 8].try_into().unwrap())
}

fn inst_len(icode: u8) -> u64 {
    match icode {
        2 | 6 | 10 | 11 => 2,
        7 | 8 => 9,
        3..=5 => 10,
        _ => 1,
    }
}

impl Model {
    fn new(c: Circuit, mem: Box<[u8; MEM]>) -> Self {
        let cur = c.stages.iter().map(|s| s.fields.iter().map(|f| f.default.clone()).collect()).collect();
        let sig = vec![V::X; c.sigs.len()];
        let port = c.units.iter().map(|u| vec![V::X; u.outs.len()]).collect();
        let imem_first = first(&c, "imem", "dmem");
        let read_first = first(&c, "reg_read", "reg_write");
        Model {
            c,
            mem,
            open: Default::default(),
            mem_open: false,
            regs: std::array::from_fn(|_| V::N(0)),
            cc: V::C(false, false, false),
            cur,
            sig,
            port,
            terminated: false,
            cycle: 0,
            void: None,
            loose: false,
            imem_first,
            written: None,
            read_first,
            probes: vec![],
        }
    }

    fn get(&self, r: &Ref) -> V {
        match r {
            Ref::Sig(k) => self.sig[*k].clone(),
            Ref::Port(u, p) => self.port[*u][*p].clone(),
            Ref::Reg(s, f) => self.cur[*s][*f].clone(),
            Ref::Const(_, v) => V::N(*v),
        }
    }

    fn ex(&self, e: &Ex) -> V {
        match e {
            Ex::Ref(r) => self.get(r),
            Ex::Flag(r, f) => match self.get(r) {
                V::C(s, o, z) => b([s, o, z][*f]),
                _ => V::X,
            },
            Ex::CcInit => V::C(false, false, false),
            Ex::Int(v, _) => V::N(*v),
            Ex::Bool(x) => b(*x),
            Ex::Not(a) => match self.ex(a) {
                V::N(x) => b(x == 0),
                _ => V::X,
            },
            Ex::Eq(a, c) => match (self.ex(a), self.ex(c)) {
                (V::N(x), V::N(y)) => b(x == y),
                _ => V::X,
            },
            Ex::Ne(a, c) => match (self.ex(a), self.ex(c)) {
                (V::N(x), V::N(y)) => b(x != y),
                _ => V::X,
            },
            Ex::In(a, v) => {
                let a = self.ex(a);
                if a == V::X {
                    return V::X;
                }
                let v: Vec<V> = v.iter().map(|x| self.ex(x)).collect();
                if v.contains(&a) {
                    b(true)
                } else if v.contains(&V::X) {
                    V::X
                } else {
                    b(false)
                }
            }
            Ex::And(x, y) => match (self.ex(x), self.ex(y)) {
                (V::N(0), _) | (_, V::N(0)) => b(false),
                (V::N(_), V::N(_)) => b(true),
                _ => V::X,
            },
            Ex::Or(x, y) => match (self.ex(x), self.ex(y)) {
                (V::N(0), V::N(0)) => b(false),
                (V::N(n), _) if n != 0 => b(true),
                (_, V::N(n)) if n != 0 => b(true),
                _ => V::X,
            },
            Ex::Paren(a) => self.ex(a),
        }
    }

    fn src(&self, s: &Src) -> V {
        match s {
            Src::Expr(e) => self.ex(e),
            Src::Cases(cs) => {
                for (c, v) in cs {
                    match self.ex(c) {
                        V::N(0) => {}
                        V::N(_) => return self.ex(v),
                        _ => return V::X,
                    }
                }
                V::X
            }
        }
    }

    fn known(&self, a: u64, n: u64) -> bool {
        !self.mem_open && self.open.range(a..a + n).next().is_none()
    }

    fn clash(&mut self, why: &'static str) {
        self.void.get_or_insert(why);
    }

    fn unit(&mut self, u: usize) {
        let i: Vec<V> = self.c.inputs[u].iter().map(|s| s.map_or(V::X, |s| self.sig[s].clone())).collect();
        let n = |k: usize| match &i[k] {
            V::N(x) => Some(*x),
            _ => None,
        };
        let out = match self.c.units[u].name {
            "imem" => match n(0) {
                None => vec![V::X; 4],
                Some(pc) if pc >= MEM as u64 => {
                    self.probes.push("fetch outside the memory");
                    vec![b(true), V::X, V::X, V::X]
                }
                Some(pc) if !self.known(pc, 10) => {
                    self.loose = true;
                    vec![V::X; 4]
                }
                Some(pc) => {
                    let x = self.mem[pc as usize];
                    let left = MEM as u64 - pc;
                    if left < inst_len(x >> 4) {
                        self.probes.push("fetch across the end of the memory");
                        vec![b(true), V::X, V::X, V::X]
                    } else if x >> 4 == 0xc && left < 10 {
                        vec![V::X; 4]
                    } else {
                        let a = if left < 10 {
                            V::X
                        } else {
                            V::A(self.mem[pc as usize + 1..pc as usize + 10].try_into().unwrap())
                        };
                        vec![b(false), V::N(x as u64 >> 4), V::N(x as u64 & 15), a]
                    }
                }
            },
            "ialign" => match (n(0), &i[1]) {
                (Some(0), V::A(a)) => {
                    vec![V::N(15), V::N(15), V::N(u64::from_le_bytes(a[..8].try_into().unwrap()))]
                }
                (Some(_), V::A(a)) => vec![
                    V::N(a[0] as u64 >> 4),
                    V::N(a[0] as u64 & 15),
                    V::N(u64::from_le_bytes(a[1..].try_into().unwrap())),
                ],
                (Some(0), _) => vec![V::N(15), V::N(15), V::X],
                _ => vec![V::X; 3],
            },
            "pc_inc" => match (n(0), n(1), n(2)) {
                (Some(c), Some(r), Some(p)) => {
                    vec![V::N(p.wrapping_add(1 + 8 * (c != 0) as u64 + (r != 0) as u64))]
                }
                _ => vec![V::X],
            },
            "reg_file" => {
                self.write_regs(n(2), n(3), &i[4], &i[5]);
                vec![self.read_reg(n(0)), self.read_reg(n(1))]
            }
            "reg_read" => vec![self.read_reg(n(0)), self.read_reg(n(1))],
            "reg_write" => {
                self.write_regs(n(0), n(1), &i[2], &i[3]);
                vec![]
            }
            "alu" => match (n(0), n(1), n(2)) {
                (Some(a), Some(c), Some(0)) => vec![V::N(c.wrapping_add(a))],
                (Some(a), Some(c), Some(1)) => vec![V::N(c.wrapping_sub(a))],
                (Some(a), Some(c), Some(2)) => vec![V::N(c & a)],
                (Some(a), Some(c), Some(3)) => vec![V::N(c ^ a)],
                _ => vec![V::X],
            },
            "reg_cc" => {
                match (n(0), n(1), n(2), n(3), n(4)) {
                    (Some(0), ..) => {}
                    (Some(_), Some(x), Some(y), Some(e), Some(f)) if f < 4 => {
                        let neg = |v: u64| v >> 63 != 0;
                        let of = match f {
                            0 => neg(x) == neg(y) && neg(x) != neg(e),
                            1 => neg(x) != neg(y) && neg(y) != neg(e),
                            _ => false,
                        };
                        self.cc = V::C(neg(e), of, e == 0);
                        self.probes.push("condition codes set");
                    }
                    _ => {
                        self.probes.push("condition codes left open");
                        self.loose = true;
                        self.cc = V::X;
                    }
                }
                vec![self.cc.clone()]
            }
            "cond" => match (n(0), &i[1]) {
                (Some(0), _) => vec![b(true)],
                (Some(f), V::C(s, o, z)) if f < 7 => {
                    vec![b(match f {
                        1 => *z || s != o,
                        2 => s != o,
                        3 => *z,
                        4 => !*z,
                        5 => s == o,
                        _ => !*z && s == o,
                    })]
                }
                _ => vec![V::X],
            },
            "dmem" => {
                let (addr, read, write) = (n(0), n(2), n(3));
                let bad = addr.map(|a| a > MEM as u64 - 8);
                let data = match (addr, read, write) {
                    (_, Some(0), _) => V::N(0),
                    (Some(a), Some(_), Some(0)) if bad == Some(false) && self.known(a, 8) => {
                        self.probes.push("data read");
                        V::N(word(&self.mem, a))
                    }
                    _ => V::X,
                };
                match (write, bad) {
                    (Some(0), _) => {}
                    (Some(_), Some(true)) => self.probes.push("write outside the memory"),
                    (Some(_), Some(false)) => {
                        let a = addr.unwrap();
                        match n(1) {
                            Some(v) => {
                                self.mem[a as usize..a as usize + 8].copy_from_slice(&v.to_le_bytes());
                                (a..a + 8).for_each(|x| {
                                    self.open.remove(&x);
                                });
                                self.probes.push("data written");
                            }
                            None => {
                                self.probes.push("memory left open");
                                self.open.extend(a..a + 8);
                            }
                        }
                        self.written = Some(a);
                    }
                    _ => {
                        self.probes.push("whole memory left open");
                        self.mem_open = true;
                    }
                }
                vec![data, bad.map_or(V::X, b)]
            }
            _ => unreachable!(),
        };
        self.port[u] = out;
    }

    fn read_reg(&self, r: Option<u64>) -> V {
        match r {
            Some(15) => V::N(0),
            Some(r) => self.regs[r as usize].clone(),
            None => V::X,
        }
    }

    fn write_regs(&mut self, e: Option<u64>, m: Option<u64>, ve: &V, vm: &V) {
        let (Some(e), Some(m)) = (e, m) else {
            self.probes.push("registers left open");
            self.loose = true;
            self.regs = std::array::from_fn(|_| V::X);
            return;
        };
        for (d, v) in [(e, ve), (m, vm)] {
            if d != 15 {
                self.regs[d as usize] = v.clone();
                self.probes.push("register written");
            }
        }
        if e == m && e != 15 {
            self.probes.push("both ports write one register");
        }
    }

    fn cycle(&mut self) {
        self.cycle += 1;
        self.written = None;
        self.loose = false;
        for k in 0..self.c.order.len() {
            match self.c.order[k] {
                Item::Sig(s) => self.sig[s] = self.src(&self.c.sigs[s].src),
                Item::Unit(u) => self.unit(u),
            }
        }
        if let (None, Some(rr), Some(rw)) = (self.read_first, self.c.unit("reg_read"), self.c.unit("reg_write")) {
            let v = |u: usize, p: usize| self.c.inputs[u][p].map(|s| self.sig[s].clone());
            let src = [v(rr, 0), v(rr, 1)];
            if [v(rw, 0), v(rw, 1)].iter().any(|d| *d == Some(V::X) || *d != Some(V::N(15)) && src.contains(d)) {
                self.clash("a register read and written, in no order");
            }
        }
        if self.imem_first.is_none() && self.mem_open {
            self.clash("fetch and write in no order");
        } else if let (None, Some(a)) = (self.imem_first, self.written) {
            let im = self.c.unit("imem").unwrap();
            match self.c.inputs[im][0].map(|s| &self.sig[s]) {
                Some(V::N(pc)) if *pc >= a + 8 || a >= pc.saturating_add(10) => {}
                _ => self.clash("fetch and write of one byte, in no order"),
            }
        }
        match self.sig[self.c.term] {
            V::N(0) => {}
            V::N(_) => self.terminated = true,
            _ => self.clash("termination is not specified"),
        }
    }

    fn latch(&mut self) {
        let mut next = self.cur.clone();
        for (k, s) in self.c.stages.iter().enumerate() {
            let v = |x: Option<usize>| x.map_or(V::N(0), |x| self.sig[x].clone());
            let (stall, bubble) = (v(s.stall), v(s.bubble));
            if stall == V::X || bubble == V::X {
                self.probes.push("pipeline registers left open");
                next[k].iter_mut().for_each(|f| *f = V::X);
            } else if bubble != V::N(0) {
                self.probes.push("bubble");
                next[k] = s.fields.iter().map(|f| f.default.clone()).collect();
            } else if stall == V::N(0) {
                next[k] = s
                    .fields
                    .iter()
                    .map(|f| f.src.map_or(f.default.clone(), |x| self.sig[x].clone()))
                    .collect();
            } else {
                self.probes.push("stall");
            }
        }
        self.cur = next;
    }
}

// ---------------------------------------------------------------- observing

fn shown(ty: Ty, v: &V) -> Option<String> {
    Some(match (ty, v) {
        (_, V::X) => return None,
        (Ty::Bool, V::N(x)) => (*x != 0).to_string(),
        (Ty::Stat, V::N(x)) => ["Aok", "Bub", "Hlt", "Adr", "Ins"][*x as usize].to_string(),
        (Ty::U8 | Ty::U64, V::N(x)) => format!("{x:#x}"),
        (_, V::C(s, o, z)) => format!("ConditionCode {{ sf: {s}, of: {o}, zf: {z} }}"),
        (_, V::A(a)) => format!("{a:x?}"),
        _ => return Some(format!("(internal) {ty:?} {v:?}")),
    })
}

/// What the simulator shows and the model disagree on, if anything.
fn compare(m: &Model, sim: &dyn CpuSim, mem: &MemData) -> Option<(&'static str, String)> {
    let info = sim.get_stage_info();
    let want = if m.c.sections.is_empty() { vec!["(default)".to_string()] } else { m.c.sections.clone() };
    let got: Vec<&str> = info.iter().map(|s| s.name).collect();
    if got != want {
        return Some(("sections", format!("sections shown are {got:?}, expected {want:?}")));
    }
    let mut n = 0;
    for (k, s) in info.iter().enumerate() {
        for (name, v) in &s.signals {
            n += 1;
            let Some(j) = m.c.sigs.iter().position(|x| x.name == *name) else {
                return Some(("signals", format!("unknown signal {name} shown")));
            };
            let sig = &m.c.sigs[j];
            if sig.section.unwrap_or(0) != k {
                return Some(("sections", format!("{name} is shown in section {k}, but stands in {:?}", sig.section)));
            }
            if let Some(w) = shown(sig.ty, &m.sig[j]) {
                if w != *v {
                    return Some(("signal", format!("signal {name} is {v}, but its description gives {w}")));
                }
            }
        }
    }
    if n != m.c.sigs.len() {
        return Some(("signals", format!("{n} signals shown of {}", m.c.sigs.len())));
    }
    if let V::N(pc) = m.sig[m.c.pc] {
        if sim.program_counter() != pc {
            return Some(("pc", format!("program counter is {:#x}, its signal gives {pc:#x}", sim.program_counter())));
        }
    }
    for (r, (v, w)) in sim.registers().iter().zip(&m.regs).enumerate().take(15) {
        if *w != V::X && *w != V::N(*v) {
            return Some(("registers", format!("register {r} is {v:#x}, expected {w:x?}")));
        }
    }
    if sim.is_terminate() != m.terminated {
        return Some(("termination", format!("terminated is {}, its signal gives {}", sim.is_terminate(), m.terminated)));
    }
    if sim.cycle_count() != m.cycle {
        return Some(("count", format!("{} cycles counted of {}", sim.cycle_count(), m.cycle)));
    }
    let mem = mem.read();
    if !m.mem_open && mem[..] != m.mem[..] {
        let at = (0..MEM).find(|k| mem[*k] != m.mem[*k] && !m.open.contains(&(*k as u64)));
        let at = at?;
        return Some(("memory", format!("byte {at:#x} is {:02x}, expected {:02x}", mem[at], m.mem[at])));
    }
    None
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

// ---------------------------------------------------------------- runs

fn code(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < n {
        let icode = if r.pct(90) { r.below(12) } else { r.below(16) } as u8;
        let ifun = if matches!(icode, 2 | 6 | 7) || r.pct(5) { r.below(7) } else { 0 } as u8;
        v.push(icode << 4 | ifun);
        if matches!(icode, 2..=6 | 10 | 11) {
            v.push(r.next() as u8);
        }
        if matches!(icode, 3..=5 | 7 | 8) {
            let x: u64 = match r.below(10) {
                0 => r.next(),
                1 => 0u64.wrapping_sub(8 * r.below(4)),
                2 => 0x1_0000 - 12 + r.below(24),
                3..=6 => r.below(0x300) & !7,
                _ => r.below(0x300),
            };
            v.extend(x.to_le_bytes());
        }
    }
    v.truncate(n);
    v
}

pub fn generate(seed: u64) -> CircSc {
    let r = &mut Rng::new(seed);
    if r.pct(25) {
        return CircSc::Graph(graph(r));
    }
    let n = dst_circuits::COUNT.max(1);
    let mut mems = vec![];
    for _ in 0..1 + r.idx(2) {
        let mut parts = vec![];
        let len = 100 + r.idx(900);
        parts.push((0, hex(&code(r, len))));
        for _ in 0..r.below(4) {
            let a = r.below(MEM as u64 - 64);
            parts.push((a, hex(&code(r, 60))));
        }
        if r.pct(60) {
            let k = 1 + r.idx(40);
            parts.push((MEM as u64 - k as u64, hex(&code(r, k))));
        }
        mems.push(parts);
    }
    let k = 1 + r.idx(4);
    let one = r.below(n);
    let same = r.pct(40);
    let long = if r.pct(20) { 300 } else { 60 };
    let insts: Vec<Inst> = (0..k)
        .map(|_| Inst {
            circuit: if same { one } else { r.below(n) },
            mem: r.idx(mems.len()),
            order: r.pct(60).then(|| r.next()),
            step_api: r.pct(40),
            cycles: 5 + r.below(long) * scale(r).min(5),
        })
        .collect();
    let ops = (0..r.below(12))
        .map(|_| {
            let i = r.idx(k);
            (i, 1 + r.below(20) as u32)
        })
        .collect();
    CircSc::Run { entropy: r.next(), mems, insts, ops }
}

pub fn run(sc: &CircSc) -> RunResult {
    let sc = sc.clone();
    on_big_stack(move || match &sc {
        CircSc::Run { entropy, mems, insts, ops } => run_circuits(*entropy, mems, insts, ops),
        CircSc::Graph(g) => run_graph(g),
    })
}

fn run_circuits(entropy: u64, mems: &[Vec<(u64, String)>], insts: &[Inst], ops: &[(usize, u32)]) -> RunResult {
    let mut res = RunResult::default();
    if dst_circuits::COUNT == 0 {
        let log = std::fs::read_to_string("target/circuits.log").unwrap_or_default();
        let l: Vec<&str> = log.lines().filter(|l| l.starts_with("error")).take(3).collect();
        res.bad("refused", format!("descriptions that the manual allows do not compile: {}", l.join("; ")));
        return res;
    }
    set_entropy(entropy);
    struct Live {
        sim: Box<dyn CpuSim>,
        mem: MemData,
        m: Model,
        first: bool,
    }
    let mut live: Vec<Option<Live>> = vec![];
    let mut sig = vec![];
    for i in insts {
        let c = hcl::circuit(i.circuit);
        let mut image = zero_mem();
        for (a, h) in &mems[i.mem] {
            for (k, x) in unhex(h).into_iter().enumerate() {
                if let Some(y) = image.get_mut(*a as usize + k) {
                    *y = x;
                }
            }
        }
        let mem = MemData::init(*image);
        let r = catch_unwind(AssertUnwindSafe(|| {
            y86_sim::framework::dst::set_order_seed(i.order);
            dst_circuits::create(i.circuit, mem.clone())
        }));
        sig.push(mix(&[i.circuit, i.order.unwrap_or(0)]));
        match (r, c.bad.clone()) {
            (Ok(_), Some(why)) => {
                res.bad("accepted", format!("circuit {} is built although {why}", i.circuit));
                live.push(None);
            }
            (Err(e), None) => {
                res.bad("rejected", format!("circuit {} is not built: {}", i.circuit, msg(e)));
                live.push(None);
            }
            (Err(_), Some(_)) => {
                res.add("circuits_rejected", 1);
                live.push(None);
            }
            (Ok(sim), None) => {
                res.add("circuits_built", 1);
                live.push(Some(Live { sim, mem, m: Model::new(c, image), first: true }));
            }
        }
    }
    let mut total = 0;
    let (mut reordered, mut compared, mut left_open) = (0, 0, 0);
    let all: Vec<(usize, u32)> = ops.iter().copied().chain((0..insts.len()).map(|i| (i, u32::MAX))).collect();
    for (i, n) in all {
        let Some(l) = live.get_mut(i).and_then(|l| l.as_mut()) else { continue };
        for _ in 0..n {
            if l.m.cycle >= insts[i].cycles || l.m.terminated || l.m.void.is_some() {
                break;
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                if insts[i].step_api {
                    l.sim.step();
                } else {
                    if !l.first {
                        l.sim.initiate_next_cycle();
                    }
                    l.sim.propagate_signals();
                }
            }));
            l.first = false;
            if l.m.cycle > 0 {
                l.m.latch();
            }
            if l.m.void.is_some() {
                break;
            }
            l.m.cycle();
            if let Err(e) = r {
                if l.m.void.is_none() && !l.m.loose {
                    res.bad("panic", format!("circuit {} in cycle {}: {}", insts[i].circuit, l.m.cycle, msg(e)));
                }
                live[i] = None;
                break;
            }
            if l.m.void.is_some() {
                break;
            }
            total += 1;
            reordered += insts[i].order.is_some() as u64;
            compared += l.m.sig.iter().filter(|v| **v != V::X).count() as u64;
            left_open += l.m.sig.iter().filter(|v| **v == V::X).count() as u64;
            sig.push(mix(&l.m.sig.iter().map(|v| if let V::N(x) = v { *x } else { 77 }).collect::<Vec<_>>()));
            let r = catch_unwind(AssertUnwindSafe(|| compare(&l.m, &*l.sim, &l.mem)));
            let r = r.unwrap_or_else(|e| Some(("panic", format!("inspecting it: {}", msg(e)))));
            if let Some((class, d)) = r {
                res.bad(
                    class,
                    format!("circuit {} (module c{} of target/circuits.rs), cycle {}, evaluation order {:?}: {d}", insts[i].circuit, insts[i].circuit, l.m.cycle, insts[i].order),
                );
                live[i] = None;
                break;
            }
        }
    }
    for l in live.into_iter().flatten() {
        for p in &l.m.probes {
            let k = p.replace(' ', "_");
            let fault = k.contains("outside") || k.contains("across");
            res.add(&format!("{}{k}", if fault { "fault_" } else { "probe_" }), 1);
        }
        if l.m.terminated {
            res.add("probe_terminated", 1);
        }
        if let Some(w) = l.m.void {
            res.add(&format!("left_open_{}", w.replace(' ', "_").replace(',', "")), 1);
        }
    }
    res.add("simulated_cycles", total);
    res.add("signal_values_compared", compared);
    res.add("signal_values_left_open", left_open);
    res.add("cycles_in_another_order", reordered);
    res.signature = mix(&sig);
    res.nontrivial = total > 10 && reordered > 0;
    res.sample = format!("circuits {:?}, {total} cycles compared", insts.iter().map(|i| i.circuit).collect::<Vec<_>>());
    res
}

// ---------------------------------------------------------------- graphs

const NAMES: [&str; 60] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "z0", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "p", "q", "r", "s", "t",
    "u", "v", "w", "pc", "icode", "ifun", "valA", "valB", "valC", "valE", "valM", "dstE", "dstM", "srcA", "srcB",
    "cnd", "stat", "f_pc", "f_icode", "d_valA", "d_valB", "e_valE", "e_dstE", "m_valM", "w_dstE", "A", "B", "C", "D",
    "E", "F", "M", "W", "X", "Y", "u_", "u0x", "_u1", "u2_i0",
];
const UNITS: [&str; 10] = ["u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "u9"];
const INS: [&str; 4] = ["i0", "i1", "i2", "i3"];
const OUTS: [&str; 4] = ["o0", "o1", "o2", "o3"];

fn graph(r: &mut Rng) -> Graph {
    let nu = r.idx(9);
    let units: Vec<(usize, usize)> = (0..nu)
        .map(|_| {
            let (i, o) = (r.idx(5), r.idx(4));
            (i, if i == 0 { o.max(1) } else { o })
        })
        .collect();
    let mut sigs: Vec<usize> = (0..NAMES.len()).collect();
    r.shuffle(&mut sigs);
    let most = if r.pct(20) { 60 } else { 25 };
    sigs.truncate(1 + r.idx(most));
    // an order that exists, unless edges against it are added
    let mut items: Vec<(bool, usize)> =
        (0..nu).map(|u| (true, u)).chain(sigs.iter().map(|s| (false, *s))).collect();
    r.shuffle(&mut items);
    let mut edges = vec![];
    let dense = 1 + r.below(4);
    for (k, (is_unit, x)) in items.iter().enumerate() {
        let before: Vec<String> = items[..k]
            .iter()
            .flat_map(|(u, y)| {
                if *u {
                    (0..units[*y].1).map(|o| format!("{}.{}", UNITS[*y], OUTS[o])).collect()
                } else {
                    vec![NAMES[*y].to_string()]
                }
            })
            .collect();
        if *is_unit {
            let sources: Vec<&String> = before.iter().filter(|b| !b.contains('.')).collect();
            for i in 0..units[*x].0 {
                // `hcl!` connects signals to units
                if !sources.is_empty() && !r.pct(1) {
                    edges.push((r.pick(&sources).to_string(), format!("{}.{}", UNITS[*x], INS[i])));
                }
            }
        } else if !before.is_empty() {
            for _ in 0..r.below(dense + 1) {
                edges.push((r.pick(&before).clone(), NAMES[*x].to_string()));
            }
        }
    }
    if r.pct(30) {
        // one against the order
        let sigs: Vec<String> = sigs.iter().map(|s| NAMES[*s].to_string()).collect();
        edges.push((r.pick(&sigs).clone(), r.pick(&sigs).clone()));
    }
    r.shuffle(&mut edges);
    if r.pct(30) && !edges.is_empty() {
        for _ in 0..3 {
            let e = r.pick(&edges).clone();
            edges.push(e);
        }
    }
    Graph { units, sigs, edges, entropy: vec![r.next(), r.next(), r.next()] }
}

fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn run_graph(g: &Graph) -> RunResult {
    let mut res = RunResult::default();
    // all nodes and what they need
    let mut need: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    for (u, (i, o)) in g.units.iter().enumerate() {
        let v = need.entry(UNITS[u].into()).or_default();
        v.extend((0..*i).map(|k| format!("{}.{}", UNITS[u], INS[k])));
        for k in 0..*i {
            need.entry(format!("{}.{}", UNITS[u], INS[k])).or_default();
        }
        for k in 0..*o {
            need.entry(format!("{}.{}", UNITS[u], OUTS[k])).or_default().push(UNITS[u].into());
        }
    }
    for s in &g.sigs {
        need.entry(NAMES[*s].into()).or_default();
    }
    for (a, z) in &g.edges {
        if !need.contains_key(a) || !need.contains_key(z) {
            return res; // left over from shrinking
        }
        need.get_mut(z).unwrap().push(a.clone());
    }
    let orphan = g.units.iter().enumerate().any(|(u, (i, _))| {
        (0..*i).any(|k| need[&format!("{}.{}", UNITS[u], INS[k])].is_empty())
    });
    let mut left: Vec<&String> = need.keys().collect();
    loop {
        let n = left.len();
        let now = left.clone();
        left.retain(|x| need[*x].iter().any(|y| now.contains(&y)));
        if left.len() == n {
            break;
        }
    }
    let cyclic = !left.is_empty();
    let mut texts = vec![];
    for e in &g.entropy {
        let g2 = g.clone();
        let e = *e;
        let t = std::thread::spawn(move || {
            set_entropy(e);
            y86_sim::framework::dst::set_order_seed(None);
            let mut b = PropOrderBuilder::new();
            for (u, (i, o)) in g2.units.iter().enumerate() {
                b.add_unit_node(UNITS[u]);
                (0..*i).for_each(|k| b.add_unit_input(UNITS[u], INS[k]));
                (0..*o).for_each(|k| b.add_unit_output(UNITS[u], OUTS[k]));
            }
            for s in &g2.sigs {
                b.add_intermediate(NAMES[*s]);
            }
            for (x, y) in g2.edges {
                b.add_edge(x, y);
            }
            format!("{}", b.build())
        });
        match t.join() {
            Ok(t) => {
                if cyclic || orphan {
                    let why = if cyclic { "has a cycle" } else { "has a unit input that nothing feeds" };
                    res.bad("accepted", format!("a graph that {why} is built"));
                    return res;
                }
                texts.push(plain(&t));
            }
            Err(e) => {
                if !cyclic && !orphan {
                    res.bad("rejected", format!("a graph without cycles is not built: {}", msg(e)));
                    return res;
                }
            }
        }
    }
    let kind = if cyclic { "graphs_with_a_cycle" } else if orphan { "graphs_with_an_orphan" } else { "graphs_in_order" };
    res.add(kind, 1);
    res.signature = mix(&[hash_bytes(format!("{:?}{:?}{:?}", g.units, g.sigs, g.edges).as_bytes())]);
    res.nontrivial = g.edges.len() > 8;
    res.sample = format!("{} units, {} signals, {} edges, {kind}", g.units.len(), g.sigs.len(), g.edges.len());
    let Some(t) = texts.first() else { return res };
    if texts.iter().any(|x| x != t) {
        res.bad("entropy", format!("the order depends on entropy: {t:?} and {:?}", texts.iter().find(|x| *x != t)));
        return res;
    }
    let listed: Vec<&str> = t
        .lines()
        .filter(|l| l.starts_with("lv."))
        .flat_map(|l| l.split_once(':').map_or("", |x| x.1).split_whitespace())
        .collect();
    // a level is one more than the number of units that have to run one after another
    let lv = crate::tool::levels(t);
    let mut level: BTreeMap<&str, u64> = BTreeMap::new();
    let mut todo: Vec<&String> = need.keys().collect();
    while !todo.is_empty() {
        todo.retain(|x| {
            let n: Option<Vec<u64>> = need[*x].iter().map(|y| level.get(y.as_str()).copied()).collect();
            let Some(n) = n else { return true };
            let unit = (0..g.units.len()).any(|u| UNITS[u] == x.as_str());
            level.insert(x, n.into_iter().max().unwrap_or(1) + unit as u64);
            false
        });
    }
    if !lv.windows(2).all(|w| w[0].0 < w[1].0) {
        res.bad("levels", format!("levels are not listed once each, in order: {t:?}"));
        return res;
    }
    for (n, names) in &lv {
        // (where a unit without inputs counts, is nobody's business)
        let odd = g.units.iter().any(|u| u.0 == 0);
        if let Some(x) = names.iter().find(|x| !odd && level.get(**x).is_some_and(|l| l != n)) {
            res.bad("levels", format!("{x} is listed in level {n}, it belongs to {}", level[*x]));
            return res;
        }
    }
    // every unit and signal once, after everything behind it
    for x in need.keys().filter(|x| !x.contains('.')) {
        let n = listed.iter().filter(|y| *y == x).count();
        if n != 1 {
            res.bad("order", format!("{x} is evaluated {n} times in a cycle"));
            return res;
        }
    }
    for (k, x) in listed.iter().enumerate() {
        let Some(n) = need.get(*x) else {
            res.bad("order", format!("{x} is evaluated, but nothing of that name was added"));
            return res;
        };
        let mut behind: Vec<&String> = n.iter().collect();
        let mut j = 0;
        while j < behind.len() {
            if behind[j].contains('.') {
                for y in &need[behind[j]] {
                    if !behind.contains(&y) {
                        behind.push(y);
                    }
                }
            }
            j += 1;
        }
        if let Some(y) = behind.iter().find(|y| !y.contains('.') && !listed[..k].contains(&y.as_str())) {
            res.bad("order", format!("{x} is evaluated before {y}, on which it depends"));
            return res;
        }
    }
    res
}

pub fn shrink(sc: &CircSc) -> Vec<CircSc> {
    let mut v = vec![];
    match sc {
        CircSc::Run { entropy, mems, insts, ops } => {
            let with = |mems: &Vec<Vec<(u64, String)>>, insts: &Vec<Inst>, ops: &Vec<(usize, u32)>| CircSc::Run {
                entropy: *entropy,
                mems: mems.clone(),
                insts: insts.clone(),
                ops: ops.clone(),
            };
            for k in 0..insts.len() {
                if insts.len() > 1 {
                    let mut i = insts.clone();
                    i.remove(k);
                    let o = ops
                        .iter()
                        .filter(|o| o.0 != k)
                        .map(|o| (if o.0 > k { o.0 - 1 } else { o.0 }, o.1))
                        .collect();
                    v.push(with(mems, &i, &o));
                }
            }
            if !ops.is_empty() {
                v.push(with(mems, insts, &vec![]));
            }
            for k in 0..insts.len() {
                for c in [1, insts[k].cycles / 2, insts[k].cycles.saturating_sub(1)] {
                    if c > 0 && c < insts[k].cycles {
                        let mut i = insts.clone();
                        i[k].cycles = c;
                        v.push(with(mems, &i, ops));
                    }
                }
                if insts[k].order.is_some() {
                    let mut i = insts.clone();
                    i[k].order = None;
                    v.push(with(mems, &i, ops));
                }
            }
            for k in 0..mems.len() {
                for p in 0..mems[k].len() {
                    let mut m = mems.clone();
                    let n = m[k][p].1.len();
                    if n > 2 {
                        m[k][p].1.truncate(n / 4 * 2);
                        v.push(with(&m, insts, ops));
                    }
                    let mut m = mems.clone();
                    m[k].remove(p);
                    v.push(with(&m, insts, ops));
                }
            }
        }
        CircSc::Graph(g) => {
            for k in 0..g.edges.len() {
                let mut h = g.clone();
                h.edges.remove(k);
                v.push(CircSc::Graph(h));
            }
            for k in 0..g.sigs.len() {
                let n = NAMES[g.sigs[k]];
                if !g.edges.iter().any(|(a, z)| a == n || z == n) {
                    let mut h = g.clone();
                    h.sigs.remove(k);
                    v.push(CircSc::Graph(h));
                }
            }
        }
    }
    v
}
