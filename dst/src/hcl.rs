//! Random circuits: an abstract form, and its text as an HCL description.
//! Compiled twice: into `hclgen`, which writes the descriptions that are built
//! into the simulator library, and into `dst`, which knows what they mean.
#![allow(dead_code)]
use crate::prng::{mix, Rng};
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    U8,
    U64,
    Bool,
    Stat,
    Cc,
    Arr,
}
use Ty::*;

const TYPES: [Ty; 6] = [U8, U64, Bool, Stat, Cc, Arr];

impl Ty {
    fn rust(self) -> &'static str {
        match self {
            U8 => "u8",
            U64 => "u64",
            Bool => "bool",
            Stat => "Stat",
            Cc => "ConditionCode",
            Arr => "[u8; 9]",
        }
    }
}

pub struct Unit {
    pub name: &'static str,
    pub ins: &'static [(&'static str, Ty)],
    pub outs: &'static [(&'static str, Ty)],
}

macro_rules! unit {
    ($n:expr, [$(($i:expr, $it:expr)),*], [$(($o:expr, $ot:expr)),*]) => {
        Unit { name: $n, ins: &[$(($i, $it)),*], outs: &[$(($o, $ot)),*] }
    };
}

const IMEM: Unit = unit!("imem", [("pc", U64)], [("error", Bool), ("icode", U8), ("ifun", U8), ("align", Arr)]);
const IALIGN: Unit = unit!("ialign", [("need_regids", Bool), ("align", Arr)], [("rA", U8), ("rB", U8), ("valC", U64)]);
const PCINC: Unit = unit!("pc_inc", [("need_valC", Bool), ("need_regids", Bool), ("old_pc", U64)], [("new_pc", U64)]);
const ALU: Unit = unit!("alu", [("a", U64), ("b", U64), ("fun", U8)], [("e", U64)]);
const REGCC: Unit =
    unit!("reg_cc", [("set_cc", Bool), ("a", U64), ("b", U64), ("e", U64), ("opfun", U8)], [("cc", Cc)]);
const COND: Unit = unit!("cond", [("condfun", U8), ("cc", Cc)], [("cnd", Bool)]);
const DMEM: Unit = unit!(
    "dmem",
    [("addr", U64), ("datain", U64), ("read", Bool), ("write", Bool)],
    [("dataout", U64), ("error", Bool)]
);
const REGFILE: Unit = unit!(
    "reg_file",
    [("srcA", U8), ("srcB", U8), ("dstE", U8), ("dstM", U8), ("valE", U64), ("valM", U64)],
    [("valA", U64), ("valB", U64)]
);
const REGREAD: Unit = unit!("reg_read", [("srcA", U8), ("srcB", U8)], [("valA", U64), ("valB", U64)]);
const REGWRITE: Unit = unit!("reg_write", [("dstE", U8), ("dstM", U8), ("valE", U64), ("valM", U64)], []);

pub static PIPE: [Unit; 8] = [IMEM, IALIGN, PCINC, REGFILE, ALU, REGCC, COND, DMEM];
pub static SEQ: [Unit; 9] = [IMEM, IALIGN, PCINC, REGREAD, REGWRITE, ALU, REGCC, COND, DMEM];

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    N(u64),
    C(bool, bool, bool),
    A([u8; 9]),
    /// Not specified.
    X,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ref {
    Sig(usize),
    Port(usize, usize),
    Reg(usize, usize),
    Const(&'static str, u64),
}

#[derive(Clone, Debug)]
pub enum Ex {
    Ref(Ref),
    /// A condition code (0 sf, 1 of, 2 zf) of a signal of that type.
    Flag(Ref, usize),
    CcInit,
    Int(u64, String),
    Bool(bool),
    Not(Box<Ex>),
    Eq(Box<Ex>, Box<Ex>),
    Ne(Box<Ex>, Box<Ex>),
    In(Box<Ex>, Vec<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Paren(Box<Ex>),
}

#[derive(Clone, Debug)]
pub enum Src {
    Expr(Ex),
    Cases(Vec<(Ex, Ex)>),
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub ty: Ty,
    pub src: Src,
    pub section: Option<usize>,
}

pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub default: V,
    text: String,
    pub src: Option<usize>,
}

pub struct Stage {
    pub cap: &'static str,
    pub short: &'static str,
    pub fields: Vec<Field>,
    pub stall: Option<usize>,
    pub bubble: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Item {
    Unit(usize),
    Sig(usize),
}

pub struct Circuit {
    pub name: String,
    pub units: &'static [Unit],
    pub stages: Vec<Stage>,
    pub sigs: Vec<Sig>,
    /// An order of evaluation.
    pub order: Vec<Item>,
    /// Source of each unit input.
    pub inputs: Vec<Vec<Option<usize>>>,
    pub sections: Vec<String>,
    /// Signals in the order of the text.
    pub text: Vec<usize>,
    pub pc: usize,
    pub term: usize,
    /// Why it must be rejected.
    pub bad: Option<String>,
}

struct Gen<'a> {
    r: &'a mut Rng,
    c: Circuit,
    /// Everything of each type that may be referred to now.
    avail: Vec<(Ref, Ty)>,
    words: Vec<u64>,
}

const U8_CONSTS: [(&str, u64); 18] = [
    ("NOP", 1),
    ("HALT", 0),
    ("CMOVX", 2),
    ("IRMOVQ", 3),
    ("RMMOVQ", 4),
    ("MRMOVQ", 5),
    ("OPQ", 6),
    ("JX", 7),
    ("CALL", 8),
    ("RET", 9),
    ("PUSHQ", 10),
    ("POPQ", 11),
    ("RSP", 4),
    ("RNONE", 15),
    ("RAX", 0),
    ("R14", 14),
    ("ADD", 0),
    ("XOR", 3),
];
const STATS: [(&str, u64); 5] = [("Aok", 0), ("Bub", 1), ("Hlt", 2), ("Adr", 3), ("Ins", 4)];
const LITERALS: [u64; 12] = [0, 1, 2, 8, 10, 16, 0x40, 0x100, 0x1f8, 0x2000, 0xfff8, u64::MAX];

impl Gen<'_> {
    fn pick_ref(&mut self, ty: Ty) -> Option<Ref> {
        let all: Vec<&Ref> = self.avail.iter().filter(|(_, t)| *t == ty).map(|(r, _)| r).collect();
        if all.is_empty() {
            return None;
        }
        // what the units put out changes most
        let ports: Vec<&Ref> = all.iter().filter(|r| matches!(r, Ref::Port(..))).copied().collect();
        if !ports.is_empty() && self.r.pct(35) {
            return Some(self.r.pick(&ports).to_owned().clone());
        }
        // recent ones preferred
        let n = all.len();
        let k = if self.r.pct(50) { n - 1 - self.r.idx(n.min(4)) } else { self.r.idx(n) };
        Some(all[k].clone())
    }

    fn lval(&mut self, ty: Ty) -> Option<Ex> {
        if ty == Bool && self.r.pct(25) {
            if let Some(x) = self.pick_ref(Cc) {
                return Some(Ex::Flag(x, self.r.idx(3)));
            }
        }
        let konst = match ty {
            U8 => Some(self.r.pick(&U8_CONSTS)),
            Stat => Some(self.r.pick(&STATS)),
            U64 => Some(&("NEG_8", -8i64 as u64)),
            _ => None,
        };
        if let Some((n, v)) = konst {
            if self.r.pct(if ty == U64 { 6 } else { 35 }) {
                return Some(Ex::Ref(Ref::Const(n, *v)));
            }
        }
        self.pick_ref(ty).map(Ex::Ref)
    }

    fn int(&mut self, ty: Ty, any: bool) -> Ex {
        let v = match ty {
            U8 if any && self.r.pct(10) => self.r.below(256),
            U8 => self.r.below(16),
            _ if self.r.pct(15) => self.r.next() >> self.r.below(64),
            _ if self.r.pct(40) => *self.r.pick(&self.words),
            _ => *self.r.pick(&LITERALS),
        };
        let mut t = if self.r.pct(50) { format!("{v:#x}") } else { format!("{v}") };
        if self.r.pct(10) {
            if v > 0xffff {
                t = format!("{v:#x}");
                t.insert(4, '_');
            }
            t += if ty == U8 { "u8" } else { "u64" };
        }
        Ex::Int(v, t)
    }

    /// Something that may stand on one side of a comparison.
    fn operand(&mut self, ty: Ty, depth: u32, int: bool) -> Ex {
        if ty == Bool {
            return self.unary(depth);
        }
        if int && matches!(ty, U8 | U64) && self.r.pct(35) {
            return self.int(ty, true);
        }
        let e = self.lval(ty).unwrap_or_else(|| match ty {
            U8 => Ex::Ref(Ref::Const("RSP", 4)),
            Stat => Ex::Ref(Ref::Const("Hlt", 2)),
            _ => Ex::Ref(Ref::Const("NEG_8", -8i64 as u64)),
        });
        if self.r.pct(8) {
            return Ex::Paren(Box::new(e));
        }
        e
    }

    fn unary(&mut self, depth: u32) -> Ex {
        match self.r.below(if depth == 0 { 7 } else { 12 }) {
            0 => Ex::Bool(self.r.pct(50)),
            1..=4 => self.lval(Bool).unwrap_or(Ex::Bool(true)),
            5 | 6 => {
                let e = self.unary(depth.saturating_sub(1));
                Ex::Not(Box::new(e))
            }
            _ => Ex::Paren(Box::new(self.boolean(depth - 1))),
        }
    }

    fn rel(&mut self, depth: u32) -> Ex {
        let ty = *self.r.pick(&[U8, U8, U8, U64, U64, Bool, Stat]);
        match self.r.below(8) {
            0 | 1 => self.unary(depth),
            2 | 3 => {
                let (a, b) = self.two(ty, depth);
                Ex::Eq(Box::new(a), Box::new(b))
            }
            4 | 5 => {
                let (a, b) = self.two(ty, depth);
                Ex::Ne(Box::new(a), Box::new(b))
            }
            _ => {
                let mut a = self.operand(ty, depth, false);
                if matches!(a, Ex::Ref(Ref::Const(..))) && self.r.pct(80) {
                    a = self.pick_ref(ty).map_or(a, Ex::Ref);
                }
                let n = 1 + self.r.idx(5);
                let set: Vec<Ex> = (0..n).filter_map(|_| self.lval(ty)).collect();
                if set.is_empty() {
                    return self.unary(depth);
                }
                Ex::In(Box::new(a), set)
            }
        }
    }

    fn two(&mut self, ty: Ty, depth: u32) -> (Ex, Ex) {
        let mut a = self.operand(ty, depth, false);
        if matches!(a, Ex::Ref(Ref::Const(..))) && self.r.pct(80) {
            a = self.pick_ref(ty).map_or(a, Ex::Ref);
        }
        let b = self.operand(ty, depth, true);
        if self.r.pct(20) {
            (b, a)
        } else {
            (a, b)
        }
    }

    fn land(&mut self, depth: u32) -> Ex {
        let a = self.rel(depth);
        if self.r.pct(30) {
            let b = self.land(depth);
            return Ex::And(Box::new(a), Box::new(b));
        }
        a
    }

    fn boolean(&mut self, depth: u32) -> Ex {
        let a = self.land(depth);
        if self.r.pct(25) {
            let b = self.boolean(depth);
            return Ex::Or(Box::new(a), Box::new(b));
        }
        a
    }

    /// A case's or a signal's value.
    fn value(&mut self, ty: Ty) -> Ex {
        match ty {
            Bool => self.boolean(2),
            U8 | U64 if self.r.pct(20) => self.int(ty, false),
            Cc if self.r.pct(15) => Ex::CcInit,
            _ => self.lval(ty).unwrap_or(match ty {
                U8 => Ex::Ref(Ref::Const("RNONE", 15)),
                U64 => Ex::Ref(Ref::Const("NEG_8", -8i64 as u64)),
                Cc => Ex::CcInit,
                _ => Ex::Ref(Ref::Const("Aok", 0)),
            }),
        }
    }

    fn source(&mut self, ty: Ty) -> Src {
        if self.r.pct(45) {
            return Src::Expr(self.value(ty));
        }
        let n = self.r.below(4);
        let mut cases = vec![];
        for _ in 0..n {
            let c = match self.r.below(16) {
                0 => Ex::Int(0, "0".into()),
                1 => Ex::Bool(false),
                _ => self.boolean(2),
            };
            let v = self.value(ty);
            cases.push((c, v));
        }
        let yes = if self.r.pct(50) { Ex::Int(1, "1".into()) } else { Ex::Bool(true) };
        let v = self.value(ty);
        cases.push((yes, v));
        if self.r.pct(6) {
            let c = self.boolean(1);
            let v = self.value(ty);
            cases.push((c, v));
        }
        Src::Cases(cases)
    }

    fn signal(&mut self, ty: Ty) -> usize {
        let src = self.source(ty);
        self.add(ty, src)
    }

    fn add(&mut self, ty: Ty, src: Src) -> usize {
        let k = self.c.sigs.len();
        let stem = *self.r.pick(&["aa", "zz", "f_", "d_", "e_x", "M_", "Q", "alu", "imem_", "t", "val", "need_", "cc", "w_dst"]);
        let name = format!("{stem}{k}");
        self.c.sigs.push(Sig { name, ty, src, section: None });
        self.c.order.push(Item::Sig(k));
        self.avail.push((Ref::Sig(k), ty));
        k
    }

    /// A signal that can feed an input of this type.
    fn feed(&mut self, ty: Ty) -> usize {
        let have: Vec<usize> = (0..self.c.sigs.len()).filter(|k| self.c.sigs[*k].ty == ty).collect();
        if !have.is_empty() && self.r.pct(35) {
            return *self.r.pick(&have);
        }
        self.signal(ty)
    }

    fn placed(&self, name: &str) -> bool {
        self.c.unit(name).is_some_and(|u| self.c.order.contains(&Item::Unit(u)))
    }

    fn port(&self, unit: &str, p: usize) -> Option<Ref> {
        self.c.unit(unit).filter(|_| self.placed(unit)).map(|u| Ref::Port(u, p))
    }

    /// What usually feeds an input, for circuits that do something.
    fn natural(&mut self, unit: &str, input: &str) -> Option<Ex> {
        let file = if self.c.unit("reg_file").is_some() { "reg_file" } else { "reg_read" };
        let from = |g: &Self, u: &str, i: usize| {
            let x = g.c.unit(u).and_then(|u| g.c.inputs[u][i]);
            x.map(Ref::Sig)
        };
        let all: Vec<Option<Ref>> = match (unit, input) {
            ("imem", _) | ("pc_inc", "old_pc") => vec![Some(Ref::Reg(0, 0))],
            ("ialign", "align") => vec![self.port("imem", 3)],
            ("alu", "a" | "b") => vec![self.port(file, 0), self.port(file, 1), self.port("ialign", 2), Some(Ref::Reg(0, 0))],
            ("reg_cc", "a") => vec![from(self, "alu", 0), self.port("ialign", 2)],
            ("reg_cc", "b") => vec![from(self, "alu", 1), self.port("ialign", 2)],
            ("reg_cc", "e") => vec![self.port("alu", 0), self.port("ialign", 2)],
            ("cond", "cc") => vec![self.port("reg_cc", 0)],
            ("dmem", "addr" | "datain") => vec![self.port("alu", 0), self.port("ialign", 2), self.port(file, 0)],
            (_, "srcA" | "srcB") => vec![self.port("ialign", 0), self.port("ialign", 1)],
            (_, "dstE" | "dstM") => vec![self.port("ialign", 1), self.port("ialign", 0)],
            (_, "valE" | "valM") => vec![self.port("alu", 0), self.port("dmem", 0), self.port("ialign", 2)],
            (_, "need_regids" | "need_valC" | "set_cc" | "read" | "write") => {
                let icode = self.port("imem", 1)?;
                let mut set = vec![];
                for _ in 0..1 + self.r.idx(6) {
                    let (n, v) = U8_CONSTS[self.r.idx(12)];
                    set.push(Ex::Ref(Ref::Const(n, v)));
                }
                return Some(Ex::In(Box::new(Ex::Ref(icode)), set));
            }
            _ => vec![],
        };
        let all: Vec<Ref> = all.into_iter().flatten().collect();
        if all.is_empty() {
            return None;
        }
        Some(Ex::Ref(self.r.pick(&all).clone()))
    }

    fn unit(&mut self, u: usize) {
        let units = self.c.units;
        for (p, (name, ty)) in units[u].ins.iter().enumerate() {
            let s = match (units[u].name, *name) {
                // one signal into two inputs
                (_, i) if !matches!(i, "pc" | "old_pc") && p > 0 && units[u].ins[p - 1].1 == *ty && self.r.pct(8) => {
                    self.c.inputs[u][p - 1].unwrap()
                }
                // something that goes somewhere
                (un, i) if self.r.pct(60) && self.natural(un, i).is_some() => {
                    let e = self.natural(un, i).unwrap();
                    let mut cases = vec![];
                    if self.r.pct(if un == "imem" { 15 } else { 40 }) {
                        let c = self.boolean(1);
                        let v = self.value(*ty);
                        cases.push((c, v));
                    }
                    if cases.is_empty() && self.r.pct(50) {
                        self.add(*ty, Src::Expr(e))
                    } else {
                        cases.push((Ex::Int(1, "1".into()), e));
                        self.add(*ty, Src::Cases(cases))
                    }
                }
                ("imem", "pc") if self.r.pct(60) => {
                    let mut cases = vec![];
                    if self.r.pct(50) {
                        let c = self.boolean(2);
                        let v = self.value(U64);
                        cases.push((c, v));
                    }
                    cases.push((Ex::Int(1, "1".into()), Ex::Ref(Ref::Reg(0, 0))));
                    self.add(U64, Src::Cases(cases))
                }
                ("dmem", "addr") if self.r.pct(60) => {
                    let mut cases = vec![];
                    for _ in 0..1 + self.r.below(3) {
                        let c = self.boolean(1);
                        let v = if self.r.pct(60) {
                            let w = *self.r.pick(&self.words);
                            Ex::Int(w, format!("{w:#x}"))
                        } else {
                            self.value(U64)
                        };
                        cases.push((c, v));
                    }
                    let v = self.value(U64);
                    cases.push((Ex::Bool(true), v));
                    self.add(U64, Src::Cases(cases))
                }
                ("alu", "fun") | ("reg_cc", "opfun") | ("cond", "condfun") if self.r.pct(92) => {
                    let c = self.boolean(1);
                    let n = if *name == "condfun" { 7 } else { 4 };
                    let v = self.r.below(n);
                    let w = self.r.below(n);
                    self.add(U8, Src::Cases(vec![
                        (c, Ex::Int(v, format!("{v}"))),
                        (Ex::Bool(true), Ex::Int(w, format!("{w}"))),
                    ]))
                }
                // mostly one behind the other
                ("reg_write", "valE") if self.r.pct(85) => {
                    let c = self.boolean(1);
                    let v = self.value(U64);
                    let x = Ref::Port(self.c.unit("reg_read").unwrap(), self.r.idx(2));
                    self.add(U64, Src::Cases(vec![(c, Ex::Ref(x)), (Ex::Bool(true), v)]))
                }
                ("dmem", "datain") if self.r.pct(85) && self.placed("imem") => {
                    let x = Ref::Port(self.c.unit("imem").unwrap(), 1);
                    let k = self.r.below(12);
                    let c = Ex::Eq(Box::new(Ex::Ref(x)), Box::new(Ex::Int(k, format!("{k}"))));
                    let (v, w) = (self.value(U64), self.value(U64));
                    self.add(U64, Src::Cases(vec![(c, v), (Ex::Bool(true), w)]))
                }
                _ => self.feed(*ty),
            };
            self.c.inputs[u][p] = Some(s);
        }
        self.c.order.push(Item::Unit(u));
        for (p, (_, ty)) in units[u].outs.iter().enumerate() {
            self.avail.push((Ref::Port(u, p), *ty));
        }
        for _ in 0..self.r.below(3) {
            let ty = *self.r.pick(&[U8, U64, U64, Bool, Bool, Stat, Cc]);
            self.signal(ty);
        }
    }
}

fn refs(e: &Ex, out: &mut Vec<Ref>) {
    match e {
        Ex::Ref(r) | Ex::Flag(r, _) => out.push(r.clone()),
        Ex::Not(a) | Ex::Paren(a) => refs(a, out),
        Ex::Eq(a, b) | Ex::Ne(a, b) | Ex::And(a, b) | Ex::Or(a, b) => {
            refs(a, out);
            refs(b, out);
        }
        Ex::In(a, v) => {
            refs(a, out);
            v.iter().for_each(|x| refs(x, out));
        }
        _ => {}
    }
}

impl Circuit {
    pub fn reads(&self, s: usize) -> Vec<Ref> {
        let mut v = vec![];
        match &self.sigs[s].src {
            Src::Expr(e) => refs(e, &mut v),
            Src::Cases(cs) => cs.iter().for_each(|(c, e)| {
                refs(c, &mut v);
                refs(e, &mut v);
            }),
        }
        v
    }

    /// What must be known before this item.
    pub fn needs(&self, i: Item) -> Vec<Item> {
        match i {
            Item::Unit(u) => self.inputs[u].iter().flatten().map(|s| Item::Sig(*s)).collect(),
            Item::Sig(s) => self
                .reads(s)
                .into_iter()
                .filter_map(|r| match r {
                    Ref::Sig(k) => Some(Item::Sig(k)),
                    Ref::Port(u, _) => Some(Item::Unit(u)),
                    _ => None,
                })
                .collect(),
        }
    }

    /// All that the item depends on.
    pub fn behind(&self, i: Item) -> Vec<Item> {
        let mut v = self.needs(i);
        let mut k = 0;
        while k < v.len() {
            for n in self.needs(v[k]) {
                if !v.contains(&n) {
                    v.push(n);
                }
            }
            k += 1;
        }
        v
    }

    pub fn unit(&self, name: &str) -> Option<usize> {
        self.units.iter().position(|u| u.name == name)
    }
}

/// The k-th circuit. Every sixth must be rejected.
pub fn circuit(k: u64) -> Circuit {
    let r = &mut Rng::new(mix(&[0x4c1, k]));
    let units: &'static [Unit] = if r.pct(65) { &PIPE } else { &SEQ };
    let c = Circuit {
        name: format!("c{k}"),
        units,
        stages: vec![],
        sigs: vec![],
        order: vec![],
        inputs: units.iter().map(|u| vec![None; u.ins.len()]).collect(),
        sections: vec![],
        text: vec![],
        pc: 0,
        term: 0,
        bad: None,
    };
    let words = (0..6).map(|_| if r.pct(70) { r.below(0x400) & !7 } else { 0x1_0000 - 8 - r.below(24) }).collect();
    let mut g = Gen { r, c, avail: vec![], words };

    // pipeline registers
    let caps = ["F", "D", "Ex", "M", "P9"];
    let shorts = ["f", "d", "ex", "m", "p9"];
    let names = ["valA", "valB", "icode", "x1", "x2", "cnd", "stat", "dst", "y", "pred_pc", "cc", "align"];
    for s in 0..1 + g.r.idx(4) {
        let mut n = names;
        g.r.shuffle(&mut n);
        let k = 2 + g.r.idx(5);
        let mut fields = vec![];
        for (f, name) in n.into_iter().take(k).enumerate() {
            let ty = if s == 0 && f < 6 {
                [U64, Arr, Bool, Cc, U8, U64][f]
            } else {
                let n = if g.r.pct(20) { 6 } else { 4 };
                TYPES[g.r.idx(n)]
            };
            let (default, text) = match ty {
                U64 if f == 0 && s == 0 => (V::N(0), "0".into()),
                U64 => match g.int(U64, false) {
                    Ex::Int(v, t) => (V::N(v), t),
                    _ => unreachable!(),
                },
                U8 if g.r.pct(50) => {
                    let (n, v) = *g.r.pick(&U8_CONSTS);
                    (V::N(v), n.to_string())
                }
                U8 => {
                    let v = g.r.below(16);
                    (V::N(v), v.to_string())
                }
                Bool => {
                    let b = g.r.pct(40);
                    (V::N(b as u64), b.to_string())
                }
                Stat => {
                    let (n, v) = *g.r.pick(&STATS);
                    (V::N(v), format!("Stat::{n}"))
                }
                Cc => (V::C(false, false, false), "CC_INIT".into()),
                Arr => {
                    let b = g.r.next() as u8;
                    (V::A([b; 9]), format!("[{b}; 9]"))
                }
            };
            fields.push(Field { name, ty, default, text, src: None });
            g.avail.push((Ref::Reg(s, f), ty));
        }
        g.c.stages.push(Stage { cap: caps[s], short: shorts[s], fields, stall: None, bubble: None });
    }

    // units in any order, signals between them
    for _ in 0..g.r.below(4) {
        let ty = *g.r.pick(&[U8, U64, Bool, Stat]);
        g.signal(ty);
    }
    let mut us: Vec<usize> = (0..units.len()).collect();
    if g.r.pct(60) {
        g.r.shuffle(&mut us);
    }
    // nothing can depend on the register file's write port
    if let (Some(a), Some(b)) = (g.c.unit("reg_read"), g.c.unit("reg_write")) {
        let (i, j) = (us.iter().position(|x| *x == a).unwrap(), us.iter().position(|x| *x == b).unwrap());
        if i > j {
            us.swap(i, j);
        }
    }
    for u in us {
        g.unit(u);
    }

    // back into the registers
    for s in 0..g.c.stages.len() {
        for f in 0..g.c.stages[s].fields.len() {
            let ty = g.c.stages[s].fields[f].ty;
            if s == 0 && f == 0 {
                let pi = g.c.unit("pc_inc").unwrap();
                let mut cases = vec![];
                if g.r.pct(25) {
                    let c = g.boolean(2);
                    let v = g.value(U64);
                    cases.push((c, v));
                }
                let v = if g.r.pct(90) { Ex::Ref(Ref::Port(pi, 0)) } else { g.value(U64) };
                cases.push((Ex::Bool(true), v));
                let k = g.add(U64, Src::Cases(cases));
                g.c.stages[0].fields[0].src = Some(k);
            } else if g.r.pct(85) {
                // one signal into two fields of a register, too
                let same: Vec<usize> =
                    g.c.stages[s].fields[..f].iter().filter(|x| x.ty == ty).filter_map(|x| x.src).collect();
                let k = if !same.is_empty() && g.r.pct(25) { *g.r.pick(&same) } else { g.feed(ty) };
                g.c.stages[s].fields[f].src = Some(k);
            }
        }
        let kind = if s == 0 && g.r.pct(70) { 5 } else { g.r.below(6) };
        if kind == 0 || kind == 2 {
            let k = g.signal(Bool);
            g.c.stages[s].stall = Some(k);
        }
        if kind == 1 || kind == 2 {
            let e = g.boolean(1);
            let e = match g.c.stages[s].stall {
                // never both
                Some(k) => Ex::And(
                    Box::new(Ex::Not(Box::new(Ex::Ref(Ref::Sig(k))))),
                    Box::new(Ex::Paren(Box::new(e))),
                ),
                None => e,
            };
            let k = g.add(Bool, Src::Expr(e));
            g.c.stages[s].bubble = Some(k);
        }
    }

    // what the simulator asks for
    let pcs: Vec<usize> = (0..g.c.sigs.len()).filter(|k| g.c.sigs[*k].ty == U64).collect();
    g.c.pc = if g.r.pct(70) { g.c.inputs[0][0].unwrap() } else { *g.r.pick(&pcs) };
    let e = if g.r.pct(40) {
        Ex::Bool(false)
    } else {
        let (a, b, c) = (g.rel(1), g.rel(1), g.rel(1));
        Ex::And(Box::new(a), Box::new(Ex::And(Box::new(b), Box::new(c))))
    };
    g.c.term = g.add(Bool, Src::Expr(e));

    // the text: any order, in sections
    let mut text: Vec<usize> = (0..g.c.sigs.len()).collect();
    if g.r.pct(80) {
        g.r.shuffle(&mut text);
    }
    let n = g.r.idx(5);
    for k in 0..n {
        let t = match g.r.below(4) {
            0 => "Fetch".to_string(),
            1 => format!("Part {}", ["one", "two", "three", "four", "five"][k]),
            2 => format!("Decode and Write Back {}", ["A", "B", "C", "D", "E"][k]),
            _ => format!("Control Logic x{k}"),
        };
        g.c.sections.push(t);
    }
    let first = if g.r.pct(50) { 0 } else { g.r.idx(6) };
    let mut at: Vec<usize> = (0..n).map(|k| if k == 0 { first } else { g.r.idx(text.len()) }).collect();
    at.sort();
    for (pos, s) in text.iter().enumerate() {
        g.c.sigs[*s].section = at.iter().filter(|a| **a <= pos).count().checked_sub(1);
    }
    g.c.text = text;
    if k % 6 == 5 {
        spoil(&mut g);
    }
    g.c
}

/// Make it a circuit that cannot be built.
fn spoil(g: &mut Gen) {
    if g.r.pct(25) {
        let u = g.r.idx(g.c.units.len());
        let p = g.r.idx(g.c.units[u].ins.len());
        g.c.inputs[u][p] = None;
        g.c.bad = Some(format!("nothing feeds {}.{}", g.c.units[u].name, g.c.units[u].ins[p].0));
        return;
    }
    // a signal that depends on something which depends on it
    for _ in 0..200 {
        let t = g.r.idx(g.c.sigs.len());
        let behind: Vec<usize> = g
            .c
            .behind(Item::Sig(t))
            .into_iter()
            .filter_map(|i| match i {
                Item::Sig(s) => Some(s),
                _ => None,
            })
            .collect();
        let s = if g.r.pct(10) {
            t
        } else if behind.is_empty() {
            continue;
        } else {
            *g.r.pick(&behind)
        };
        let ty = g.c.sigs[t].ty;
        let e = || Box::new(Ex::Ref(Ref::Sig(t)));
        let cond = match (ty, g.r.below(4)) {
            (Arr, _) => continue,
            (Cc, k) => Ex::Flag(Ref::Sig(t), (k % 3) as usize),
            (Bool, 0) => Ex::Not(e()),
            (Bool, 1) => Ex::And(Box::new(Ex::Bool(false)), e()),
            (Bool, 2) => *e(),
            (_, 3) => Ex::In(e(), vec![*e()]),
            (_, 1) => Ex::Or(Box::new(Ex::Bool(true)), Box::new(Ex::Paren(Box::new(Ex::Ne(e(), e()))))),
            _ => Ex::Eq(e(), e()),
        };
        let ty = g.c.sigs[s].ty;
        let v = if g.c.sigs[t].ty == ty && g.r.pct(50) { *e() } else { g.value(ty) };
        // g.value may refer to anything: that can only add to the cycle
        let old = g.c.sigs[s].src.clone();
        let mut cases = match old {
            Src::Expr(e) => vec![(Ex::Bool(true), e)],
            Src::Cases(c) => c,
        };
        let at = g.r.idx(cases.len());
        cases.insert(at, (cond, v));
        g.c.sigs[s].src = Src::Cases(cases);
        g.c.bad = Some(format!("{} and {} depend on each other", g.c.sigs[s].name, g.c.sigs[t].name));
        return;
    }
    g.c.inputs[0][0] = None;
    g.c.bad = Some("nothing feeds imem.pc".into());
}

// ---------------------------------------------------------------- text

impl Circuit {
    fn ref_text(&self, r: &Ref) -> String {
        match r {
            Ref::Sig(k) => self.sigs[*k].name.clone(),
            Ref::Port(u, p) => format!("{}.{}", self.units[*u].name, self.units[*u].outs[*p].0),
            Ref::Reg(s, f) => format!("{}.{}", self.stages[*s].cap, self.stages[*s].fields[*f].name),
            Ref::Const(n, _) => n.to_string(),
        }
    }

    fn ex(&self, e: &Ex) -> String {
        match e {
            Ex::Ref(r) => self.ref_text(r),
            Ex::Flag(r, f) => format!("{}.{}", self.ref_text(r), ["sf", "of", "zf"][*f]),
            Ex::CcInit => "CC_INIT".into(),
            Ex::Int(_, t) => t.clone(),
            Ex::Bool(b) => b.to_string(),
            Ex::Not(a) => format!("!{}", self.ex(a)),
            Ex::Eq(a, b) => format!("{} == {}", self.ex(a), self.ex(b)),
            Ex::Ne(a, b) => format!("{} != {}", self.ex(a), self.ex(b)),
            Ex::In(a, v) => {
                format!("{} in {{ {} }}", self.ex(a), v.iter().map(|x| self.ex(x)).collect::<Vec<_>>().join(", "))
            }
            Ex::And(a, b) => format!("{} && {}", self.ex(a), self.ex(b)),
            Ex::Or(a, b) => format!("{} || {}", self.ex(a), self.ex(b)),
            Ex::Paren(a) => format!("({})", self.ex(a)),
        }
    }

    pub fn render(&self, k: u64) -> String {
        let r = &mut Rng::new(mix(&[0x7e87, k]));
        // marks for the visualization, which change no value
        let d = &mut Rng::new(mix(&[0x70e1, k]));
        let marks = if d.pct(30) { 30 } else { 0 };
        let mut mark = move || {
            if marks > 0 && d.pct(marks) {
                format!("#[tunnel(T{})] ", d.below(4))
            } else {
                String::new()
            }
        };
        let mut o = String::new();
        let w = &mut o;
        if let Some(b) = &self.bad {
            let _ = writeln!(w, "// to be rejected: {b}");
        }
        let _ = writeln!(w, "crate::define_stages! {{");
        for (i, s) in self.stages.iter().enumerate() {
            let f: Vec<String> =
                s.fields.iter().map(|f| format!("{}: {} = {}", f.name, f.ty.rust(), f.text)).collect();
            let _ = writeln!(w, "    Stage{i} {} {{ {} }}", s.short, f.join(", "));
        }
        let _ = writeln!(w, "}}\nsim_macro::hcl! {{");
        let hw = if self.unit("reg_file").is_some() { "pipe" } else { "seq" };
        let mut attrs = vec![
            format!("#![hardware = crate::architectures::hardware_{hw}]"),
            format!("#![program_counter = {}]", self.sigs[self.pc].name),
            format!("#![termination = {}]", self.sigs[self.term].name),
            format!(
                "#![stage_alias({})]",
                self.stages.iter().map(|s| format!("{} => {}", s.cap, s.short)).collect::<Vec<_>>().join(", ")
            ),
        ];
        r.shuffle(&mut attrs);
        let _ = writeln!(w, "{}\nuse Stat::*;", attrs.join("\n"));

        // how each connection is written: with an arrow or a set_ directive
        let mut arrows: Vec<Vec<String>> = vec![vec![]; self.sigs.len()];
        let mut sets: Vec<String> = vec![];
        let arrow = r.below(3) * 30;
        let mut group = |what: &str, name: &str, list: Vec<(String, usize)>, r: &mut Rng| {
            let mut left = vec![];
            for (port, s) in list {
                if r.pct(arrow) {
                    arrows[s].push(format!("{}{name}.{port}", mark()));
                } else {
                    left.push(format!("{port}: {}", self.sigs[s].name));
                }
            }
            r.shuffle(&mut left);
            while !left.is_empty() {
                let n = if r.pct(75) { left.len() } else { 1 + r.idx(left.len()) };
                let part: Vec<String> = left.drain(..n).collect();
                let comma = if r.pct(50) { "," } else { "" };
                sets.push(format!("@{what}({name}, {{ {}{comma} }});", part.join(", ")));
            }
        };
        for (u, ins) in self.inputs.iter().enumerate() {
            let l = ins
                .iter()
                .enumerate()
                .filter_map(|(p, s)| s.map(|s| (self.units[u].ins[p].0.to_string(), s)))
                .collect();
            group("set_input", self.units[u].name, l, r);
        }
        for s in &self.stages {
            let mut l: Vec<(String, usize)> =
                s.fields.iter().filter_map(|f| f.src.map(|k| (f.name.to_string(), k))).collect();
            l.extend(s.stall.map(|k| ("stall".to_string(), k)));
            l.extend(s.bubble.map(|k| ("bubble".to_string(), k)));
            group("set_stage", s.short, l, r);
        }

        let mut section = None;
        let mut opened = 0;
        for s in &self.text {
            let sig = &self.sigs[*s];
            if sig.section != section {
                while opened <= sig.section.unwrap() {
                    let _ = writeln!(w, ":==: {} :=====:", self.sections[opened]);
                    opened += 1;
                }
                section = sig.section;
            }
            let _ = write!(w, "{} {} = ", sig.ty.rust(), sig.name);
            match &sig.src {
                Src::Expr(e) => {
                    let _ = write!(w, "{}{}", mark(), self.ex(e));
                }
                Src::Cases(c) => {
                    let v: Vec<String> =
                        c.iter().map(|(c, e)| format!("    {}{} : {}", mark(), self.ex(c), self.ex(e))).collect();
                    let end = if r.pct(50) { ";" } else { "" };
                    let _ = write!(w, "[\n{}{end}\n]", v.join(";\n"));
                }
            }
            match arrows[*s].len() {
                0 => {}
                1 if r.pct(60) => {
                    let _ = write!(w, " -> {}", arrows[*s][0]);
                }
                _ => {
                    let _ = write!(w, " -> ({})", arrows[*s].join(", "));
                }
            }
            let _ = writeln!(w, ";");
            while !sets.is_empty() && r.pct(25) {
                let k = r.idx(sets.len());
                let _ = writeln!(w, "{}", sets.swap_remove(k));
            }
        }
        while opened < self.sections.len() {
            let _ = writeln!(w, ":==: {} :=====:", self.sections[opened]);
            opened += 1;
        }
        for s in sets {
            let _ = writeln!(w, "{s}");
        }
        let _ = writeln!(w, "}}\nimpl crate::framework::PipeSim<Arch> {{ fn print_state(&self) {{}} }}");
        o
    }
}

pub fn file(n: u64) -> String {
    let mut o = String::new();
    for k in 0..n {
        let body = circuit(k).render(k).replace('\n', "\n    ");
        let _ = write!(o, "pub mod c{k} {{\n    {}\n}}\n", body.trim_end());
    }
    o += "pub const COUNT: u64 = ";
    let _ = writeln!(o, "{n};");
    o += "pub fn create(k: u64, memory: super::MemData) -> Box<dyn super::CpuSim> {\n    match k {\n";
    for k in 0..n {
        let _ = writeln!(o, "        {k} => Box::new(super::PipeSim::<c{k}::Arch>::new(memory, false)),");
    }
    o += "        _ => panic!(\"no such circuit\"),\n    }\n}\n";
    o
}
