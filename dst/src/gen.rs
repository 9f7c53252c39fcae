//! Program generators: hazard-heavy halting programs, precisely faulting
//! programs, runaway programs and raw memory images.
use crate::isa::{self, End, Outcome};
use crate::prng::Rng;
use crate::prog::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    Halt,
    Fault,
    Runaway,
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub want: Want,
    pub iopq: bool,
    /// Rough number of statements of the main program.
    pub size: u64,
    /// Maximum number of executed instructions.
    pub limit: u64,
    /// With a loop that takes more than 2^16 cycles.
    pub long: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    out: Vec<Line>,
    nlabel: usize,
    base: Vec<u8>,
    scratch: Vec<u8>,
    loops: Vec<u8>,
    data: Vec<(String, u64)>,
    nfun: usize,
    /// Extra sections produced on the way (label, lines).
    extra: Vec<Vec<Line>>,
    stmts: u64,
    fault_at: Option<u64>,
    runaway_at: Option<u64>,
    iopq: bool,
    weights: Vec<u64>,
    traps: Vec<String>,
}

pub fn interesting(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << 63,
        4 => (1 << 63) - 1,
        5 => r.below(256),
        6 => r.below(256).wrapping_neg(),
        7 => 8,
        8 => r.next() & 0xffff,
        9 => 1 << r.below(64),
        _ => r.next(),
    }
}

const NSTMT: usize = 20;

impl<'a> G<'a> {
    fn i(&mut self, i: Inst) {
        self.out.push(Line::inst(i));
    }
    fn fresh(&mut self, p: &str) -> String {
        self.nlabel += 1;
        format!("{p}{}", self.nlabel)
    }
    fn lab(&mut self, l: &str) {
        self.out.push(Line::label(l));
    }
    fn s(&mut self) -> u8 {
        *self.r.pick(&self.scratch)
    }
    fn any_src(&mut self) -> u8 {
        match self.r.below(10) {
            0 => *self.r.pick(&self.base),
            1 => RSP,
            2 => *self.r.pick(&self.loops),
            _ => self.s(),
        }
    }
    fn disp(&mut self, b: u8) -> Option<u64> {
        let k = self.base.iter().position(|x| *x == b).unwrap();
        let size = self.data[k].1;
        let d = if self.r.pct(75) { self.r.below(size / 8) * 8 } else { self.r.below(size - 7) };
        if d == 0 && self.r.pct(60) {
            None
        } else {
            Some(d)
        }
    }
    fn load(&mut self, dst: u8) {
        let b = *self.r.pick(&self.base);
        let d = self.disp(b);
        self.i(Inst::Mrmov(d, b, dst));
    }
    fn trap_target(&mut self) -> String {
        if !self.traps.is_empty() && self.r.pct(80) {
            self.r.pick(&self.traps).clone()
        } else {
            self.data[self.r.idx(self.data.len())].0.clone()
        }
    }
    fn nops(&mut self) {
        for _ in 0..self.r.below(4) {
            self.i(Inst::Nop);
        }
    }

    fn block(&mut self, n: u64, depth: u32, fun: Option<usize>) {
        let mut pushed = 0u32;
        for _ in 0..n {
            self.stmt(depth, fun, &mut pushed);
        }
        while pushed > 0 {
            let s = self.s();
            if self.r.pct(25) {
                let t = if s == self.scratch[0] { self.scratch[1] } else { s };
                self.i(Inst::Irmov(Val::Num(8), t));
                self.i(Inst::Op(0, t, RSP));
            } else {
                self.i(Inst::Pop(s));
            }
            pushed -= 1;
        }
    }

    fn stmt(&mut self, depth: u32, fun: Option<usize>, pushed: &mut u32) {
        self.stmts += 1;
        if Some(self.stmts) == self.fault_at {
            return self.fault();
        }
        if Some(self.stmts) == self.runaway_at {
            return self.runaway();
        }
        let w = self.weights.clone();
        match self.r.weighted(&w) {
            0 => {
                let (f, a, b) = (self.r.below(4) as u8, self.any_src(), self.s());
                self.i(Inst::Op(f, a, b));
            }
            1 => {
                let v = if self.r.pct(20) {
                    Val::Label(self.data[self.r.idx(self.data.len())].0.clone())
                } else {
                    Val::Num(interesting(self.r))
                };
                let s = self.s();
                self.i(Inst::Irmov(v, s));
            }
            2 => {
                let (c, a, b) = (self.r.below(7) as u8, self.any_src(), self.s());
                self.i(Inst::Cmov(c, a, b));
            }
            3 => {
                let s = self.s();
                self.load(s);
            }
            4 => {
                let b = *self.r.pick(&self.base);
                let d = self.disp(b);
                let s = self.any_src();
                self.i(Inst::Rmmov(s, d, b));
            }
            // load/use in every shape
            5 => {
                let s = self.s();
                self.load(s);
                if self.r.pct(15) {
                    self.i(Inst::Nop);
                }
                match self.r.below(6) {
                    0 => {
                        let (f, b) = (self.r.below(4) as u8, self.s());
                        self.i(Inst::Op(f, s, b));
                    }
                    1 => {
                        let (f, a) = (self.r.below(4) as u8, self.any_src());
                        self.i(Inst::Op(f, a, s));
                    }
                    2 => {
                        let b = *self.r.pick(&self.base);
                        let d = self.disp(b);
                        self.i(Inst::Rmmov(s, d, b));
                    }
                    3 => {
                        let (c, b) = (self.r.below(7) as u8, self.s());
                        self.i(Inst::Cmov(c, s, b));
                    }
                    4 => {
                        self.i(Inst::Push(s));
                        *pushed += 1;
                    }
                    _ => {
                        // pointer chase through a base register
                        let b = *self.r.pick(&self.base);
                        let k = self.base.iter().position(|x| *x == b).unwrap();
                        let (l, _) = self.data[k].clone();
                        let (b2, s2) = (*self.r.pick(&self.base), self.s());
                        let d2 = self.disp(b2);
                        self.i(Inst::Irmov(Val::Label(l), s2));
                        self.i(Inst::Rmmov(s2, d2, b2));
                        self.i(Inst::Mrmov(d2, b2, b));
                        let d = self.disp(b);
                        self.i(Inst::Mrmov(d, b, s));
                    }
                }
            }
            6 => {
                let s = self.any_src();
                self.i(Inst::Push(s));
                *pushed += 1;
            }
            7 => {
                if *pushed > 0 {
                    let s = self.s();
                    self.i(Inst::Pop(s));
                    *pushed -= 1;
                    if self.r.pct(60) {
                        let (f, b) = (self.r.below(4) as u8, self.s());
                        self.i(Inst::Op(f, s, b));
                    }
                } else {
                    let s = self.s();
                    self.i(Inst::Push(s));
                    let s = self.s();
                    self.i(Inst::Pop(s));
                }
            }
            // stack pointer games, net effect zero
            8 => match self.r.below(5) {
                0 => {
                    self.i(Inst::Push(RSP));
                    self.i(Inst::Pop(RSP));
                }
                1 => {
                    self.i(Inst::Push(RSP));
                    self.i(Inst::Mrmov(None, RSP, RSP));
                    let s = self.s();
                    self.i(Inst::Cmov(0, RSP, s));
                }
                2 => {
                    let s = self.s();
                    self.i(Inst::Cmov(0, RSP, s));
                    self.i(Inst::Irmov(Val::Num(0), RSP));
                    self.nops();
                    self.i(Inst::Cmov(0, s, RSP));
                }
                3 => {
                    let s = self.s();
                    self.i(Inst::Push(RSP));
                    self.i(Inst::Pop(s));
                    self.i(Inst::Cmov(0, s, RSP));
                    self.i(Inst::Push(s));
                    self.i(Inst::Pop(RSP));
                }
                _ => {
                    let b = *self.r.pick(&self.base);
                    let d = self.disp(b);
                    self.i(Inst::Rmmov(RSP, d, b));
                    let s = self.s();
                    self.i(Inst::Push(s));
                    self.i(Inst::Mrmov(d, b, RSP));
                    let s = self.s();
                    self.i(Inst::Push(s));
                    self.i(Inst::Pop(s));
                }
            },
            // if/else on fresh flags
            9 if depth < 3 => {
                let (f, a, b) = (self.r.below(4) as u8, self.any_src(), self.s());
                self.i(Inst::Op(f, a, b));
                if self.r.pct(30) {
                    self.nops();
                }
                let (le, ld) = (self.fresh("Le"), self.fresh("Ld"));
                let c = 1 + self.r.below(6) as u8;
                self.i(Inst::J(c, le.clone()));
                let n = self.r.below(4);
                self.block(n, depth + 1, fun);
                let with_else = self.r.pct(60);
                if with_else {
                    self.i(Inst::J(0, ld.clone()));
                }
                self.lab(&le);
                if with_else {
                    let n = self.r.below(4);
                    self.block(n, depth + 1, fun);
                    self.lab(&ld);
                }
            }
            // counted loop
            10 if depth < 2 && (fun.is_none() || fun == Some(self.nfun - 1)) => {
                let c = self.loops[if fun.is_some() { 2 } else { depth as usize }];
                if fun.is_some() && depth > 0 {
                    return;
                }
                let l = self.fresh("L");
                let n = self.r.range(1, 5);
                self.i(Inst::Irmov(Val::Num(n), c));
                self.lab(&l);
                let n = 1 + self.r.below(4);
                self.block(n, depth + 1, fun);
                let t = self.s();
                if self.r.pct(50) {
                    self.i(Inst::Irmov(Val::Num(1), t));
                    self.i(Inst::Op(1, t, c));
                } else {
                    self.i(Inst::Irmov(Val::Num(u64::MAX), t));
                    self.i(Inst::Op(0, t, c));
                }
                if self.r.pct(30) {
                    let s = self.s();
                    self.i(Inst::Cmov(0, c, s));
                }
                let cc = if self.r.pct(50) { 4 } else { 6 };
                self.i(Inst::J(cc, l));
            }
            11 => {
                let next = fun.map_or(0, |f| f + 1);
                if next < self.nfun {
                    let f = next + self.r.idx(self.nfun - next);
                    self.i(Inst::Call(format!("f{f}")));
                    if self.r.pct(50) {
                        let (c, a, b) = (self.r.below(7) as u8, self.any_src(), self.s());
                        self.i(Inst::Cmov(c, a, b));
                    }
                }
            }
            // jump by ret
            12 => {
                let l = self.fresh("R");
                let s = self.s();
                self.i(Inst::Irmov(Val::Label(l.clone()), s));
                if self.r.pct(30) {
                    self.nops();
                }
                self.i(Inst::Push(s));
                if self.r.pct(30) {
                    // load/use on the stack pointer right before ret
                    self.i(Inst::Push(RSP));
                    self.i(Inst::Pop(RSP));
                }
                self.i(Inst::Ret);
                for _ in 0..self.r.below(3) {
                    let b = self.r.next() & 0xff;
                    self.out.push(Line::item(Item::Data(1, Val::Num(b))));
                }
                self.lab(&l);
            }
            // never-taken branch to an evil place
            13 => {
                let s = self.s();
                let c = match self.r.below(3) {
                    0 => {
                        self.i(Inst::Op(3, s, s));
                        *self.r.pick(&[4u8, 2, 6])
                    }
                    1 => {
                        self.i(Inst::Op(2, s, s));
                        2 + 4 * self.r.below(2) as u8
                    }
                    _ => {
                        self.i(Inst::Irmov(Val::Num(1), s));
                        self.i(Inst::Op(2, s, s));
                        *self.r.pick(&[1u8, 2, 3])
                    }
                };
                let t = self.trap_target();
                self.i(Inst::J(c, t));
                // the fall-through is sensitive to any trace of the wrong path
                if self.r.pct(50) {
                    let (a, b) = (self.any_src(), self.s());
                    self.i(Inst::Op(0, a, b));
                }
            }
            14 => self.nops(),
            // flags consumed by conditional moves at every distance
            15 => {
                let (f, a, b) = (self.r.below(4) as u8, self.any_src(), self.s());
                self.i(Inst::Op(f, a, b));
                for _ in 0..1 + self.r.below(3) {
                    let (c, a, b) = (self.r.below(7) as u8, self.any_src(), self.s());
                    self.i(Inst::Cmov(c, a, b));
                }
            }
            // dependent chain of one register
            16 => {
                let s = self.s();
                for _ in 0..2 + self.r.below(4) {
                    match self.r.below(4) {
                        0 => {
                            let v = interesting(self.r);
                            self.i(Inst::Irmov(Val::Num(v), s))
                        }
                        1 => {
                            let f = self.r.below(4) as u8;
                            let t = self.s();
                            self.i(Inst::Op(f, s, t));
                        }
                        2 => {
                            let (c, t) = (self.r.below(7) as u8, self.s());
                            self.i(Inst::Cmov(c, t, s));
                        }
                        _ => self.load(s),
                    }
                }
                let b = *self.r.pick(&self.base);
                let d = self.disp(b);
                self.i(Inst::Rmmov(s, d, b));
            }
            17 if self.iopq => {
                let v = if self.r.pct(20) {
                    Val::Label(self.data[self.r.idx(self.data.len())].0.clone())
                } else {
                    Val::Num(interesting(self.r))
                };
                let (f, s) = (self.r.below(4) as u8, self.s());
                self.i(Inst::Iop(f, v, s));
            }
            // store then load of the same or an overlapping place
            18 => {
                let b = *self.r.pick(&self.base);
                let d = self.disp(b);
                let s = self.any_src();
                self.i(Inst::Rmmov(s, d, b));
                if self.r.pct(40) {
                    self.nops();
                }
                let d2 = if self.r.pct(70) { d } else { self.disp(b) };
                let s = self.s();
                self.i(Inst::Mrmov(d2, b, s));
            }
            19 => {
                let l = self.fresh("N");
                self.i(Inst::J(0, l.clone()));
                for _ in 0..self.r.below(3) {
                    let b = self.r.next() & 0xff;
                    self.out.push(Line::item(Item::Data(1, Val::Num(b))));
                }
                self.lab(&l);
            }
            _ => self.nops(),
        }
    }

    fn bad_addr(&mut self) -> u64 {
        match self.r.below(8) {
            0 | 1 => 0xfff9 + self.r.below(7),
            2 => 0x10000,
            3 => 0x10000 + self.r.below(64),
            4 => 1 << 63,
            5 => self.r.below(8).wrapping_neg().wrapping_sub(1),
            6 => (1 << 32) + self.r.below(0x10000),
            _ => self.r.next() | 1 << 40,
        }
    }

    fn fault(&mut self) {
        // something before, in flight
        let n = self.r.below(3);
        for _ in 0..n {
            match self.r.below(3) {
                0 => {
                    let (f, a, b) = (self.r.below(4) as u8, self.any_src(), self.s());
                    self.i(Inst::Op(f, a, b));
                }
                1 => {
                    let s = self.s();
                    self.load(s);
                }
                _ => {
                    let b = *self.r.pick(&self.base);
                    let d = self.disp(b);
                    let s = self.s();
                    self.i(Inst::Rmmov(s, d, b));
                }
            }
        }
        match self.r.below(9) {
            0 | 1 => {
                // invalid instruction code
                let lo = if self.iopq { 0xd0 } else { 0xc0 };
                let b = self.r.range(lo, 0xff);
                self.out.push(Line::item(Item::Data(1, Val::Num(b))));
            }
            2 | 3 => {
                let a = self.bad_addr();
                let b = self.s();
                let x = if self.r.pct(50) { 0 } else { interesting(self.r) };
                self.i(Inst::Irmov(Val::Num(a.wrapping_sub(x)), b));
                let d = (x != 0 || self.r.pct(30)).then_some(x);
                let s = self.any_src();
                if self.r.pct(50) {
                    self.i(Inst::Rmmov(s, d, b));
                } else {
                    let s = self.s();
                    self.i(Inst::Mrmov(d, b, s));
                }
            }
            4 | 5 => {
                let kind = self.r.below(4);
                let a = self.bad_addr().wrapping_add(if kind < 2 { 8 } else { 0 });
                let s = self.s();
                if self.r.pct(50) {
                    self.i(Inst::Irmov(Val::Num(a), RSP));
                } else {
                    self.i(Inst::Irmov(Val::Num(a), s));
                    self.i(Inst::Cmov(0, s, RSP));
                }
                let f = format!("f{}", self.r.idx(self.nfun.max(1)));
                match kind {
                    0 => self.i(Inst::Push(s)),
                    1 if self.nfun > 0 => self.i(Inst::Call(f)),
                    1 => self.i(Inst::Push(s)),
                    2 => self.i(Inst::Pop(s)),
                    _ => self.i(Inst::Ret),
                }
            }
            6 => {
                // control leaves the memory
                let s = self.s();
                let a = if self.r.pct(50) { self.r.range(0xfff0, 0x10010) } else { self.bad_addr() };
                self.i(Inst::Irmov(Val::Num(a), s));
                self.i(Inst::Push(s));
                self.i(Inst::Ret);
            }
            7 => {
                let t = self.trap_target();
                let c = if self.r.pct(50) { 0 } else { 1 + self.r.below(6) as u8 };
                self.i(Inst::J(c, t));
            }
            _ => {
                let t = self.trap_target();
                self.i(Inst::Call(t));
            }
        }
        // something after that must not happen
        for _ in 0..1 + self.r.below(4) {
            match self.r.below(4) {
                0 => {
                    let (f, a, b) = (self.r.below(4) as u8, self.any_src(), self.s());
                    self.i(Inst::Op(f, a, b));
                }
                1 => {
                    let b = *self.r.pick(&self.base);
                    let d = self.disp(b);
                    let s = self.s();
                    self.i(Inst::Rmmov(s, d, b));
                }
                2 => {
                    let s = self.s();
                    let v = interesting(self.r);
                    self.i(Inst::Irmov(Val::Num(v), s));
                }
                _ => {
                    let s = self.s();
                    self.i(Inst::Push(s));
                }
            }
        }
    }

    fn runaway(&mut self) {
        let l = self.fresh("W");
        match self.r.below(4) {
            0 => {
                self.lab(&l);
                self.i(Inst::J(0, l));
            }
            1 => {
                self.lab(&l);
                let (f, a, b) = (self.r.below(2) as u8, self.s(), self.s());
                self.i(Inst::Op(f, a, b));
                let s = self.s();
                self.load(s);
                self.i(Inst::J(0, l));
            }
            2 => {
                // ret to itself
                let s = self.s();
                self.i(Inst::Irmov(Val::Label(l.clone()), s));
                self.lab(&l);
                self.i(Inst::Push(s));
                self.i(Inst::Ret);
            }
            _ => {
                let s = self.s();
                self.lab(&l);
                self.i(Inst::Op(3, s, s));
                self.i(Inst::J(3, l));
                self.i(Inst::Halt);
            }
        }
    }

    /// Small pieces of code that only wrong-path fetches reach.
    fn make_traps(&mut self) {
        for k in 0..2 + self.r.below(4) {
            let l = format!("trap{k}");
            let mut v = vec![Line::label(&l)];
            let s = self.s();
            let insts = match self.r.below(9) {
                0 => vec![Inst::Ret],
                1 => vec![Inst::Pop(RSP), Inst::Ret],
                2 => vec![Inst::Halt],
                3 => vec![Inst::Rmmov(s, Some(interesting(self.r)), s), Inst::Push(s)],
                4 => vec![Inst::Mrmov(Some(0x10000), s, RSP), Inst::Ret],
                5 => vec![Inst::Op(1, s, s), Inst::Op(0, s, RSP)],
                6 => vec![Inst::Call(l.clone()), Inst::Ret],
                7 => vec![Inst::J(0, l.clone())],
                _ => vec![],
            };
            if insts.is_empty() {
                let b = self.r.range(0xc0, 0xff);
                v.push(Line::item(Item::Data(1, Val::Num(b))));
            }
            v.extend(insts.into_iter().map(Line::inst));
            self.extra.push(v);
            self.traps.push(l);
        }
        if self.r.pct(60) {
            // at or just below the end of the memory
            let l = "edge".to_string();
            let (pos, byte) = match self.r.below(5) {
                0 | 1 => (0x10000, None),
                2 => (0xffff, Some(*self.r.pick(&[0x30u64, 0x60, 0x70, 0xa0, 0x10, 0xf0]))),
                3 => (0xfff7 + self.r.below(9), Some(*self.r.pick(&[0x30u64, 0x50, 0x40]))),
                _ => (0xfff8 + self.r.below(8), Some(*self.r.pick(&[0x70u64, 0x80]))),
            };
            let mut v = vec![Line { label: Some(l.clone()), item: Item::Pos(pos), comment: None }];
            if let Some(b) = byte {
                v.push(Line::item(Item::Data(1, Val::Num(b))));
            }
            self.extra.push(v);
            self.traps.push(l);
        }
    }
}

fn size(ls: &[Line]) -> u64 {
    ls.iter().map(|l| l.item.len()).sum()
}

/// One attempt at a program; it may end in any way.
pub fn attempt(r: &mut Rng, o: &Opts) -> Prog {
    let mut pool: Vec<u8> = (0..15).filter(|x| *x != RSP).collect();
    r.shuffle(&mut pool);
    let nb = r.range(1, 3) as usize;
    let ns = r.range(2, 6) as usize;
    let base = pool[..nb].to_vec();
    let loops = pool[nb..nb + 3].to_vec();
    let scratch = pool[nb + 3..nb + 3 + ns].to_vec();
    let mut weights: Vec<u64> = (0..NSTMT).map(|_| if r.pct(30) { 0 } else { 1 + r.below(8) }).collect();
    weights[0] += 1;
    weights[9] += r.below(3);
    weights[11] += r.below(3);
    let data: Vec<(String, u64)> = (0..nb).map(|k| (format!("d{k}"), 8 * r.range(1, 12))).collect();
    let nfun = r.idx(4);
    let mut g = G {
        r,
        out: vec![],
        nlabel: 0,
        base,
        scratch,
        loops,
        data,
        nfun,
        extra: vec![],
        stmts: 0,
        fault_at: None,
        runaway_at: None,
        iopq: o.iopq,
        weights,
        traps: vec![],
    };
    g.make_traps();

    // functions
    let mut sections: Vec<Vec<Line>> = vec![];
    for f in 0..g.nfun {
        g.lab(&format!("f{f}"));
        if f + 1 == g.nfun && g.r.pct(25) {
            // bounded recursion
            let c = g.loops[2];
            let (l, d) = (g.fresh("Q"), g.fresh("Q"));
            let n = g.r.range(1, 5);
            g.i(Inst::Irmov(Val::Num(n), c));
            g.lab(&l);
            let s = g.s();
            g.i(Inst::Irmov(Val::Num(1), s));
            g.i(Inst::Op(1, s, c));
            g.i(Inst::J(1, d.clone()));
            g.i(Inst::Push(s));
            g.i(Inst::Call(l));
            let s = g.s();
            g.i(Inst::Pop(s));
            g.lab(&d);
            g.i(Inst::Ret);
        } else {
            let n = g.r.below(5);
            g.block(n, 1, Some(f));
            g.i(Inst::Ret);
        }
        let s = std::mem::take(&mut g.out);
        sections.push(s);
    }

    // main
    g.lab("main");
    let stack_first = g.r.pct(80);
    if stack_first {
        g.i(Inst::Irmov(Val::Label("stack".into()), RSP));
    }
    let mut bs: Vec<usize> = (0..g.base.len()).collect();
    g.r.shuffle(&mut bs);
    for k in bs {
        let (b, l) = (g.base[k], g.data[k].0.clone());
        g.i(Inst::Irmov(Val::Label(l), b));
    }
    if !stack_first {
        g.i(Inst::Irmov(Val::Label("stack".into()), RSP));
    }
    if o.long {
        let (c, l, s) = (g.loops[0], g.fresh("L"), g.s());
        let n = g.r.range(17_000, 18_000);
        g.i(Inst::Irmov(Val::Num(n), c));
        g.lab(&l);
        if g.r.pct(50) {
            g.i(Inst::Op(0, c, s));
        } else {
            g.load(s);
        }
        g.i(Inst::Irmov(Val::Num(1), s));
        g.i(Inst::Op(1, s, c));
        g.i(Inst::J(4, l));
    }
    let at = g.stmts + 1 + g.r.below(o.size.max(1));
    match o.want {
        Want::Fault => g.fault_at = Some(at),
        Want::Runaway => g.runaway_at = Some(at),
        Want::Halt => {}
    }
    g.block(o.size, 0, None);
    g.i(Inst::Halt);
    let main = std::mem::take(&mut g.out);
    sections.extend(std::mem::take(&mut g.extra));
    for (l, n) in g.data.clone() {
        let mut v = vec![Line::label(&l)];
        let mut left = n;
        while left > 0 {
            let w = match g.r.below(8) {
                0 if left >= 8 => 1,
                1 if left >= 8 => 2,
                2 if left >= 8 => 4,
                _ => left.min(8) as u8,
            };
            let w = if left < 8 { 1 } else { w };
            let x = if w == 8 && g.r.pct(20) {
                Val::Label(g.data[g.r.idx(g.data.len())].0.clone())
            } else {
                Val::Num(interesting(g.r))
            };
            v.push(Line::item(Item::Data(w, x)));
            left -= w as u64;
        }
        sections.push(v);
    }
    let G { r, .. } = g;

    // layout
    let mut taken: Vec<(u64, u64)> = vec![];
    let free = |taken: &[(u64, u64)], a: u64, n: u64| {
        a + n <= MEM as u64 && taken.iter().all(|(b, m)| a + n <= *b || b + m <= a)
    };
    let mut placed: Vec<(u64, Vec<Line>)> = vec![];
    // stack: 1 KiB below the label
    let stack_n = 1024u64;
    let mut rest = vec![];
    for s in sections {
        if let Item::Pos(p) = s[0].item {
            // fixed place; 10 bytes so that nothing else is fetched with it
            taken.push((p, size(&s)));
            placed.push((u64::MAX, s));
        } else {
            rest.push(s);
        }
    }
    let stub = r.pct(30);
    let compact = r.pct(30);
    let main_n = size(&main);
    if stub {
        taken.push((0, 9));
    } else {
        taken.push((0, main_n));
    }
    let place = |r: &mut Rng, taken: &mut Vec<(u64, u64)>, n: u64, gap: u64| -> u64 {
        for t in 0..200 {
            let a = match r.below(5) {
                _ if t > 100 => r.below(MEM as u64 - n),
                0 => MEM as u64 - n,
                1 => r.below(0x400) + taken.iter().map(|t| t.0 + t.1).filter(|e| *e < 0x8000).max().unwrap_or(0),
                2 => r.below(0x1000) * 8 % (MEM as u64 - n),
                _ => r.below(MEM as u64 - n),
            };
            if free(taken, a.saturating_sub(gap), n + gap) {
                taken.push((a, n));
                return a;
            }
        }
        u64::MAX
    };
    let stack = {
        let a = if r.pct(25) && free(&taken, MEM as u64 - stack_n, stack_n) {
            let a = MEM as u64 - stack_n;
            taken.push((a, stack_n));
            a
        } else {
            place(r, &mut taken, stack_n, 16)
        };
        let off = if r.pct(30) { r.below(32) } else { 0 };
        a + stack_n - off
    };
    let mut lines: Vec<Line> = vec![];
    let pos = |a: u64| Line::item(Item::Pos(a));
    let mut chunks: Vec<Vec<Line>> = vec![];
    if stub {
        let a = place(r, &mut taken, main_n, 0);
        chunks.push(vec![pos(0), Line::inst(Inst::J(0, "main".into()))]);
        let mut v = vec![pos(a)];
        v.extend(main);
        chunks.push(v);
    } else {
        let mut v = if r.pct(50) { vec![pos(0)] } else { vec![] };
        v.extend(main);
        if !v.is_empty() && v[0].item != Item::Pos(0) {
            lines.append(&mut v); // must come first
        } else {
            chunks.push(v);
        }
    }
    if compact && !rest.is_empty() {
        // everything else in one run, with alignment directives
        let mut v = vec![];
        let mut n = 0u64;
        for s in rest {
            if r.pct(50) {
                v.push(Line::item(Item::Align(1 << r.below(5))));
                n += 16;
            }
            n += size(&s);
            v.extend(s);
        }
        let a = place(r, &mut taken, n + 16, 0);
        let mut w = vec![pos(a)];
        w.extend(v);
        chunks.push(w);
    } else {
        for s in rest {
            let a = place(r, &mut taken, size(&s), 0);
            let mut v = vec![pos(a)];
            v.extend(s);
            chunks.push(v);
        }
    }
    for (_, s) in placed {
        chunks.push(s);
    }
    chunks.push(vec![pos(stack), Line::label("stack")]);
    if r.pct(50) {
        r.shuffle(&mut chunks);
    }
    lines.extend(chunks.into_iter().flatten());

    // decoration
    let style = if r.pct(70) { r.next() | 1 } else { 0 };
    if style != 0 {
        let mut out = vec![];
        let mut it = lines.into_iter().peekable();
        while let Some(mut l) = it.next() {
            if r.pct(5) {
                out.push(Line { label: None, item: Item::None, comment: None });
            }
            if r.pct(6) {
                l.comment = Some(COMMENTS[r.idx(COMMENTS.len())].into());
            }
            // a label may share the line of the next item
            let bare = l.label.is_some() && l.item == Item::None && l.comment.is_none();
            if bare && it.peek().is_some_and(|n| n.label.is_none() && !matches!(n.item, Item::None | Item::Pos(_))) && r.pct(40)
            {
                if !matches!(it.peek().unwrap().item, Item::Align(_)) {
                    let n = it.next().unwrap();
                    l.item = n.item;
                    l.comment = n.comment;
                }
            }
            out.push(l);
        }
        lines = out;
    }
    Prog { lines, style }
}

const COMMENTS: [&str; 8] =
    [" a comment", "", " x: halt", " # again", "tab\there", " | pipe | bars: 0x10", " \u{4f60}\u{597d} \u{e9}", " .pos 0x100"];

pub struct Case {
    pub prog: Prog,
    pub img: Image,
    pub out: Outcome,
}

/// Other label names, long comments.
fn disguise(r: &mut Rng, p: &mut Prog) {
    if p.style == 0 {
        return;
    }
    if r.pct(30) {
        let kind = r.below(6);
        let mut n = 0;
        p.rename(&mut |old| {
            n += 1;
            match if kind == 5 { r.below(5) } else { kind } {
                // the case is all that differs
                0 => {
                    let w = *r.pick(&["loop", "data", "a", "l1", "done_"]);
                    w.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c }).collect()
                }
                // underscores
                1 => format!("{}{}{}", "_".repeat(r.idx(3)), r.pick(&["x", "_", "L", "_9"]), "_".repeat(r.idx(4))),
                // words of the language
                2 => r
                    .pick(&[
                        "halt", "nop", "ret", "addq", "iaddq", "rax", "rrmovq", "jmp", "jle", "call", "e", "le", "mp",
                        "pushq", "quad", "pos", "align", "byte", "x0", "l", "cmovle", "r8", "HALT", "irmovq", "ne",
                    ])
                    .to_string(),
                // one is the beginning of another
                3 => "abcdefghijklmnop"[..1 + r.idx(16)].to_string(),
                4 if r.pct(20) => format!("{}{n}", "a_very_long_label_name_".repeat(1 + r.idx(30))),
                _ => format!("{old}_{}", r.below(3)),
            }
        });
    }
    if r.pct(10) && !p.lines.is_empty() {
        for _ in 0..1 + r.below(3) {
            let i = r.idx(p.lines.len());
            let n = *r.pick(&[30usize, 80, 200, 250, 255, 256, 257, 300, 1000, 1023, 1024, 4096, 9000]);
            let w = *r.pick(&["x", "- ", "=", "0x10: 30f0 | ", "\u{e9}", ": ", "long words "]);
            let mut c = String::new();
            while c.len() < n {
                c += w;
            }
            p.lines[i].comment = Some(c);
        }
    }
}

/// A program that ends the wanted way and does not modify its own code.
pub fn program(r: &mut Rng, o: &Opts) -> Case {
    let mut o = *o;
    let with_soup = !o.iopq && !o.long && o.want != Want::Runaway && r.pct(50);
    for t in 0.. {
        if t % 40 == 39 {
            o.size = (o.size / 2).max(1);
        }
        assert!(t < 4000, "generator cannot satisfy {o:?}");
        let mut prog = if with_soup && t < 10 { soup(r, &o) } else { attempt(r, &o) };
        disguise(r, &mut prog);
        let Ok(img) = prog.asm() else { continue };
        if img.overlap {
            continue;
        }
        let out = isa::run(&img.mem, o.iopq, o.limit);
        if out.self_modifying {
            continue;
        }
        let ok = match o.want {
            Want::Halt => out.end == End::Halt,
            Want::Fault => matches!(out.end, End::Fault(_)),
            Want::Runaway => out.end == End::Limit,
        };
        if ok {
            return Case { prog, img, out };
        }
    }
    unreachable!()
}

/// A raw memory image: instruction soup, random bytes, or a mixture.
pub fn raw_image(r: &mut Rng) -> Vec<(u64, Vec<u8>)> {
    let mut parts = vec![];
    for k in 0..1 + r.below(4) {
        let n = 1 + r.below(400);
        let at = if k == 0 {
            0
        } else if r.pct(30) {
            MEM as u64 - n
        } else {
            r.below(MEM as u64 - n)
        };
        let mut b: Vec<u8> = vec![];
        while (b.len() as u64) < n {
            match r.below(4) {
                0 => b.push(r.next() as u8),
                1 => {
                    // small code, plausible operands
                    b.push((r.below(13) as u8) << 4 | if r.pct(80) { 0 } else { r.below(16) as u8 });
                    b.push(r.next() as u8);
                    let v = match r.below(3) {
                        0 => r.below(n),
                        1 => interesting(r),
                        _ => r.below(MEM as u64),
                    };
                    b.extend(v.to_le_bytes());
                }
                2 => b.extend([(*r.pick(&[2u8, 6, 10, 11])) << 4 | r.below(4) as u8, r.next() as u8]),
                _ => {
                    b.push(*r.pick(&[0x10u8, 0x90, 0x70, 0x80, 0x73, 0x74]));
                    if b.last().is_some_and(|x| x >> 4 == 7 || x >> 4 == 8) {
                        b.extend(r.below(n).to_le_bytes());
                    }
                }
            }
        }
        b.truncate(n as usize);
        parts.push((at, b));
    }
    parts
}

/// Any program that assembles, however it runs.
pub fn attempt_ok(r: &mut Rng, o: &Opts) -> Prog {
    loop {
        let p = attempt(r, o);
        if p.asm().is_ok() {
            return p;
        }
    }
}

// ---------------------------------------------------------------- soup

/// Straight random instructions over very few registers, executed while they
/// are generated so that the program goes on; control goes wherever pushed,
/// loaded or computed addresses lead.
struct Soup<'a> {
    r: &'a mut Rng,
    m: isa::Machine,
    /// (address, text) of everything emitted.
    out: Vec<(u64, Line)>,
    /// Where code may be put: start, end, label.
    areas: Vec<(u64, u64, String)>,
    at: u64,
    end: u64,
    regs: Vec<u8>,
    win: (u64, u64),
    top: u64,
    n: usize,
}

impl<'a> Soup<'a> {
    fn area(&mut self, n: u64) -> (u64, u64, String) {
        self.n += 1;
        let a = self.top;
        self.top += n + self.r.below(4);
        (a, a + n, format!("A{}", self.n))
    }
    fn reg(&mut self) -> u8 {
        *self.r.pick(&self.regs)
    }
    fn target(&mut self) -> u64 {
        let (a, b) = self.win;
        if self.r.pct(70) {
            a + self.r.below((b - a) / 8) * 8
        } else {
            a + self.r.below(b - a - 8)
        }
    }
    fn value(&mut self) -> Val {
        match self.r.below(10) {
            0..=3 => Val::Num(self.target()),
            4 if !self.areas.is_empty() => Val::Label(self.r.pick(&self.areas).2.clone()),
            _ => Val::Num(interesting(self.r)),
        }
    }
    fn resolve(&self, v: &Val) -> u64 {
        match v {
            Val::Num(n) => *n,
            Val::Label(l) => {
                self.areas.iter().find(|a| a.2 == *l).map(|a| a.0).or_else(|| {
                    self.out.iter().find(|o| o.1.label.as_deref() == Some(l)).map(|o| o.0)
                })
                .unwrap_or(0)
            }
        }
    }
    fn disp(&mut self, base: u8, addr: u64) -> Option<u64> {
        let d = addr.wrapping_sub(self.m.regs[base as usize]);
        (d != 0).then_some(d)
    }
    fn random(&mut self) -> Inst {
        let (a, b) = (self.reg(), self.reg());
        match self.r.below(22) {
            0..=2 => Inst::Op(self.r.below(4) as u8, a, b),
            3 | 4 => Inst::Irmov(self.value(), a),
            5 | 6 => Inst::Cmov(self.r.below(7) as u8, a, b),
            7..=9 => {
                let t = self.target();
                Inst::Mrmov(self.disp(b, t), b, a)
            }
            10 | 11 => {
                let t = self.target();
                Inst::Rmmov(a, self.disp(b, t), b)
            }
            12 | 13 => Inst::Push(a),
            14 | 15 => Inst::Pop(a),
            16 | 17 => Inst::J(self.r.below(7) as u8, String::new()),
            18 => Inst::Call(String::new()),
            19 | 20 => Inst::Ret,
            _ => Inst::Nop,
        }
    }
    /// Emit and execute, if the program can go on from there.
    fn put(&mut self, i: Inst) -> bool {
        let len = i.len();
        let bytes = enc(&i, |v| Ok(self.resolve(v))).unwrap();
        let at = self.at as usize;
        let mut m = self.m.clone();
        m.mem[at..at + bytes.len()].copy_from_slice(&bytes);
        m.pc = self.at;
        let Ok(s) = m.step() else { return false };
        if s.write.is_some_and(|w| w < self.win.0 || w + 8 > self.win.1) {
            return false;
        }
        let next = m.pc;
        let line = (self.at, Line::inst(i));
        if next == self.at + len {
            self.at = next;
            self.out.push(line);
        } else {
            let Some(k) = self.areas.iter().position(|a| a.0 == next) else { return false };
            let (a, e, l) = self.areas.swap_remove(k);
            let rest = (self.at + len, self.end);
            if rest.1 > rest.0 + 40 {
                self.n += 1;
                self.areas.push((rest.0, rest.1, format!("A{}", self.n)));
            }
            self.out.push(line);
            self.out.push((a, Line::label(&l)));
            self.at = a;
            self.end = e;
        }
        self.m = m;
        true
    }
    fn one(&mut self) -> bool {
        if self.end - self.at < 40 {
            // leave before the area is full
            if self.areas.is_empty() {
                let a = self.area(200);
                self.areas.push(a);
            }
            let l = self.r.pick(&self.areas).2.clone();
            return self.put(Inst::J(0, l));
        }
        let i = match self.random() {
            Inst::J(c, _) => {
                if self.areas.is_empty() || self.r.pct(60) {
                    let n = 50 + self.r.below(100);
                    let a = self.area(n);
                    self.areas.push(a);
                }
                let l = self.r.pick(&self.areas).2.clone();
                Inst::J(c, l)
            }
            Inst::Call(_) => {
                if self.areas.is_empty() || self.r.pct(50) {
                    let n = 50 + self.r.below(100);
                    let a = self.area(n);
                    self.areas.push(a);
                }
                Inst::Call(self.r.pick(&self.areas).2.clone())
            }
            i => i,
        };
        self.put(i)
    }
}

fn soup(r: &mut Rng, o: &Opts) -> Prog {
    let mut pool: Vec<u8> = (0..15).filter(|x| *x != RSP).collect();
    r.shuffle(&mut pool);
    let mut regs = pool[..1 + r.idx(4)].to_vec();
    for _ in 0..1 + r.idx(2) {
        regs.push(RSP);
    }
    let high = r.pct(20);
    let wn = 64 + 8 * r.below(40);
    let win = if high { (MEM as u64 - wn, MEM as u64) } else { (0x6000, 0x6000 + wn) };
    let mut s = Soup {
        r,
        m: isa::Machine::new(&zero_mem(), false),
        out: vec![],
        areas: vec![],
        at: 0,
        end: 300,
        regs,
        win,
        top: 300,
        n: 0,
    };
    for _ in 0..1 + s.r.below(4) {
        let n = 50 + s.r.below(100);
        let a = s.area(n);
        s.areas.push(a);
    }
    let mut data = vec![];
    for k in 0..wn / 8 {
        let v = s.value();
        let x = s.resolve(&v);
        isa::wr64(&mut s.m.mem, win.0 + 8 * k, x);
        // areas move on, so keep the number
        data.push(Line::item(Item::Data(8, Val::Num(x))));
    }
    for k in 0..s.regs.len() {
        if s.r.pct(80) {
            let (v, q) = (Val::Num(s.target()), s.regs[k]);
            s.put(Inst::Irmov(v, q));
        }
    }
    let want = 4 + o.size * 3;
    let mut tries = 0;
    while (s.m.n) < want && tries < want * 20 && s.top < 0x5000 {
        tries += 1;
        s.one();
    }
    // the end, and something behind it
    match o.want {
        Want::Fault => match s.r.below(6) {
            0 | 1 => {
                let b = s.r.range(0xc0, 0xff);
                s.out.push((s.at, Line::item(Item::Data(1, Val::Num(b)))));
                s.at += 1;
            }
            k => {
                let bad = match s.r.below(4) {
                    0 => 0xfff9 + s.r.below(7),
                    1 => 0x10000 + s.r.below(64),
                    2 => s.r.next() | 1 << 50,
                    _ => s.r.below(8).wrapping_neg().wrapping_sub(1),
                };
                let (a, b) = (s.reg(), s.reg());
                let d = s.disp(b, bad);
                match k {
                    2 | 3 => s.out.push((s.at, Line::inst(Inst::Rmmov(a, d, b)))),
                    _ => s.out.push((s.at, Line::inst(Inst::Mrmov(d, b, a)))),
                }
                s.at += 10;
            }
        },
        _ => {
            s.out.push((s.at, Line::inst(Inst::Halt)));
            s.at += 1;
        }
    }
    for _ in 0..s.r.below(4) {
        if s.at + 10 > s.end {
            break;
        }
        let i = s.random();
        if !matches!(i, Inst::J(..) | Inst::Call(_)) {
            let n = i.len();
            s.out.push((s.at, Line::inst(i)));
            s.at += n;
        }
    }
    // what was never reached is full of things a wrong path may fetch
    for (a, e, l) in s.areas.clone() {
        s.out.push((a, Line::label(&l)));
        let mut at = a;
        for _ in 0..s.r.below(4) {
            if at + 10 > e {
                break;
            }
            let i = match s.random() {
                Inst::J(..) | Inst::Call(_) => {
                    let b = s.r.next() & 0xff;
                    s.out.push((at, Line::item(Item::Data(1, Val::Num(b)))));
                    at += 1;
                    continue;
                }
                i => i,
            };
            let n = i.len();
            s.out.push((at, Line::inst(i)));
            at += n;
        }
    }
    let mut out = s.out;
    out.sort_by_key(|l| l.0);
    let mut lines = vec![];
    let mut at = 0;
    for (a, l) in out {
        if a != at {
            lines.push(Line::item(Item::Pos(a)));
        }
        at = a + l.item.len();
        lines.push(l);
    }
    lines.push(Line::item(Item::Pos(win.0)));
    lines.extend(data);
    Prog { lines, style: if r.pct(30) { r.next() | 1 } else { 0 } }
}
