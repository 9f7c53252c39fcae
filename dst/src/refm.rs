//! What the debugger should show: the reference machines, cycle by cycle.
use crate::isa::{self, End, Machine, Step};
use crate::pipe::{Pipe, Sig, St};
use crate::prog::*;

pub enum RefM {
    Seq { m: Machine, before: [u64; 16], step: Option<Step>, end: Option<End>, cycle: u64, plus: bool },
    Pipe(Box<Pipe>),
}

impl RefM {
    pub fn new(mem: &[u8; MEM], arch: &str) -> RefM {
        if arch == "pipe_std" {
            let mut p = Pipe::new(mem);
            p.want_signals = true;
            RefM::Pipe(Box::new(p))
        } else {
            RefM::Seq {
                m: Machine::new(mem, false),
                before: [0; 16],
                step: None,
                end: None,
                cycle: 0,
                plus: arch == "seq_plus_std",
            }
        }
    }
    /// One cycle.
    pub fn step(&mut self) {
        match self {
            RefM::Seq { m, before, step, end, cycle, .. } => {
                *before = m.regs;
                *cycle += 1;
                match m.step() {
                    Ok(s) => *step = Some(s),
                    Err((e, s)) => {
                        *step = Some(s);
                        *end = Some(e);
                    }
                }
            }
            RefM::Pipe(p) => p.step(),
        }
    }
    pub fn cycle(&self) -> u64 {
        match self {
            RefM::Seq { cycle, .. } => *cycle,
            RefM::Pipe(p) => p.cycle,
        }
    }
    pub fn pc(&self) -> u64 {
        match self {
            RefM::Seq { step, .. } => step.map_or(0, |s| s.pc),
            RefM::Pipe(p) => p.obs.f_pc,
        }
    }
    pub fn done(&self) -> bool {
        match self {
            RefM::Seq { end, .. } => end.is_some(),
            RefM::Pipe(p) => p.done,
        }
    }
    /// An instruction has faulted; its own destinations are unspecified.
    pub fn faulted(&self) -> bool {
        match self {
            RefM::Seq { end, .. } => end.is_some_and(|e| e != End::Halt),
            RefM::Pipe(p) => p.done && p.obs.st[3] != St::Hlt,
        }
    }
    pub fn regs(&self) -> [u64; 16] {
        match self {
            RefM::Seq { m, .. } => m.regs,
            RefM::Pipe(p) => p.regs,
        }
    }
    /// The signals whose value the architecture's description settles.
    pub fn signals(&self) -> Vec<(&'static str, Sig)> {
        use Sig::{N, S};
        match self {
            RefM::Pipe(p) if p.cycle > 0 => p.signals.clone(),
            RefM::Seq { m, before, step: Some(s), end, plus, .. } => {
                let fetch_err = *end == Some(End::Fault(isa::Fault::Fetch));
                let bad_code = *end == Some(End::Fault(isa::Fault::Code));
                let data_err = *end == Some(End::Fault(isa::Fault::Data));
                let st = match end {
                    None => St::Aok,
                    Some(End::Halt) => St::Hlt,
                    Some(_) if bad_code => St::Ins,
                    Some(_) => St::Adr,
                };
                let b = |x: bool| N(x as u64);
                let mut v = vec![("pc", N(s.pc)), ("stat", S(st)), ("prog_term", b(end.is_some()))];
                if fetch_err {
                    return v;
                }
                let ic = s.icode;
                let (ra, rb) = (before[s.ra as usize & 15], before[s.rb as usize & 15]);
                let rsp = before[RSP as usize];
                v.push(("icode", N(ic as u64)));
                v.push(("ifun", N(s.ifun as u64)));
                v.push(("instr_valid", b(!bad_code)));
                if bad_code {
                    return v;
                }
                v.push(("need_regids", b(matches!(ic, 2..=6 | 10 | 11))));
                v.push(("need_valC", b(matches!(ic, 3 | 4 | 5 | 7 | 8))));
                v.push(("valP", N(s.pc + isa::ilen(ic))));
                v.push(("srcA", N(s.src_a() as u64)));
                v.push(("srcB", N(s.src_b() as u64)));
                v.push(("dstE", N(s.dst_e() as u64)));
                v.push(("dstM", N(s.dst_m() as u64)));
                v.push(("alufun", N(if ic == 6 { s.ifun as u64 } else { 0 })));
                v.push(("set_cc", b(ic == 6)));
                v.push(("mem_read", b(matches!(ic, 5 | 9 | 11))));
                v.push(("mem_write", b(matches!(ic, 4 | 8 | 10))));
                let mut opt = |c: bool, n: &'static str, x: u64| {
                    if c {
                        v.push((n, N(x)));
                    }
                };
                opt(*plus && matches!(ic, 3 | 4 | 5 | 7 | 8), "valC", s.val_c);
                let a = match ic {
                    2 | 6 => ra,
                    3..=5 => s.val_c,
                    8 | 10 => 8u64.wrapping_neg(),
                    _ => 8,
                };
                opt(matches!(ic, 2..=6 | 8..=11), "aluA", a);
                let bb = match ic {
                    2 | 3 => 0,
                    8..=11 => rsp,
                    _ => rb,
                };
                opt(matches!(ic, 2..=6 | 8..=11), "aluB", bb);
                opt(matches!(ic, 2..=6 | 8..=11), "valE", s.val_e);
                opt(matches!(ic, 2 | 7), "cnd", s.cnd as u64);
                opt(s.read.is_some() || s.write.is_some(), "mem_addr", s.read.or(s.write).unwrap_or(0));
                opt(matches!(ic, 4 | 10), "mem_data", ra);
                opt(ic == 8, "mem_data", s.pc + 9);
                if let Some(a) = s.read.filter(|_| !data_err) {
                    opt(true, "valM", isa::rd64(&m.mem, a).unwrap_or(0));
                }
                opt(!*plus && end.is_none(), "new_pc", m.pc);
                v
            }
            _ => vec![],
        }
    }
}
