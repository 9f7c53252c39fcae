//! Reference Y86-64 ISA interpreter (independent of /repo), with precise
//! faults and an execution trace.
use crate::prog::{MEM, RNONE, RSP};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Instruction (partly) outside the memory.
    Fetch,
    /// Invalid instruction code.
    Code,
    /// Data access outside the memory.
    Data,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Halt,
    Fault(Fault),
    /// Still running after the step limit.
    Limit,
    /// An instruction whose encoding the ISA does not define.
    Undefined,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Cc {
    pub sf: bool,
    pub of: bool,
    pub zf: bool,
}

impl Cc {
    pub fn test(self, c: u8) -> bool {
        let lt = self.sf != self.of;
        match c {
            0 => true,
            1 => lt || self.zf,
            2 => lt,
            3 => self.zf,
            4 => !self.zf,
            5 => !lt,
            6 => !lt && !self.zf,
            _ => false,
        }
    }
    pub fn of_op(f: u8, a: u64, b: u64) -> Cc {
        let (a, b) = (a as i64, b as i64);
        let (e, of) = match f {
            0 => b.overflowing_add(a),
            1 => b.overflowing_sub(a),
            2 => (b & a, false),
            _ => (b ^ a, false),
        };
        Cc { sf: e < 0, of, zf: e == 0 }
    }
}

pub fn alu(f: u8, a: u64, b: u64) -> Option<u64> {
    Some(match f {
        0 => b.wrapping_add(a),
        1 => b.wrapping_sub(a),
        2 => b & a,
        3 => b ^ a,
        _ => return None,
    })
}

pub fn ilen(code: u8) -> u64 {
    match code {
        2 | 6 | 10 | 11 => 2,
        7 | 8 => 9,
        3 | 4 | 5 | 12 => 10,
        _ => 1,
    }
}

/// One executed instruction.
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub pc: u64,
    pub icode: u8,
    pub ifun: u8,
    pub ra: u8,
    pub rb: u8,
    pub val_c: u64,
    pub cnd: bool,
    pub val_e: u64,
    pub write: Option<u64>,
    pub read: Option<u64>,
}

impl Step {
    pub fn src_a(&self) -> u8 {
        match self.icode {
            2 | 4 | 6 | 10 => self.ra,
            9 | 11 => RSP,
            _ => RNONE,
        }
    }
    pub fn src_b(&self) -> u8 {
        match self.icode {
            4 | 5 | 6 => self.rb,
            8 | 9 | 10 | 11 => RSP,
            _ => RNONE,
        }
    }
    pub fn dst_m(&self) -> u8 {
        match self.icode {
            5 | 11 => self.ra,
            _ => RNONE,
        }
    }
    pub fn dst_e(&self) -> u8 {
        match self.icode {
            2 if self.cnd => self.rb,
            3 | 6 | 12 => self.rb,
            8..=11 => RSP,
            _ => RNONE,
        }
    }
}

#[derive(Clone)]
pub struct Machine {
    pub mem: Box<[u8; MEM]>,
    pub regs: [u64; 16],
    pub cc: Cc,
    pub pc: u64,
    /// Executed instructions, a final halt included, a faulting one excluded.
    pub n: u64,
    pub iopq: bool,
}

pub fn rd64(m: &[u8; MEM], a: u64) -> Option<u64> {
    if a > MEM as u64 - 8 {
        return None;
    }
    Some(u64::from_le_bytes(m[a as usize..a as usize + 8].try_into().unwrap()))
}

pub fn wr64(m: &mut [u8; MEM], a: u64, v: u64) -> bool {
    if a > MEM as u64 - 8 {
        return false;
    }
    m[a as usize..a as usize + 8].copy_from_slice(&v.to_le_bytes());
    true
}

impl Machine {
    /// `iopq`: the machine implements the iopq extension.
    pub fn new(mem: &[u8; MEM], iopq: bool) -> Machine {
        Machine { mem: Box::new(*mem), regs: [0; 16], cc: Cc::default(), pc: 0, n: 0, iopq }
    }

    /// Execute one instruction.  Nothing changes if it faults.
    pub fn step(&mut self) -> Result<Step, (End, Step)> {
        let mut s = Step {
            pc: self.pc,
            icode: 1,
            ifun: 0,
            ra: RNONE,
            rb: RNONE,
            val_c: 0,
            cnd: false,
            val_e: 0,
            write: None,
            read: None,
        };
        let pc = self.pc;
        if pc >= MEM as u64 {
            return Err((End::Fault(Fault::Fetch), s));
        }
        let b = self.mem[pc as usize];
        s.icode = b >> 4;
        s.ifun = b & 15;
        if s.icode > 12 || s.icode == 12 && !self.iopq {
            return Err((End::Fault(Fault::Code), s));
        }
        let len = ilen(s.icode);
        if pc + len > MEM as u64 {
            return Err((End::Fault(Fault::Fetch), s));
        }
        let has_regs = !matches!(s.icode, 0 | 1 | 7 | 8 | 9);
        if has_regs {
            let r = self.mem[pc as usize + 1];
            s.ra = r >> 4;
            s.rb = r & 15;
        }
        if len >= 9 {
            let o = pc as usize + 1 + has_regs as usize;
            s.val_c = u64::from_le_bytes(self.mem[o..o + 8].try_into().unwrap());
        }
        let defined = match s.icode {
            0 | 1 | 8 | 9 => s.ifun == 0,
            2 => s.ifun <= 6 && s.ra != RNONE && s.rb != RNONE,
            3 => s.ifun == 0 && s.ra == RNONE && s.rb != RNONE,
            4 | 5 => s.ifun == 0 && s.ra != RNONE && s.rb != RNONE,
            6 => s.ifun <= 3 && s.ra != RNONE && s.rb != RNONE,
            7 => s.ifun <= 6,
            10 | 11 => s.ifun == 0 && s.ra != RNONE && s.rb == RNONE,
            _ => s.ifun <= 3 && s.ra == RNONE && s.rb != RNONE,
        };
        if !defined {
            return Err((End::Undefined, s));
        }
        let mut next = pc + len;
        let data = End::Fault(Fault::Data);
        let ra = self.regs[s.ra as usize];
        let rb = self.regs[s.rb as usize];
        let rsp = self.regs[RSP as usize];
        s.cnd = self.cc.test(s.ifun);
        match s.icode {
            0 => {
                self.n += 1;
                return Err((End::Halt, s));
            }
            1 => {}
            2 => {
                s.val_e = ra;
                if s.cnd {
                    self.regs[s.rb as usize] = ra;
                }
            }
            3 => {
                s.val_e = s.val_c;
                self.regs[s.rb as usize] = s.val_c;
            }
            4 => {
                s.val_e = rb.wrapping_add(s.val_c);
                s.write = Some(s.val_e);
                if !wr64(&mut self.mem, s.val_e, ra) {
                    return Err((data, s));
                }
            }
            5 => {
                s.val_e = rb.wrapping_add(s.val_c);
                s.read = Some(s.val_e);
                let Some(v) = rd64(&self.mem, s.val_e) else { return Err((data, s)) };
                self.regs[s.ra as usize] = v;
            }
            6 => {
                s.val_e = alu(s.ifun, ra, rb).unwrap();
                self.cc = Cc::of_op(s.ifun, ra, rb);
                self.regs[s.rb as usize] = s.val_e;
            }
            7 => {
                if s.cnd {
                    next = s.val_c;
                }
            }
            8 | 10 => {
                s.val_e = rsp.wrapping_sub(8);
                s.write = Some(s.val_e);
                let v = if s.icode == 8 { next } else { ra };
                if !wr64(&mut self.mem, s.val_e, v) {
                    return Err((data, s));
                }
                self.regs[RSP as usize] = s.val_e;
                if s.icode == 8 {
                    next = s.val_c;
                }
            }
            9 | 11 => {
                s.val_e = rsp.wrapping_add(8);
                s.read = Some(rsp);
                let Some(v) = rd64(&self.mem, rsp) else { return Err((data, s)) };
                self.regs[RSP as usize] = s.val_e;
                if s.icode == 9 {
                    next = v;
                } else {
                    self.regs[s.ra as usize] = v;
                }
            }
            _ => {
                s.val_e = alu(s.ifun, s.val_c, rb).unwrap();
                self.cc = Cc::of_op(s.ifun, s.val_c, rb);
                self.regs[s.rb as usize] = s.val_e;
            }
        }
        self.pc = next;
        self.n += 1;
        Ok(s)
    }
}

pub struct Outcome {
    pub m: Machine,
    pub end: End,
    /// Every instruction that started (halt or faulting one included).
    pub trace: Vec<Step>,
    /// Some byte of an executed instruction is written at some time.
    pub self_modifying: bool,
    /// Final pc does not point into a known fetch (only for statistics).
    pub uses_iopq: bool,
}

pub fn run(mem: &[u8; MEM], iopq: bool, limit: u64) -> Outcome {
    let mut m = Machine::new(mem, iopq);
    let mut trace = Vec::new();
    let mut end = End::Limit;
    let mut fetched = vec![false; MEM + 16];
    let mut written = vec![false; MEM + 16];
    let mut uses_iopq = false;
    while (trace.len() as u64) < limit {
        let (s, e) = match m.step() {
            Ok(s) => (s, None),
            Err((e, s)) => (s, Some(e)),
        };
        if s.pc < MEM as u64 {
            for k in 0..ilen(s.icode) {
                fetched[(s.pc + k) as usize] = true;
            }
        }
        uses_iopq |= s.icode == 12;
        if let Some(a) = s.write {
            if a <= MEM as u64 - 8 {
                for k in 0..8 {
                    written[(a + k) as usize] = true;
                }
            }
        }
        trace.push(s);
        if let Some(e) = e {
            end = e;
            break;
        }
    }
    let self_modifying = fetched.iter().zip(&written).any(|(a, b)| *a && *b);
    Outcome { m, end, trace, self_modifying, uses_iopq }
}

/// Number of cycles the five-stage pipeline needs for a program that halts.
pub fn pipe_cycles(trace: &[Step]) -> u64 {
    let mut c = trace.len() as u64 + 4;
    for (i, s) in trace.iter().enumerate() {
        if s.dst_m() != RNONE {
            if let Some(t) = trace.get(i + 1) {
                c += (t.src_a() == s.dst_m() || t.src_b() == s.dst_m()) as u64;
            }
        }
        c += match s.icode {
            7 if !s.cnd => 2,
            9 => 3,
            _ => 0,
        };
    }
    c
}
