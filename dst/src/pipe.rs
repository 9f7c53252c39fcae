//! Cycle-accurate reference model of the five-stage PIPE processor of CS:APP
//! (independent of /repo).
use crate::isa::{alu, ilen, rd64, wr64, Cc};
use crate::prog::{MEM, RNONE, RSP};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Aok,
    Bub,
    Hlt,
    Adr,
    Ins,
}

impl St {
    fn bad(self) -> bool {
        matches!(self, St::Hlt | St::Adr | St::Ins)
    }
    pub fn name(self) -> &'static str {
        match self {
            St::Aok => "Aok",
            St::Bub => "Bub",
            St::Hlt => "Hlt",
            St::Adr => "Adr",
            St::Ins => "Ins",
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct D {
    pub st: St,
    pub icode: u8,
    pub ifun: u8,
    pub ra: u8,
    pub rb: u8,
    pub val_c: u64,
    pub val_p: u64,
}
#[derive(Clone, Copy, Debug)]
pub struct E {
    pub st: St,
    pub icode: u8,
    pub ifun: u8,
    pub val_c: u64,
    pub val_a: u64,
    pub val_b: u64,
    pub dst_e: u8,
    pub dst_m: u8,
}
#[derive(Clone, Copy, Debug)]
pub struct M {
    pub st: St,
    pub icode: u8,
    pub cnd: bool,
    pub val_e: u64,
    pub val_a: u64,
    pub dst_e: u8,
    pub dst_m: u8,
}
#[derive(Clone, Copy, Debug)]
pub struct W {
    pub st: St,
    pub icode: u8,
    pub val_e: u64,
    pub val_m: u64,
    pub dst_e: u8,
    pub dst_m: u8,
}

const D0: D = D { st: St::Bub, icode: 1, ifun: 0, ra: RNONE, rb: RNONE, val_c: 0, val_p: 0 };
const E0: E =
    E { st: St::Bub, icode: 1, ifun: 0, val_c: 0, val_a: 0, val_b: 0, dst_e: RNONE, dst_m: RNONE };
const M0: M = M { st: St::Bub, icode: 1, cnd: false, val_e: 0, val_a: 0, dst_e: RNONE, dst_m: RNONE };
const W0: W = W { st: St::Bub, icode: 1, val_e: 0, val_m: 0, dst_e: RNONE, dst_m: RNONE };

/// What can be observed at the end of a cycle.
#[derive(Clone, Copy, Debug)]
pub struct Obs {
    pub f_pc: u64,
    /// Instruction code in each stage (the fetched one first).
    pub icode: [u8; 5],
    /// Status in D, E, M, W.
    pub st: [St; 4],
    pub dst: [(u8, u8); 3],
    pub val_e: u64,
    pub cnd: bool,
    pub cc: Cc,
    pub load_use: bool,
    pub mispredict: bool,
    pub ret_wait: bool,
    pub fetch_err: bool,
}

pub struct Pipe {
    pub mem: Box<[u8; MEM]>,
    pub regs: [u64; 16],
    pub cc: Cc,
    pub cycle: u64,
    pub done: bool,
    pred: u64,
    d: D,
    e: E,
    m: M,
    w: W,
    fetched: Vec<bool>,
    written: Vec<bool>,
    pub obs: Obs,
    pub n_load_use: u64,
    pub n_mispredict: u64,
    pub n_ret: u64,
    pub n_spec_fault: u64,
    pub signature: u64,
    /// Record the signals of every cycle.
    pub want_signals: bool,
    pub signals: Vec<(&'static str, Sig)>,
}

/// The value of a named signal.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sig {
    N(u64),
    S(St),
}

impl Pipe {
    pub fn new(mem: &[u8; MEM]) -> Pipe {
        Pipe {
            mem: Box::new(*mem),
            regs: [0; 16],
            cc: Cc::default(),
            cycle: 0,
            done: false,
            pred: 0,
            d: D0,
            e: E0,
            m: M0,
            w: W0,
            fetched: vec![false; MEM + 16],
            written: vec![false; MEM + 16],
            obs: Obs {
                f_pc: 0,
                icode: [1; 5],
                st: [St::Bub; 4],
                dst: [(RNONE, RNONE); 3],
                val_e: 0,
                cnd: false,
                cc: Cc::default(),
                load_use: false,
                mispredict: false,
                ret_wait: false,
                fetch_err: false,
            },
            n_load_use: 0,
            n_mispredict: 0,
            n_ret: 0,
            n_spec_fault: 0,
            signature: 0,
            want_signals: false,
            signals: vec![],
        }
    }

    /// Is any byte that was ever fetched (even speculatively) also written?
    pub fn fetch_write_conflict(&self) -> bool {
        self.fetched.iter().zip(&self.written).any(|(a, b)| *a && *b)
    }

    pub fn step(&mut self) {
        let (d, e, m, w) = (self.d, self.e, self.m, self.w);
        self.cycle += 1;

        // write back
        if w.dst_e != RNONE {
            self.regs[w.dst_e as usize] = w.val_e;
        }
        if w.dst_m != RNONE {
            self.regs[w.dst_m as usize] = w.val_m;
        }

        // fetch
        let f_pc = if m.icode == 7 && !m.cnd {
            m.val_a
        } else if w.icode == 9 {
            w.val_m
        } else {
            self.pred
        };
        let mut f = D { st: St::Adr, icode: 1, ifun: 15, ..D0 };
        f.val_p = f_pc.wrapping_add(1);
        if f_pc < MEM as u64 {
            let p = f_pc as usize;
            self.fetched[p..p + 10].fill(true);
            let ic = self.mem[p] >> 4;
            let len = ilen(ic) as usize;
            if p + len <= MEM {
                f.icode = ic;
                f.ifun = self.mem[p] & 15;
                f.st = match ic {
                    0 => St::Hlt,
                    12.. => St::Ins,
                    _ => St::Aok,
                };
                let regs = matches!(ic, 2..=6 | 10 | 11);
                if regs {
                    f.ra = self.mem[p + 1] >> 4;
                    f.rb = self.mem[p + 1] & 15;
                }
                if matches!(ic, 3 | 4 | 5 | 7 | 8) {
                    let o = p + 1 + regs as usize;
                    f.val_c = u64::from_le_bytes(self.mem[o..o + 8].try_into().unwrap());
                }
                let l = if ic < 12 { len as u64 } else { 1 };
                f.val_p = f_pc.wrapping_add(l);
            }
        }
        let f_pred = if matches!(f.icode, 7 | 8) { f.val_c } else { f.val_p };

        // memory
        let mut m_st = m.st;
        let mut val_m = 0;
        let (rd, wr) = (matches!(m.icode, 5 | 9 | 11), matches!(m.icode, 4 | 8 | 10));
        if rd || wr {
            let a = if matches!(m.icode, 9 | 11) { m.val_a } else { m.val_e };
            if a > MEM as u64 - 8 {
                m_st = St::Adr;
            } else if wr {
                wr64(&mut self.mem, a, m.val_a);
                self.written[a as usize..a as usize + 8].fill(true);
            } else {
                val_m = rd64(&self.mem, a).unwrap();
            }
        }

        // execute
        let a = match e.icode {
            2 | 6 => e.val_a,
            3..=5 => e.val_c,
            8 | 10 => 8u64.wrapping_neg(),
            9 | 11 => 8,
            _ => 0,
        };
        let b_in = match e.icode {
            4..=6 | 8..=11 => e.val_b,
            _ => 0,
        };
        let fun = if e.icode == 6 { e.ifun } else { 0 };
        let val_e = alu(fun, a, b_in).unwrap_or(0);
        if e.icode == 6 && !m_st.bad() && !w.st.bad() {
            self.cc = if fun < 4 { Cc::of_op(fun, a, b_in) } else { Cc { sf: false, of: false, zf: true } };
        }
        let cnd = self.cc.test(e.ifun);
        let e_dst_e = if e.icode == 2 && !cnd { RNONE } else { e.dst_e };

        // decode
        let src_a = match d.icode {
            2 | 4 | 6 | 10 => d.ra,
            9 | 11 => RSP,
            _ => RNONE,
        };
        let src_b = match d.icode {
            4..=6 => d.rb,
            8..=11 => RSP,
            _ => RNONE,
        };
        let read = |r: u8| -> u64 {
            if r == RNONE {
                return 0;
            }
            for (dst, v) in
                [(e_dst_e, val_e), (m.dst_m, val_m), (m.dst_e, m.val_e), (w.dst_m, w.val_m), (w.dst_e, w.val_e)]
            {
                if dst == r {
                    return v;
                }
            }
            self.regs[r as usize]
        };
        let nd = E {
            st: d.st,
            icode: d.icode,
            ifun: d.ifun,
            val_c: d.val_c,
            val_a: if matches!(d.icode, 7 | 8) { d.val_p } else { read(src_a) },
            val_b: read(src_b),
            dst_e: match d.icode {
                2 | 3 | 6 => d.rb,
                8..=11 => RSP,
                _ => RNONE,
            },
            dst_m: if matches!(d.icode, 5 | 11) { d.ra } else { RNONE },
        };

        // control
        let load_use = matches!(e.icode, 5 | 11) && (e.dst_m == src_a || e.dst_m == src_b);
        let mispredict = e.icode == 7 && !cnd;
        let ret_wait = d.icode == 9 || e.icode == 9 || m.icode == 9;
        self.obs = Obs {
            f_pc,
            icode: [f.icode, d.icode, e.icode, m.icode, w.icode],
            st: [d.st, e.st, m.st, w.st],
            dst: [(e.dst_e, e.dst_m), (m.dst_e, m.dst_m), (w.dst_e, w.dst_m)],
            val_e,
            cnd,
            cc: self.cc,
            load_use,
            mispredict,
            ret_wait,
            fetch_err: f.st == St::Adr,
        };
        self.n_load_use += load_use as u64;
        self.n_mispredict += mispredict as u64;
        self.n_ret += (m.icode == 9) as u64;
        self.n_spec_fault += (mispredict && (d.st.bad() || f.st.bad())) as u64;
        self.signature = crate::prng::mix(&[
            self.signature,
            u64::from_le_bytes([f.icode, d.icode, e.icode, m.icode, w.icode, load_use as u8, mispredict as u8, 0]),
        ]);
        if w.st.bad() {
            self.done = true;
        }
        if self.want_signals {
            use Sig::{N, S};
            let b = |x: bool| N(x as u64);
            let exc = m_st.bad() || w.st.bad();
            let mut v: Vec<(&'static str, Sig)> = vec![
                ("f_pc", N(f_pc)),
                ("f_icode", N(f.icode as u64)),
                ("f_ifun", N(f.ifun as u64)),
                ("instr_valid", b(f.icode < 12)),
                ("f_stat", S(f.st)),
                ("need_regids", b(matches!(f.icode, 2..=6 | 10 | 11))),
                ("need_valC", b(matches!(f.icode, 3 | 4 | 5 | 7 | 8))),
                ("f_valP", N(f.val_p)),
                ("f_pred_pc", N(f_pred)),
                ("d_srcA", N(src_a as u64)),
                ("d_srcB", N(src_b as u64)),
                ("d_dstE", N(nd.dst_e as u64)),
                ("d_dstM", N(nd.dst_m as u64)),
                ("d_icode", N(d.icode as u64)),
                ("d_ifun", N(d.ifun as u64)),
                ("d_stat", S(d.st)),
                ("alufun", N(fun as u64)),
                ("set_cc", b(e.icode == 6 && !exc)),
                ("e_ifun", N(e.ifun as u64)),
                ("e_cnd", b(cnd)),
                ("e_dstE", N(e_dst_e as u64)),
                ("e_dstM", N(e.dst_m as u64)),
                ("e_icode", N(e.icode as u64)),
                ("e_stat", S(e.st)),
                ("mem_read", b(rd)),
                ("mem_write", b(wr)),
                ("m_icode", N(m.icode as u64)),
                ("m_dstE", N(m.dst_e as u64)),
                ("m_dstM", N(m.dst_m as u64)),
                ("w_dstE", N(w.dst_e as u64)),
                ("w_dstM", N(w.dst_m as u64)),
                ("prog_stat", S(if w.st == St::Bub { St::Aok } else { w.st })),
                ("prog_term", b(w.st.bad())),
                ("f_stall", b(load_use || ret_wait)),
                ("f_bubble", b(false)),
                ("d_stall", b(load_use)),
                ("d_bubble", b(mispredict || !load_use && ret_wait)),
                ("e_stall", b(false)),
                ("e_bubble", b(mispredict || load_use)),
                ("m_stall", b(false)),
                ("m_bubble", b(exc)),
                ("w_stall", b(w.st.bad())),
                ("w_bubble", b(false)),
            ];
            // the data memory may go on reporting the error that ended the program
            if rd || wr || w.st != St::Adr {
                v.push(("m_stat", S(m_st)));
            }
            let mut opt = |c: bool, n: &'static str, x: u64| {
                if c {
                    v.push((n, N(x)));
                }
            };
            opt(matches!(f.icode, 3 | 4 | 5 | 7 | 8), "f_valC", f.val_c);
            opt(matches!(f.icode, 2..=6 | 10 | 11), "f_rA", f.ra as u64);
            opt(matches!(f.icode, 2..=6 | 10 | 11), "f_rB", f.rb as u64);
            opt(src_a != RNONE || matches!(d.icode, 7 | 8), "d_valA", nd.val_a);
            opt(src_b != RNONE, "d_valB", nd.val_b);
            opt(matches!(d.icode, 3 | 4 | 5 | 7 | 8), "d_valC", d.val_c);
            opt(alu(fun, a, b_in).is_some(), "aluA", a);
            opt(alu(fun, a, b_in).is_some(), "aluB", b_in);
            opt(alu(fun, a, b_in).is_some(), "e_valE", val_e);
            opt(matches!(e.icode, 2 | 4 | 6..=11), "e_valA", e.val_a);
            let addr = if matches!(m.icode, 9 | 11) { m.val_a } else { m.val_e };
            opt(rd || wr, "mem_addr", addr);
            opt(wr, "mem_data", m.val_a);
            opt(rd && m_st != St::Adr, "m_valM", val_m);
            opt(matches!(m.icode, 2..=6 | 8..=11), "m_valE", m.val_e);
            opt(matches!(w.icode, 2..=6 | 8..=11), "w_valE", w.val_e);
            opt(matches!(w.icode, 5 | 9 | 11) && w.st == St::Aok, "w_valM", w.val_m);
            self.signals = v;
        }

        // latch
        if !(load_use || ret_wait) {
            self.pred = f_pred;
        }
        if !load_use {
            self.d = if mispredict || ret_wait { D0 } else { f };
        }
        self.e = if mispredict || load_use { E0 } else { nd };
        self.m = if m_st.bad() || w.st.bad() {
            M0
        } else {
            M { st: e.st, icode: e.icode, cnd, val_e, val_a: e.val_a, dst_e: e_dst_e, dst_m: e.dst_m }
        };
        if !w.st.bad() {
            self.w = W { st: m_st, icode: m.icode, val_e: m.val_e, val_m, dst_e: m.dst_e, dst_m: m.dst_m };
        }
    }
}
