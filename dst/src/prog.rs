//! Program representation, rendering to Y86 assembly text, and the reference
//! assembler (independent of /repo).
use crate::prng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const MEM: usize = 1 << 16;

pub const REGS: [&str; 15] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13",
    "r14",
];
pub const RSP: u8 = 4;
pub const RNONE: u8 = 15;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    Num(u64),
    Label(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Inst {
    Halt,
    Nop,
    Ret,
    Cmov(u8, u8, u8),
    Irmov(Val, u8),
    Rmmov(u8, Option<u64>, u8),
    /// disp, base, dst
    Mrmov(Option<u64>, u8, u8),
    Op(u8, u8, u8),
    Iop(u8, Val, u8),
    J(u8, String),
    Call(String),
    Push(u8),
    Pop(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    None,
    Inst(Inst),
    Data(u8, Val),
    Pos(u64),
    Align(u64),
    /// Verbatim text (used for sources that must not assemble).
    Raw(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Line {
    pub label: Option<String>,
    pub item: Item,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub comment: Option<String>,
}

impl Line {
    pub fn inst(i: Inst) -> Line {
        Line { label: None, item: Item::Inst(i), comment: None }
    }
    pub fn label(l: &str) -> Line {
        Line { label: Some(l.into()), item: Item::None, comment: None }
    }
    pub fn item(i: Item) -> Line {
        Line { label: None, item: i, comment: None }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Prog {
    pub lines: Vec<Line>,
    /// Seed of the textual style (number bases, blanks, ...); 0 is plain.
    pub style: u64,
}

impl Inst {
    pub fn len(&self) -> u64 {
        use Inst::*;
        match self {
            Halt | Nop | Ret => 1,
            Cmov(..) | Op(..) | Push(_) | Pop(_) => 2,
            J(..) | Call(_) => 9,
            Irmov(..) | Rmmov(..) | Mrmov(..) | Iop(..) => 10,
        }
    }
}

impl Item {
    pub fn len(&self) -> u64 {
        match self {
            Item::Inst(i) => i.len(),
            Item::Data(w, _) => *w as u64,
            _ => 0,
        }
    }
}

struct Style {
    rng: Option<Rng>,
}

impl Style {
    fn pct(&mut self, p: u64) -> bool {
        self.rng.as_mut().is_some_and(|r| r.pct(p))
    }
    fn sp(&mut self) -> &'static str {
        if self.pct(15) {
            *self.rng.as_mut().unwrap().pick(&["  ", "\t", " \t ", "    "])
        } else {
            " "
        }
    }
    /// Optional white space.
    fn osp(&mut self) -> &'static str {
        if self.pct(12) {
            self.sp()
        } else {
            ""
        }
    }
    fn num(&mut self, v: u64) -> String {
        let s = v as i64;
        let Some(r) = self.rng.as_mut() else {
            return if (s.unsigned_abs()) < 4096 { format!("{s}") } else { format!("{v:#x}") };
        };
        match r.below(10) {
            0..=3 => format!("{s}"),
            4..=6 => format!("{v:#x}"),
            7 => format!("0x{v:016X}"),
            8 if s < 0 => format!("-{:#x}", v.wrapping_neg()),
            _ if s >= 0 => format!("{s:03}"),
            _ => format!("{v:#x}"),
        }
    }
    fn val(&mut self, v: &Val, imm: bool) -> String {
        match v {
            Val::Num(n) => format!("{}{}", if imm { "$" } else { "" }, self.num(*n)),
            Val::Label(l) => l.clone(),
        }
    }
}

pub const CC_NAMES: [&str; 7] = ["mp", "le", "l", "e", "ne", "ge", "g"];
pub const OP_NAMES: [&str; 4] = ["addq", "subq", "andq", "xorq"];

fn reg(r: u8) -> String {
    format!("%{}", REGS[r as usize])
}

impl Prog {
    pub fn new(lines: Vec<Line>) -> Prog {
        Prog { lines, style: 0 }
    }

    fn inst_text(i: &Inst, st: &mut Style) -> String {
        use Inst::*;
        let addr = |d: &Option<u64>, b: u8, st: &mut Style| match d {
            Some(d) => format!("{}({})", st.num(*d), reg(b)),
            None => format!("({})", reg(b)),
        };
        match i {
            Halt => "halt".into(),
            Nop => "nop".into(),
            Ret => "ret".into(),
            Cmov(c, a, b) => {
                let n = if *c == 0 { "rrmovq".to_string() } else { format!("cmov{}", CC_NAMES[*c as usize]) };
                format!("{n}{}{}{},{}{}", st.sp(), reg(*a), st.osp(), st.sp(), reg(*b))
            }
            Irmov(v, r) => {
                let v = st.val(v, true);
                format!("irmovq{}{v}{},{}{}", st.sp(), st.osp(), st.sp(), reg(*r))
            }
            Rmmov(a, d, b) => {
                let m = addr(d, *b, st);
                format!("rmmovq{}{}{},{}{m}", st.sp(), reg(*a), st.osp(), st.sp())
            }
            Mrmov(d, b, a) => {
                let m = addr(d, *b, st);
                format!("mrmovq{}{m}{},{}{}", st.sp(), st.osp(), st.sp(), reg(*a))
            }
            Op(f, a, b) => {
                format!("{}{}{}{},{}{}", OP_NAMES[*f as usize], st.sp(), reg(*a), st.osp(), st.sp(), reg(*b))
            }
            Iop(f, v, b) => {
                let v = st.val(v, true);
                format!("i{}{}{v}{},{}{}", OP_NAMES[*f as usize], st.sp(), st.osp(), st.sp(), reg(*b))
            }
            J(c, l) => format!("j{}{}{l}", CC_NAMES[*c as usize], st.sp()),
            Call(l) => format!("call{}{l}", st.sp()),
            Push(r) => format!("pushq{}{}", st.sp(), reg(*r)),
            Pop(r) => format!("popq{}{}", st.sp(), reg(*r)),
        }
    }

    /// Text of every line (without line terminators).
    pub fn line_texts(&self) -> Vec<String> {
        let mut st = Style { rng: (self.style != 0).then(|| Rng::new(self.style)) };
        self.lines
            .iter()
            .map(|l| {
                let mut s = String::new();
                if l.label.is_none() && l.item != Item::None {
                    s += match st.rng.as_mut() {
                        None => "    ",
                        Some(r) => *r.pick(&["    ", "", "\t", " ", "  \t"]),
                    };
                } else {
                    s += st.osp();
                }
                if let Some(lb) = &l.label {
                    s += lb;
                    s += ":";
                    if l.item != Item::None {
                        s += st.sp();
                    }
                }
                match &l.item {
                    Item::None => {}
                    Item::Inst(i) => s += &Self::inst_text(i, &mut st),
                    Item::Data(w, v) => {
                        let d = match w {
                            1 => ".byte",
                            2 => ".word",
                            4 => ".long",
                            _ => ".quad",
                        };
                        let v = st.val(v, false);
                        s += &format!("{d}{}{v}", st.sp());
                    }
                    Item::Pos(n) => {
                        let n = st.num(*n);
                        s += &format!(".pos{}{n}", st.sp())
                    }
                    Item::Align(n) => {
                        let n = st.num(*n);
                        s += &format!(".align{}{n}", st.sp())
                    }
                    Item::Raw(t) => s += t,
                }
                if let Some(c) = &l.comment {
                    s += st.osp();
                    s += "#";
                    s += c;
                } else {
                    s += st.osp();
                }
                s
            })
            .collect()
    }

    pub fn render(&self) -> String {
        let mut r = Rng::new(self.style ^ 0x5eed);
        let (mixed, crlf) = (self.style != 0 && r.pct(5), self.style != 0 && r.pct(15));
        let last = self.style == 0 || r.pct(80);
        let mut s = String::new();
        let l = self.line_texts();
        for (i, t) in l.iter().enumerate() {
            s += t;
            if i + 1 < l.len() || last {
                s += if crlf || mixed && r.pct(40) { "\r\n" } else { "\n" };
            }
        }
        s
    }

    /// Give labels other names.
    pub fn rename(&mut self, f: &mut dyn FnMut(&str) -> String) {
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let mut used = std::collections::BTreeSet::new();
        for l in &self.lines {
            if let Some(lb) = &l.label {
                if map.contains_key(lb) {
                    continue;
                }
                let mut n = f(lb);
                while !used.insert(n.clone()) {
                    n.push('_');
                }
                map.insert(lb.clone(), n);
            }
        }
        let go = |l: &mut String| {
            if let Some(n) = map.get(l) {
                *l = n.clone();
            }
        };
        let val = |v: &mut Val| {
            if let Val::Label(l) = v {
                go(l)
            }
        };
        for l in &mut self.lines {
            if let Some(lb) = &mut l.label {
                go(lb)
            }
            match &mut l.item {
                Item::Data(_, v) | Item::Inst(Inst::Irmov(v, _) | Inst::Iop(_, v, _)) => val(v),
                Item::Inst(Inst::J(_, l) | Inst::Call(l)) => go(l),
                _ => {}
            }
        }
    }

    pub fn asm(&self) -> Result<Image, String> {
        assemble(self)
    }
}

/// What the reference assembler makes of a program.
#[derive(Clone)]
pub struct Image {
    pub mem: Box<[u8; MEM]>,
    /// (address, number of bytes) of each line.
    pub lines: Vec<(Option<u64>, u64)>,
    pub labels: BTreeMap<String, u64>,
    /// Two lines contribute to the same byte.
    pub overlap: bool,
}

impl Image {
    pub fn line_of(&self, addr: u64) -> Option<usize> {
        self.lines.iter().position(|l| l.0 == Some(addr)).map(|i| i + 1)
    }
}

pub fn zero_mem() -> Box<[u8; MEM]> {
    vec![0u8; MEM].into_boxed_slice().try_into().unwrap()
}

pub fn enc(i: &Inst, v: impl Fn(&Val) -> Result<u64, String>) -> Result<Vec<u8>, String> {
    use Inst::*;
    let lab = |l: &String| v(&Val::Label(l.clone()));
    let with = |op: u8, r: Option<u8>, c: Option<u64>| {
        let mut b = vec![op];
        b.extend(r);
        if let Some(c) = c {
            b.extend(c.to_le_bytes());
        }
        b
    };
    Ok(match i {
        Halt => with(0x00, None, None),
        Nop => with(0x10, None, None),
        Cmov(c, a, b) => with(0x20 | c, Some(a << 4 | b), None),
        Irmov(x, b) => with(0x30, Some(0xf0 | b), Some(v(x)?)),
        Rmmov(a, d, b) => with(0x40, Some(a << 4 | b), Some(d.unwrap_or(0))),
        Mrmov(d, b, a) => with(0x50, Some(a << 4 | b), Some(d.unwrap_or(0))),
        Op(f, a, b) => with(0x60 | f, Some(a << 4 | b), None),
        J(c, l) => with(0x70 | c, None, Some(lab(l)?)),
        Call(l) => with(0x80, None, Some(lab(l)?)),
        Ret => with(0x90, None, None),
        Push(a) => with(0xa0, Some(a << 4 | 0xf), None),
        Pop(a) => with(0xb0, Some(a << 4 | 0xf), None),
        Iop(f, x, b) => with(0xc0 | f, Some(0xf0 | b), Some(v(x)?)),
    })
}

fn assemble(p: &Prog) -> Result<Image, String> {
    let mut cur: u64 = 0;
    let mut lines = Vec::new();
    let mut labels = BTreeMap::new();
    for (n, l) in p.lines.iter().enumerate() {
        match &l.item {
            Item::Pos(a) => cur = *a,
            Item::Align(a) => {
                if a.count_ones() != 1 {
                    return Err(format!("line {}: align", n + 1));
                }
                if cur & (a - 1) != 0 {
                    cur = (cur | (a - 1)).checked_add(1).ok_or("align")?;
                }
            }
            Item::Raw(_) => return Err(format!("line {}: raw text", n + 1)),
            _ => {}
        }
        let has = l.label.is_some() || l.item != Item::None;
        lines.push((has.then_some(cur), l.item.len()));
        if let Some(lb) = &l.label {
            if labels.insert(lb.clone(), cur).is_some() {
                return Err(format!("duplicate label {lb}"));
            }
        }
        cur = cur.checked_add(l.item.len()).ok_or("address")?;
        if cur > MEM as u64 {
            return Err(format!("line {}: outside memory", n + 1));
        }
    }
    let mut mem = zero_mem();
    let mut used = vec![false; MEM];
    let mut overlap = false;
    for (l, (addr, len)) in p.lines.iter().zip(&lines) {
        let val = |v: &Val| match v {
            Val::Num(n) => Ok(*n),
            Val::Label(l) => labels.get(l).copied().ok_or(format!("undefined label {l}")),
        };
        let bytes = match &l.item {
            Item::Inst(i) => enc(i, val)?,
            Item::Data(w, v) => val(v)?.to_le_bytes()[..*w as usize].to_vec(),
            _ => continue,
        };
        assert_eq!(bytes.len() as u64, *len);
        let a = addr.unwrap() as usize;
        for (i, b) in bytes.iter().enumerate() {
            mem[a + i] = *b;
            overlap |= used[a + i];
            used[a + i] = true;
        }
    }
    Ok(Image { mem, lines, labels, overlap })
}
