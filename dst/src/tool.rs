//! Simulation of the command line tools: yas, yis and ysim as real binaries
//! on a simulated disk and terminal, with failing, short and interrupted calls.
use crate::common::*;
use crate::gen::{self, Opts, Want};
use crate::isa::{self, End, Step};
use crate::pipe::Pipe;
use crate::prng::{mix, Rng};
use crate::prog::*;
use crate::shimrun::{self, Out};
use crate::simapi::{COp, Fault, FaultKind, Policy, SimRes, SimSc};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Prog(Prog),
    /// Any bytes, hex.
    Bytes(String),
    Missing,
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Exec {
    pub bin: String,
    pub args: Vec<String>,
    pub seed: u64,
    pub entropy: u64,
    pub policy: Policy,
    #[serde(default)]
    pub faults: Vec<Fault>,
    /// yis gets the bytes in another layout, made from this seed.
    #[serde(default)]
    pub relay: Option<u64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub choices: Option<Vec<u32>>,
}

/// What is known about the input.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Truth {
    Good,
    /// Must be refused.
    Bad,
    Unknown,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ToolSc {
    pub prop: String,
    pub input: Input,
    pub truth: Truth,
    /// The input is an object file.
    pub object: bool,
    /// Something is in the output file already.
    pub old_output: bool,
    pub execs: Vec<Exec>,
    /// Cycle limit given to ysim (C13).
    #[serde(default)]
    pub limit: Option<u64>,
    /// The input file, as the command line names it.
    #[serde(default = "usual_name")]
    pub name: String,
}

fn usual_name() -> String {
    "a.ys".into()
}

/// The path on the simulated disk.
fn full(name: &str) -> String {
    let n = if name.starts_with('/') { name.to_string() } else { format!("/sim/{name}") };
    let parts: Vec<&str> = n.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
    format!("/{}", parts.join("/"))
}

/// The output `yas` chooses by itself.
fn own_output(name: &str) -> String {
    std::path::Path::new(name).with_extension("yo").to_string_lossy().into_owned()
}

/// The output file of an execution of `yas`.
fn output_of(sc: &ToolSc, e: &Exec) -> String {
    match e.args.iter().position(|a| a == "-o" || a == "--output") {
        Some(i) => e.args[i + 1].clone(),
        None => own_output(&sc.name),
    }
}

fn a_name(r: &mut Rng, object: bool) -> String {
    if r.pct(40) {
        return if object { "a.yo" } else { "a.ys" }.into();
    }
    let ext = if object { *r.pick(&["yo", "obj", "yo.yo"]) } else { *r.pick(&["ys", "ya", "ys.ys", "txt", "y", "yo.ys", "YS"]) };
    match r.below(13) {
        0 => "prog".into(),
        1 => format!("a.b.{ext}"),
        2 => format!("x.{ext}"),
        3 => format!("d/e.{ext}"),
        4 => format!("./a.{ext}"),
        5 => format!("sp ace.{ext}"),
        6 => format!("/sim/abs.{ext}"),
        7 => format!("\u{e9}\u{4f60}.{ext}"),
        8 => ".hidden".into(),
        9 => "dir.d/prog".into(),
        10 => format!("{}.{ext}", "long_name_".repeat(1 + r.idx(20))),
        11 => format!("x.yo.d/../q/./r.{ext}").replace("x.yo.d/../", ""),
        _ => format!("a-1_{}.{ext}", r.below(1000)),
    }
}

const MAX_STEPS: u64 = 4_000_000;

// ---------------------------------------------------------------- generation

fn policy(r: &mut Rng) -> Policy {
    let calm = r.pct(20);
    Policy {
        mode: 0,
        short_pct: if calm { 0 } else { *r.pick(&[10, 40, 90]) },
        eintr_pct: if calm { 0 } else { *r.pick(&[0, 5, 30]) },
        window: 65536,
        ..Default::default()
    }
}

fn exec(r: &mut Rng, bin: &str, args: &[&str]) -> Exec {
    Exec {
        bin: bin.into(),
        args: args.iter().map(|s| s.to_string()).collect(),
        seed: r.next(),
        entropy: r.next(),
        policy: policy(r),
        faults: vec![],
        relay: None,
        choices: None,
    }
}

const ARCHS: [&str; 3] = crate::arch::ARCHS;

const BAD_LINES: [&str; 40] = [
    "foo", "addq %rax", "irmovq 5, %rax", "rmmovq (%rax), %rbx", "jmp 0x10", "pushq $3", "popq",
    "addq %rax, %r15", ".quad", ".pos", "mrmovq 8(%rax) %rbx", "halt halt", "irmovq $0x, %rax",
    "irmovq $99999999999999999999, %rax", ".byte $3", "call (%rax)", ": nop", "1abc: halt", "a b: nop",
    "%rax", "irmovq $0x1ffffffffffffffff, %rax", "mrmovq (%rax, %rbx), %rcx", "cmovx %rax, %rbx",
    "jq L", "rrmovq $1, %rax", "addq $1, %rax", "iaddq %rax, %rbx", ".align", ".align 3", ".align 12",
    ".pos 0x20000", ".pos 99999999", ".quad nowhere_at_all", "call nowhere_at_all",
    "irmovq nowhere_at_all, %rdx", "jle nowhere_at_all", "ret %rax", "nop; nop", ".word 'a'", "irmovq $, %rax",
];

fn spoil(r: &mut Rng, p: &mut Prog) {
    let n = p.lines.len();
    let at = r.idx(n + 1);
    match r.below(10) {
        1 => {
            p.lines.push(Line::item(Item::Pos(MEM as u64 - 1 - r.below(6))));
            p.lines.push(Line::item(Item::Data(8, Val::Num(1))));
        }
        2 => {
            p.lines.push(Line::item(Item::Pos(MEM as u64 - 1 - r.below(5))));
            p.lines.push(Line::inst(Inst::Irmov(Val::Num(1), 2)));
        }
        _ => p.lines.insert(at, Line::item(Item::Raw(r.pick(&BAD_LINES).to_string()))),
    }
}

fn mutate(r: &mut Rng, t: &str) -> Vec<u8> {
    let mut b = t.as_bytes().to_vec();
    for _ in 0..1 + r.below(4) {
        if b.is_empty() {
            break;
        }
        let i = r.idx(b.len());
        match r.below(8) {
            0 => {
                b.remove(i);
            }
            1 => b.insert(i, *r.pick(b"$%(),:#.x0-9\n \tz|")),
            2 => b[i] = *r.pick(b"$%(),:#.x0-9\n \tz|\r\0"),
            3 => {
                let k = r.idx(b.len());
                b.swap(i, k)
            }
            4 => {
                let j = (i + r.idx(20)).min(b.len());
                b.drain(i..j);
            }
            5 => {
                let j = (i + r.idx(20)).min(b.len());
                let c = b[i..j].to_vec();
                let k = r.idx(b.len());
                b.splice(k..k, c);
            }
            6 => {
                let s: &[u8] = *r.pick(&[
                    &b"9223372036854775808"[..], b"0xffffffffffffffff", b"-0x8000000000000000", b".pos 0xffff\n",
                    b"\xc3\xa9", b".align 0x8000000000000000\n", b".align 0\n", b".pos -1\n", b"0x10000",
                ]);
                b.splice(i..i, s.iter().copied());
            }
            _ => b.truncate(i),
        }
    }
    b
}

/// The object file that the program deserves.
fn object_text(p: &Prog, img: &Image) -> String {
    let mut s = String::new();
    for (t, (a, n)) in p.line_texts().iter().zip(&img.lines) {
        match a {
            Some(a) => {
                let b = hex(&img.mem[*a as usize..(*a + *n) as usize]);
                s += &format!("0x{a:04x}: {b:<21}| {t}\n");
            }
            None => s += &format!("{:29}| {t}\n", ""),
        }
    }
    s
}

/// The same bytes on lines of other lengths, in another order and spelling.
fn relay(seed: u64, p: &Prog, img: &Image) -> String {
    let r = &mut Rng::new(seed);
    let texts = p.line_texts();
    let mut parts: Vec<(u64, u64, String)> = vec![];
    for (t, (a, n)) in texts.iter().zip(&img.lines) {
        let Some(a) = a else { continue };
        match parts.last_mut() {
            Some((b, m, u)) if *b + *m == *a && r.pct(60) => {
                *m += n;
                *u += t;
            }
            _ => parts.push((*a, *n, t.clone())),
        }
    }
    let most = *r.pick(&[1u64, 3, 10, 16, 40, 300]);
    let mut ls = vec![];
    for (a, n, t) in parts {
        let mut at = a;
        while at < a + n {
            let k = (1 + r.below(most)).min(a + n - at);
            let mut b = hex(&img.mem[at as usize..(at + k) as usize]);
            if r.pct(20) {
                b = b.to_uppercase();
            }
            let addr = match r.below(6) {
                0 => format!("{at:#x}"),
                1 => format!("{at:#010x}"),
                2 => format!("0x{at:X}"),
                _ => format!("{at:#06x}"),
            };
            let sp = |r: &mut Rng| r.pick(&["", " ", "  ", "\t", "      "]).to_string();
            ls.push(format!("{}{addr}{}:{}{b}{}| {t}", sp(r), sp(r), sp(r), " ".repeat(r.idx(30))));
            at += k;
        }
    }
    if r.pct(50) {
        for i in (1..ls.len()).rev() {
            let j = r.idx(i + 1);
            ls.swap(i, j);
        }
    }
    for _ in 0..r.below(4) {
        let i = r.idx(ls.len() + 1);
        ls.insert(i, r.pick(&["", "                             | # nothing", "  | ", "0x0000:                      | L:"]).to_string());
    }
    let nl = *r.pick(&["\n", "\n", "\r\n"]);
    ls.join(nl) + if r.pct(80) { nl } else { "" }
}

fn spoil_object(r: &mut Rng, t: &str) -> String {
    let mut ls: Vec<String> = t.lines().map(|s| s.to_string()).collect();
    let at = r.idx(ls.len() + 1);
    if r.pct(40) {
        // a letter in the bytes of some line
        let n = ls.len();
        for k in 0..n {
            let l = &mut ls[(at + k) % n];
            let Some((c, b)) = l.find(':').zip(l.find('|')) else { continue };
            if c > b || l[c + 1..b].trim().is_empty() || !l.is_ascii() {
                continue;
            }
            let from = c + 2;
            let len = l[c + 1..b].trim().len();
            let i = from + r.idx(len);
            l.replace_range(i..i + 1, *r.pick(&["+", "-", "x", "g", " ", "_", "G", ".", "/", ":", "@", "`"]));
            return ls.join("\n") + "\n";
        }
    }
    let bad = match r.below(12) {
        0 => "0x0020: 1 | nop".to_string(),
        1 => "0x0020: 101 | nop nop".into(),
        2 => "0x0020: 1g | nop".into(),
        3 => "0xffff: 30f0 | x".into(),
        4 => "0x10000: 10 | nop".into(),
        5 => "0xffffffffffffffff: 1010 | nop".into(),
        6 => "-1: 10 | nop".into(),
        7 => "zz: 10 | nop".into(),
        8 => "0x: 10 | nop".into(),
        9 => "0x20: 1\u{e9} | nop".into(),
        10 => "0x20: 10 10 1 | nop".into(),
        _ => format!("{:#x}: 30f0{} | x", MEM - 1 - r.idx(8), "00".repeat(8)),
    };
    ls.insert(at, bad);
    ls.join("\n") + "\n"
}

fn faults(r: &mut Rng, bin: &str, inp: &str, outp: &str) -> Vec<Fault> {
    let mut v = vec![];
    let e = |r: &mut Rng, l: &[i32]| FaultKind::Errno(*r.pick(l));
    use libc::*;
    let writes = bin == "yas" || outp.ends_with(".html");
    for _ in 0..1 + r.below(2) {
        let (site, obj, nth, kind): (&str, &str, u32, FaultKind) = match r.below(10) {
            0 => ("open", inp, 0, e(r, &[EACCES, EMFILE, ENFILE, EIO, ELOOP, ENOENT, EPERM])),
            1 | 2 => ("read", inp, r.below(4) as u32, e(r, &[EIO, EISDIR, EIO])),
            3..=6 if writes && r.pct(10) => {
                // nobody calls these today
                (*r.pick(&["rename", "fsync"]), outp, 0, e(r, &[EIO, ENOSPC, EACCES, EXDEV]))
            }
            3 if writes => ("open", outp, 0, e(r, &[EACCES, ENOSPC, EROFS, EMFILE, EISDIR, EDQUOT])),
            4..=6 if writes => {
                let n = r.below(3) as u32;
                for k in 0..n {
                    v.push(Fault {
                        site: "write".into(),
                        obj: outp.into(),
                        nth: k,
                        kind: FaultKind::Short(1 + r.below(300) as u32),
                        sticky: false,
                    });
                }
                ("write", outp, n, e(r, &[ENOSPC, EIO, EDQUOT, EFBIG, ENOSPC]))
            }
            7 => ("write", "stderr", 0, e(r, &[EPIPE, EIO])),
            _ => {
                let n = if r.pct(40) { 0 } else { r.below(*r.clone().pick(&[3, 20, 100])) as u32 };
                ("write", "stdout", n, e(r, &[EPIPE, EIO, ENOSPC]))
            }
        };
        v.push(Fault { site: site.into(), obj: obj.into(), nth, kind, sticky: r.pct(60) });
    }
    v
}

fn small(r: &mut Rng) -> u64 {
    *r.pick(&[2, 5, 12, 25, 45])
}

fn ysim_args(r: &mut Rng, name: &str, limit: u64) -> Vec<String> {
    let a = *r.pick(&ARCHS);
    let mut v = vec![];
    if a != "seq_std" || r.pct(50) {
        v.push(r.pick(&["-A", "--arch"]).to_string());
        v.push(a.to_string());
    }
    if limit != 100_000 {
        v.push("--max-cpu-cycle".into());
        v.push(limit.to_string());
    }
    let at = if r.pct(50) { 0 } else { v.len() };
    v.insert(at, name.into());
    v
}

pub fn generate(prop: &str, seed: u64) -> ToolSc {
    let r = &mut Rng::new(seed);
    let mut o = Opts { want: Want::Halt, iopq: false, size: small(r), limit: 900, long: false };
    let mut sc = ToolSc {
        prop: prop.into(),
        input: Input::Missing,
        truth: Truth::Good,
        object: false,
        old_output: r.pct(30),
        execs: vec![],
        limit: None,
        name: String::new(),
    };
    let bin7 = *r.pick(&["yas", "yas", "yis", "ysim"]);
    sc.object = prop == "C07" && bin7 == "yis";
    sc.name = a_name(r, sc.object);
    let name = sc.name.clone();
    match prop {
        "C02" => {
            let info = r.pct(25);
            let args = if info {
                let a = *r.pick(&ARCHS);
                if r.pct(50) {
                    vec!["-I".to_string(), "-A".into(), a.into()]
                } else {
                    vec![name.clone(), "--arch".into(), a.into(), "--info".into()]
                }
            } else {
                o.want = *r.pick(&[Want::Halt, Want::Halt, Want::Fault]);
                ysim_args(r, &name, 2000)
            };
            let mut args = args;
            if r.pct(20) {
                args.push(r.pick(&["-v", "-vv", "-vvv", "-q"]).to_string());
            }
            sc.input = Input::Prog(gen::program(r, &o).prog);
            for k in 0..3 {
                let mut e = exec(r, "ysim", &[]);
                e.args = args.clone();
                if k == 0 {
                    e.policy = Policy::default();
                    e.entropy = 0;
                }
                sc.execs.push(e);
            }
        }
        "C06" => {
            o.iopq = r.pct(20);
            let c = gen::program(r, &o);
            sc.input = Input::Prog(c.prog);
            let mut e = exec(r, "yas", &[&name]);
            if r.pct(30) {
                e.args = vec!["-o".into(), r.pick(&["a.yo", "zz", "./b.o", "/sim/o.ut"]).to_string(), name.clone()];
            }
            let out = output_of(&sc, &e);
            sc.execs.push(e);
            let mut e = exec(r, "yis", &[&out]);
            if r.pct(30) {
                e.relay = Some(r.next());
            }
            sc.execs.push(e);
            if !c.out.uses_iopq {
                let mut e = exec(r, "ysim", &[]);
                e.args = ysim_args(r, &name, 100_000);
                sc.execs.push(e);
            }
            if r.pct(8) {
                let mut e = exec(r, "ysim", &[]);
                let a = r.pick(&ARCHS).to_string();
                e.args = vec![if r.pct(50) { "-I".into() } else { "--info".into() }, "--arch".into(), a];
                sc.execs.push(e);
            }
        }
        "C07" => {
            let bin = bin7;
            let kind = r.below(20);
            let want = if r.pct(15) { Want::Fault } else { Want::Halt };
            o.want = want;
            o.iopq = r.pct(10) && bin != "ysim";
            let mut c = gen::program(r, &o);
            let mut faulty = r.pct(60);
            match kind {
                0 => {
                    sc.input = Input::Missing;
                    sc.truth = Truth::Bad;
                }
                1 => {
                    sc.input = Input::Dir;
                    sc.truth = Truth::Bad;
                }
                2 => {
                    // not text
                    let mut b = c.prog.render().into_bytes();
                    let i = r.idx(b.len() + 1);
                    b.splice(i..i, [*r.pick(&[0x80u8, 0xc3, 0xff, 0xfe]), b'\n']);
                    sc.input = Input::Bytes(hex(&b));
                    sc.truth = Truth::Bad;
                }
                3..=6 => {
                    faulty = r.pct(15);
                    sc.truth = Truth::Bad;
                    if sc.object {
                        let t = spoil_object(r, &object_text(&c.prog, &c.img));
                        sc.input = Input::Bytes(hex(t.as_bytes()));
                    } else {
                        spoil(r, &mut c.prog);
                        sc.input = Input::Prog(c.prog);
                    }
                }
                7..=10 if !sc.object => {
                    faulty = r.pct(15);
                    sc.truth = Truth::Unknown;
                    let t = c.prog.render();
                    sc.input = Input::Bytes(hex(&mutate(r, &t)));
                }
                _ => {
                    faulty |= r.pct(80);
                    if sc.object {
                        sc.input = Input::Bytes(hex(object_text(&c.prog, &c.img).as_bytes()));
                        if want == Want::Fault {
                            sc.truth = Truth::Bad;
                        }
                    } else {
                        sc.input = Input::Prog(c.prog);
                    }
                }
            }
            let inp = full(&name);
            let mut outp = if sc.object { String::new() } else { full(&own_output(&name)) };
            let mut e = exec(r, bin, &[&name]);
            match bin {
                "ysim" if r.pct(15) => {
                    // architecture information, with or without a program
                    let a = *r.pick(&ARCHS);
                    e.args = vec!["--info".into(), "-A".into(), a.into()];
                    if r.pct(50) {
                        e.args.push(name.clone());
                    } else if sc.truth == Truth::Bad {
                        // nobody reads the input
                        sc.truth = Truth::Unknown;
                    }
                    if sc.truth == Truth::Good {
                        // the program is assembled and not run
                        faulty |= r.pct(80);
                    }
                    outp = format!("/sim/{a}_dependency_graph.html");
                }
                "ysim" => e.args = ysim_args(r, &name, 700),
                "yas" if r.pct(25) => {
                    if r.pct(25) {
                        e.args.extend(["-o".into(), "nodir/x.yo".into()]);
                        if sc.truth == Truth::Good {
                            sc.truth = Truth::Bad;
                        }
                    } else {
                        e.args.extend(["--output".into(), "other.bin".into()]);
                        outp = "/sim/other.bin".into();
                    }
                }
                _ => {}
            }
            if faulty {
                e.faults = faults(r, bin, &inp, &outp);
            }
            if bin == "ysim" && r.pct(4) {
                e.args = vec!["-A".into(), "no_such_arch".into(), name.clone()];
                sc.truth = Truth::Bad;
            }
            sc.execs.push(e);
        }
        "C13" => {
            let runaway = r.pct(45);
            if runaway {
                o.want = Want::Runaway;
                o.limit = 500;
            } else if r.pct(20) {
                o.want = Want::Fault;
            }
            let c = gen::program(r, &o);
            let arch = *r.pick(&ARCHS);
            let t = if runaway { r.below(400) } else { own_cycles(&c.img.mem, arch, 4000).unwrap_or(50) };
            let limit = match r.below(12) {
                0 => t.saturating_sub(1),
                1..=3 => t.saturating_sub(1),
                4 | 5 => t,
                6 => t + 1,
                7 => r.below(t + 2),
                8 => r.below(12),
                9 if !runaway => u64::MAX - r.below(2),
                10 if r.pct(if runaway { 20 } else { 5 }) => 100_000,
                10 if !runaway => round(r, t),
                _ => t.saturating_sub(2),
            };
            sc.limit = Some(limit);
            sc.input = Input::Prog(c.prog);
            let mut e = exec(r, "ysim", &[&name, "--arch", arch]);
            if limit != 100_000 {
                e.args.push(format!("--max-cpu-cycle={limit}"));
            }
            sc.execs.push(e);
        }
        _ => unreachable!(),
    }
    sc
}

/// A little more than a power of two.
pub fn round(r: &mut Rng, t: u64) -> u64 {
    let p = 1 << if r.pct(50) { *r.pick(&[16, 31, 32, 63]) } else { r.range(10, 63) };
    if r.pct(75) {
        p + r.below(t + 2)
    } else {
        p - 1 - r.below(2)
    }
}

/// Cycles the architecture needs to end, by the reference models.
pub fn own_cycles(mem: &[u8; MEM], arch: &str, cap: u64) -> Option<u64> {
    if arch == "pipe_std" {
        let mut p = Pipe::new(mem);
        while !p.done {
            if p.cycle >= cap {
                return None;
            }
            p.step();
        }
        Some(p.cycle)
    } else {
        let o = isa::run(mem, false, cap);
        match o.end {
            End::Halt | End::Fault(_) => Some(o.trace.len() as u64),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- running

fn bytes(i: &Input) -> Option<Vec<u8>> {
    match i {
        Input::Prog(p) => Some(p.render().into_bytes()),
        Input::Bytes(h) => Some(unhex(h)),
        _ => None,
    }
}

fn sim_of(sc: &ToolSc, e: &Exec, object: Option<&str>) -> SimSc {
    let mut files = vec![];
    let path = full(&sc.name);
    let out = full(&output_of(sc, sc.execs.iter().find(|e| e.bin == "yas").unwrap_or(e)));
    match &sc.input {
        Input::Missing => files.push(("/sim/README".to_string(), String::new())),
        Input::Dir => files.push((format!("{path}/inner"), String::new())),
        i => files.push((path.clone(), hex(&bytes(i).unwrap()))),
    }
    if let Some(o) = object {
        files.push((out, o.into()));
    } else if sc.old_output && !sc.object && out != path && !out.starts_with("/sim/nodir") {
        files.push((out, hex("0x0000: 00 | old\n".repeat(400).as_bytes())));
    }
    SimSc {
        seed: e.seed,
        choices: e.choices.clone(),
        policy: e.policy.clone(),
        entropy: e.entropy,
        clients: Vec::<Vec<COp>>::new(),
        files,
        faults: e.faults.clone(),
        max_steps: MAX_STEPS,
        prompt: 0,
        port: 0,
    }
}

pub fn absorb(res: &mut RunResult, s: &SimRes) {
    for (k, n) in &s.fired {
        res.add(&format!("fault_{k}"), *n);
    }
    for (k, n) in &s.rare {
        res.add(&format!("probe_{k}"), *n);
    }
    res.add("simulated_steps", s.steps);
    res.add("simulated_us", s.now_us);
    res.add("processes", 1);
    res.add("thread_switches", s.switches);
    let c: Vec<u64> = s.choices.iter().map(|c| *c as u64).collect();
    res.signature = mix(&[res.signature, s.signature, mix(&c), s.steps]);
}

pub fn plain(h: &str) -> String {
    let b = unhex(h);
    let s = String::from_utf8_lossy(&b);
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn start(sc: &ToolSc, e: &Exec, object: Option<&str>, res: &mut RunResult) -> Option<Box<SimRes>> {
    match shimrun::run(&e.bin, &e.args, &sim_of(sc, e, object), 60_000) {
        Out::Res(s) => {
            absorb(res, &s);
            Some(s)
        }
        Out::Hang(ms) => {
            res.bad("hang", format!("{} {:?} gives no answer within {ms} ms", e.bin, e.args));
            None
        }
        Out::Died(m) => {
            res.bad("crash", format!("{} {:?} died: {m}", e.bin, e.args));
            None
        }
    }
}

fn file<'a>(s: &'a SimRes, p: &str) -> Option<&'a str> {
    s.files.iter().find(|f| f.0 == p).map(|f| f.1.as_str())
}

fn brief(s: &SimRes) -> String {
    let t = |h: &str| {
        let p = plain(h);
        let mut l: Vec<&str> = p.lines().collect();
        if l.len() > 6 {
            l = l[l.len() - 6..].to_vec();
        }
        l.join(" / ")
    };
    format!("end {} status {}, stdout ..{}, stderr ..{}", s.end, s.status, t(&s.stdout), t(&s.stderr))
}

pub fn run(sc: &ToolSc) -> RunResult {
    let mut res = RunResult::default();
    if let Input::Prog(p) = &sc.input {
        // minimisation must not turn a bad source into a good one
        let ok = p.asm().is_ok();
        let spoiled = sc.execs.iter().any(|e| e.args.iter().any(|a| a == "no_such_arch" || a.starts_with("nodir")));
        match sc.truth {
            Truth::Good if !ok => return res,
            Truth::Bad if ok && !spoiled => return res,
            _ => {}
        }
    }
    match sc.prop.as_str() {
        "C02" => check_same(sc, &mut res),
        "C06" => check_chain(sc, &mut res),
        "C07" => check_honest(sc, &mut res),
        _ => check_limit(sc, &mut res),
    }
    res
}

fn check_same(sc: &ToolSc, res: &mut RunResult) {
    let mut first: Option<Box<SimRes>> = None;
    for e in &sc.execs {
        let Some(s) = start(sc, e, None, res) else { return };
        if s.end != "exit" || s.status != 0 {
            res.bad("tool", format!("{} {:?}: {}", e.bin, e.args, brief(&s)));
            return;
        }
        if e.args.iter().any(|a| a == "-I" || a == "--info") {
            res.add("info_runs", 1);
        }
        match &first {
            None => {
                res.nontrivial = s.stdout.len() > 400;
                res.sample = format!("{} {:?} three times with different entropy", e.bin, e.args);
                first = Some(s)
            }
            Some(f) => {
                if f.stdout != s.stdout {
                    let (a, b) = (plain(&f.stdout), plain(&s.stdout));
                    let d = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(0);
                    res.bad(
                        "unstable-text",
                        format!(
                            "{} {:?} prints different text under different entropy, from line {}: {:?} and {:?}",
                            e.bin,
                            e.args,
                            d + 1,
                            a.lines().nth(d),
                            b.lines().nth(d)
                        ),
                    );
                }
                if f.files != s.files {
                    let d: Vec<_> =
                        f.files.iter().filter(|x| !s.files.contains(x)).map(|x| x.0.clone()).collect();
                    res.bad("unstable-file", format!("{} {:?} writes different files {d:?}", e.bin, e.args));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C06

const INAMES: [&str; 13] = [
    "HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ", "POPQ", "IOPQ",
];
const RNAMES: [&str; 16] = [
    "RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14",
    "RNONE",
];

fn hexnum(s: &str) -> Option<u64> {
    u64::from_str_radix(s.trim().trim_start_matches("0x"), 16).ok()
}

/// Registers named in "ax 0.. bx 0.." lines.
fn reg_line(l: &str, regs: &mut [Option<u64>; 16]) {
    let t: Vec<&str> = l.split_whitespace().collect();
    for w in t.chunks(2) {
        let [n, v] = w else { continue };
        let i = match *n {
            "ax" => 0,
            "cx" => 1,
            "dx" => 2,
            "bx" => 3,
            "sp" => 4,
            "bp" => 5,
            "si" => 6,
            "di" => 7,
            _ => continue,
        };
        regs[i] = (v.len() == 16).then(|| hexnum(v)).flatten();
    }
}

fn is_reg_line(l: &str) -> bool {
    l.starts_with("ax ") || l.starts_with("si ")
}

fn want_diff(a: &[u8; MEM], b: &[u8; MEM]) -> Vec<String> {
    (0..MEM / 8)
        .filter(|i| a[i * 8..i * 8 + 8] != b[i * 8..i * 8 + 8])
        .map(|i| {
            format!("{:#06x}: {} -> {}", i * 8, hex(&a[i * 8..i * 8 + 8]), hex(&b[i * 8..i * 8 + 8]))
        })
        .collect()
}

fn got_diff(lines: &[&str]) -> Vec<String> {
    lines.iter().filter(|l| l.contains(" -> ")).map(|l| l.trim().to_string()).collect()
}

fn first_difference(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("entry {i}: expected {:?}, printed {:?}", a.get(i), b.get(i))
}

fn check_yo(p: &Prog, img: &Image, yo: &str, res: &mut RunResult) {
    let text = String::from_utf8_lossy(&unhex(yo)).into_owned();
    let ls: Vec<&str> = text.lines().collect();
    let src = p.line_texts();
    for (i, (t, (a, n))) in src.iter().zip(&img.lines).enumerate() {
        let bad = |res: &mut RunResult, m: String| {
            res.bad("object-file", format!("line {} of the object file ({:?}): {m}", i + 1, ls.get(i)))
        };
        let Some((l, r)) = ls.get(i).and_then(|l| l.split_once('|')) else {
            return bad(res, format!("no entry for source line {t:?}"));
        };
        if r.trim() != t.trim() {
            return bad(res, format!("source text {t:?} expected"));
        }
        let want = a.map(|a| (a, hex(&img.mem[a as usize..(a + n) as usize])));
        let got = match l.trim() {
            "" => None,
            x => match x.split_once(':') {
                Some((a, b)) if hexnum(a).is_some() => Some((hexnum(a).unwrap(), b.trim().to_string())),
                _ => return bad(res, "left column is not address: bytes".into()),
            },
        };
        let same = match (&want, &got) {
            // a line that contributes nothing need not show an address
            (Some((_, b)), None) => b.is_empty(),
            (None, Some((_, b))) => b.is_empty(),
            (Some(w), Some(g)) => w == g,
            (None, None) => true,
        };
        if !same {
            return bad(res, format!("expected {want:x?}"));
        }
    }
    for l in ls.iter().skip(src.len()) {
        let left = l.split('|').next().unwrap_or("");
        if left.split_once(':').is_some_and(|x| !x.1.trim().is_empty()) {
            return res.bad("object-file", format!("extra line with bytes: {l:?}"));
        }
    }
}

fn trace_line(s: &Step) -> (u64, u8, u8) {
    (s.pc, s.icode, s.ifun)
}

fn check_yis(img: &Image, o: &isa::Outcome, s: &SimRes, res: &mut RunResult) {
    let text = plain(&s.stdout);
    let ls: Vec<&str> = text.lines().collect();
    let tr: Vec<&&str> = ls.iter().filter(|l| l.contains("icode:")).collect();
    if tr.len() != o.trace.len() {
        return res.bad("trace", format!("yis traces {} instructions, {} are executed", tr.len(), o.trace.len()));
    }
    for (i, (l, st)) in tr.iter().zip(&o.trace).enumerate() {
        let f = |k: &str| {
            let j = l.find(&format!("{k}: "))? + k.len() + 2;
            l[j..].split([',', ' ']).next().map(|s| s.to_string())
        };
        let pc = l.split_whitespace().next().and_then(hexnum);
        let got = (pc, f("icode").and_then(|s| hexnum(&s)), f("ifun").and_then(|s| s.parse::<u8>().ok()));
        let w = trace_line(st);
        let name = l.split_once('(').and_then(|x| x.1.split_once(')')).map(|x| x.0);
        let regs_ok = f("rA").is_none_or(|n| n == RNAMES[st.ra as usize])
            && f("rB").is_none_or(|n| n == RNAMES[st.rb as usize]);
        let v_ok = f("V").is_none_or(|v| hexnum(&v) == Some(st.val_c));
        if got != (Some(w.0), Some(w.1 as u64), Some(w.2))
            || name.is_some_and(|n| n != INAMES[st.icode as usize])
            || !regs_ok
            || !v_ok
        {
            return res.bad("trace", format!("instruction {i}: yis prints {l:?}, executed is {st:x?}"));
        }
    }
    let total = ls.iter().find_map(|l| l.strip_prefix("total instructions: ")).and_then(|s| s.trim().parse().ok());
    if total != Some(o.m.n) {
        res.bad("total", format!("yis reports {total:?} instructions, {} were executed", o.m.n));
    }
    let mut regs = [None; 16];
    ls.iter().filter(|l| is_reg_line(l)).for_each(|l| reg_line(l, &mut regs));
    for k in 0..8 {
        if regs[k] != Some(o.m.regs[k]) {
            res.bad("registers", format!("yis reports {} = {:x?}, it is {:x}", REGS[k], regs[k], o.m.regs[k]));
            return;
        }
    }
    let (w, g) = (want_diff(&img.mem, &o.m.mem), got_diff(&ls));
    if w != g {
        res.bad("memory", format!("memory differences of yis: {}", first_difference(&w, &g)));
    }
}

/// What one cycle of ysim should print.
struct Cyc {
    pc: u64,
    regs: [u64; 16],
    cc: (bool, bool, bool),
    stage: Option<[String; 3]>,
}

fn sname(s: crate::pipe::St) -> String {
    s.name().to_lowercase()
}

/// The reference execution on an architecture, up to `cap` cycles.
fn model(mem: &[u8; MEM], arch: &str, cap: u64) -> (Vec<Cyc>, Box<[u8; MEM]>, bool) {
    let mut v = vec![];
    if arch == "pipe_std" {
        let mut p = Pipe::new(mem);
        while !p.done && p.cycle < cap {
            p.step();
            let o = &p.obs;
            let name = |i: u8| INAMES.get(i as usize).copied().filter(|_| i < 12).map_or("?".into(), String::from);
            let lu = o.load_use;
            let ret = o.ret_wait;
            let mp = o.mispredict;
            let c = |b: bool, s: bool| if b { "Bubble" } else if s { "Stall" } else { "Normal" };
            let ctl = [c(false, lu || ret), c(mp || !lu && ret, lu), c(mp || lu, false)].join(" ");
            v.push(Cyc {
                pc: o.f_pc,
                regs: p.regs,
                cc: (o.cc.sf, o.cc.of, o.cc.zf),
                stage: Some([
                    o.st.iter().map(|s| sname(*s)).collect::<Vec<_>>().join(" "),
                    o.icode.iter().map(|i| name(*i)).collect::<Vec<_>>().join(" "),
                    ctl,
                ]),
            });
        }
        return (v, p.mem.clone(), p.done);
    }
    let mut m = isa::Machine::new(mem, false);
    let mut done = false;
    while !done && (v.len() as u64) < cap {
        let pc = m.pc;
        done = m.step().is_err();
        v.push(Cyc { pc, regs: m.regs, cc: (m.cc.sf, m.cc.of, m.cc.zf), stage: None });
    }
    (v, m.mem.clone(), done)
}

/// Blocks of ysim's output, one per cycle: (number, lines).
fn blocks<'a>(ls: &[&'a str]) -> Vec<(u64, Vec<&'a str>)> {
    let mut v: Vec<(u64, Vec<&str>)> = vec![];
    for l in ls {
        if let Some(n) = l.split_once("[Cycle ").and_then(|x| x.1.split([' ', ']']).next()).and_then(|n| n.parse().ok())
        {
            v.push((n, vec![]));
        } else if let Some(b) = v.last_mut() {
            b.1.push(l);
        }
    }
    v
}

fn check_ysim(mem: &[u8; MEM], arch: &str, s: &SimRes, cap: u64, complete: bool, res: &mut RunResult) {
    let (want, end_mem, done) = model(mem, arch, cap);
    let text = plain(&s.stdout);
    let ls: Vec<&str> = text.lines().collect();
    let got = blocks(&ls);
    if got.len() != want.len() {
        return res.bad(
            "cycles",
            format!("ysim on {arch} prints {} cycles, {} expected", got.len(), want.len()),
        );
    }
    // destinations of the instruction that faults, which may have been written
    for (i, ((n, b), w)) in got.iter().zip(&want).enumerate() {
        if *n != i as u64 + 1 {
            return res.bad("cycles", format!("ysim on {arch} numbers cycle {} as {n}", i + 1));
        }
        let pc = b.iter().find_map(|l| l.strip_prefix("PC = ")).and_then(hexnum);
        if pc != Some(w.pc) {
            return res.bad("pc", format!("ysim on {arch}, cycle {n}: PC {pc:x?} printed, it is {:x}", w.pc));
        }
        if !complete && i + 1 == want.len() && done {
            break;
        }
        let mut regs = [None; 16];
        b.iter().filter(|l| is_reg_line(l)).for_each(|l| reg_line(l, &mut regs));
        for k in 0..8 {
            if regs[k] != Some(w.regs[k]) {
                return res.bad(
                    "registers",
                    format!("ysim on {arch}, cycle {n}: {} = {:x?} printed, it is {:x}", REGS[k], regs[k], w.regs[k]),
                );
            }
        }
        let cc = b.iter().find(|l| l.starts_with("sf ")).map(|l| {
            let t: Vec<&str> = l.split_whitespace().collect();
            let f = |k: &str| t.iter().position(|x| *x == k).and_then(|i| t.get(i + 1)) == Some(&"true");
            (f("sf"), f("of"), f("zf"))
        });
        if cc != Some(w.cc) {
            return res.bad("cc", format!("ysim on {arch}, cycle {n}: CC {cc:?} printed, they are {:?}", w.cc));
        }
        if let Some(st) = &w.stage {
            let pick = |k: &str, from: usize| {
                b.iter().find(|l| l.starts_with(k)).map(|l| {
                    l.split_whitespace().skip(1).collect::<Vec<_>>().chunks(2).skip(from).map(|x| x[x.len() - 1].to_string()).collect::<Vec<_>>()
                })
            };
            let stat = pick("Stat", 1).map(|v| v.join(" "));
            let icode = pick("icode", 0).map(|v| v.join(" "));
            let ctl = pick("Control", 0).map(|v| v[..3.min(v.len())].join(" "));
            if stat.as_ref() != Some(&st[0]) {
                return res.bad("stat", format!("cycle {n}: status of D E M W {stat:?} printed, {:?} expected", st[0]));
            }
            // an invalid code has no name
            if !st[1].contains('?') && icode.as_ref() != Some(&st[1]) {
                return res.bad("icode", format!("cycle {n}: instructions {icode:?} printed, {:?} expected", st[1]));
            }
            if ctl.as_ref() != Some(&st[2]) {
                return res.bad("control", format!("cycle {n}: control of F D E {ctl:?} printed, {:?} expected", st[2]));
            }
        }
    }
    if complete {
        if !ls.iter().any(|l| *l == "terminate!") {
            res.bad("terminate", format!("ysim on {arch} does not say that the program terminated"));
        }
        let (w, g) = (want_diff(mem, &end_mem), got_diff(&ls));
        if w != g {
            res.bad("memory", format!("memory differences of ysim on {arch}: {}", first_difference(&w, &g)));
        }
    }
}

/// The listing of `ysim -I`: levels of units and signals.
pub fn levels(text: &str) -> Vec<(u64, Vec<&str>)> {
    text.lines()
        .filter_map(|l| {
            let (n, names) = l.strip_prefix("lv.")?.split_once(':')?;
            Some((n.parse().ok()?, names.split_whitespace().collect()))
        })
        .collect()
}

fn check_info(arch: &str, s: &SimRes, res: &mut RunResult) {
    res.add("architecture_listings", 1);
    let mem = y86_sim::framework::MemData::init([0; MEM]);
    let sim = y86_sim::architectures::create_sim(arch.to_string(), mem, false);
    let want = plain(&hex(format!("{sim}").as_bytes()));
    let text = plain(&s.stdout);
    let (w, g) = (levels(&want), levels(&text));
    if w != g {
        return res.bad("info", format!("ysim -I on {arch} lists {g:?}, the order of evaluation is {w:?}"));
    }
    let mut names: Vec<&str> = g.iter().flat_map(|l| l.1.iter().copied()).collect();
    let n = names.len();
    names.sort_unstable();
    names.dedup();
    if names.len() != n || !g.windows(2).all(|w| w[0].0 < w[1].0) || !g.iter().any(|l| l.1.contains(&"alu")) {
        return res.bad("info", format!("ysim -I on {arch} lists {g:?}: levels or names repeat, or units are missing"));
    }
    let file_name = format!("{arch}_dependency_graph.html");
    let html = file(s, &full(&file_name)).map(|f| String::from_utf8_lossy(&unhex(f)).into_owned());
    let Some(html) = html else { return res.bad("info", format!("ysim -I on {arch} wrote no dependency graph")) };
    if let Some(x) = names.iter().find(|x| !html.contains(&format!("\"{x}\""))) {
        res.bad("info", format!("the dependency graph of {arch} has no {x}"));
    }
    if !text.contains(&file_name) {
        res.bad("info", format!("ysim -I on {arch} does not say where the graph is"));
    }
}

fn arch_of(e: &Exec) -> String {
    e.args
        .iter()
        .position(|a| a == "-A" || a == "--arch")
        .and_then(|i| e.args.get(i + 1))
        .cloned()
        .unwrap_or("seq_std".into())
}

fn check_chain(sc: &ToolSc, res: &mut RunResult) {
    let Input::Prog(p) = &sc.input else { return };
    let Ok(img) = p.asm() else { return };
    let o = isa::run(&img.mem, true, 20_000);
    if img.overlap || o.end != End::Halt || o.self_modifying {
        return;
    }
    res.nontrivial = o.trace.len() > 10;
    res.add("instructions", o.trace.len() as u64);
    res.sample = format!(
        "{} lines, {} instructions; {}",
        p.lines.len(),
        o.trace.len(),
        sc.execs.iter().map(|e| format!("{} {}", e.bin, e.args.join(" "))).collect::<Vec<_>>().join("; ")
    );
    let mut yo: Option<String> = None;
    for e in &sc.execs {
        let obj = if e.bin == "yis" { match e.relay {
            Some(seed) => Some(hex(relay(seed, p, &img).as_bytes())),
            None => yo.clone().or_else(|| Some(hex(object_text(p, &img).as_bytes()))),
        } } else { None };
        if e.relay.is_some() {
            res.add("object_files_in_another_layout", 1);
        }
        let Some(s) = start(sc, e, obj.as_deref(), res) else { return };
        if s.end != "exit" || s.status != 0 {
            res.bad("tool", format!("{} {:?}: {}", e.bin, e.args, brief(&s)));
            return;
        }
        match e.bin.as_str() {
            "yas" => {
                match file(&s, &full(&output_of(sc, e))) {
                    None => return res.bad("object-file", "yas wrote no object file"),
                    Some(f) => {
                        check_yo(p, &img, f, res);
                        yo = Some(f.to_string());
                    }
                }
                if file(&s, &full(&sc.name)) != Some(&hex(p.render().as_bytes())) {
                    res.bad("source-changed", "yas changed its input");
                }
            }
            "yis" => check_yis(&img, &o, &s, res),
            _ if e.args.iter().any(|a| a == "-I" || a == "--info") => check_info(&arch_of(e), &s, res),
            _ => {
                if !o.uses_iopq {
                    check_ysim(&img.mem, &arch_of(e), &s, u64::MAX, true, res)
                }
            }
        }
        if !res.violations.is_empty() {
            return;
        }
    }
}

// ---------------------------------------------------------------- C07

fn check_honest(sc: &ToolSc, res: &mut RunResult) {
    let e = &sc.execs[0];
    let mut t = e.clone();
    t.faults.clear();
    t.policy = Policy::default();
    t.choices = None;
    let Some(twin) = start(sc, &t, None, res) else { return };
    let Some(s) = start(sc, e, None, res) else { return };
    let what = format!("{} {}", e.bin, e.args.join(" "));
    let mut fired: Vec<String> = vec![];
    for l in &s.log {
        if let Some(f) = l.strip_prefix("fault ") {
            if !f.contains(":short") {
                fired.push(f.to_string());
            }
        }
    }
    res.nontrivial = sc.truth != Truth::Good || !fired.is_empty();
    res.sample = format!("{what}: input {:?}, faults {fired:?}, status {}", sc.truth, s.status);
    res.add(&format!("input_{:?}", sc.truth).to_lowercase(), 1);
    res.add(if s.status == 0 { "status_zero" } else { "status_nonzero" }, 1);
    for (x, w, faults) in [(&twin, "without faults", false), (&s, "with faults", true)] {
        if x.end != "exit" {
            res.bad(
                if x.end == "abort" { "crash" } else { "endless" },
                format!("{what} ({w}) does not end by itself: {}", brief(x)),
            );
            return;
        }
        let output_fault = faults && fired.iter().any(|f| f.contains("stdout") || f.contains("stderr"));
        if x.status == 101 && !output_fault {
            res.bad("crash", format!("{what} ({w}; {fired:?}) panics: {}", brief(x)));
            return;
        }
        if x.status != 0 && x.stderr.is_empty() && !output_fault {
            res.bad("silent", format!("{what} ({w}; {fired:?}) fails without a message: {}", brief(x)));
        }
        if sc.truth == Truth::Bad && x.status == 0 {
            res.bad("accepted", format!("{what} ({w}) claims success on input it cannot process: {}", brief(x)));
        }
    }
    // whether the source assembles is known, or read off the run without faults
    let assembles = match (&sc.input, sc.truth) {
        (Input::Prog(p), _) => p.asm().is_ok(),
        (_, Truth::Unknown) => twin.status == 0,
        (_, Truth::Good) => true,
        _ => false,
    };
    if e.bin == "yas" && !assembles {
        for x in [&twin, &s] {
            if !x.disk_ops.is_empty() {
                res.bad("touched", format!("{what} fails but touched the disk: {:?}", x.disk_ops));
            }
        }
    }
    if s.status == 0 {
        if twin.status != 0 {
            res.bad("claimed", format!("{what} succeeds only with faults: {fired:?}"));
        } else if s.stdout != twin.stdout || s.files != twin.files {
            let d: Vec<_> = s.files.iter().filter(|f| !twin.files.contains(f)).map(|f| &f.0).collect();
            res.bad(
                "claimed",
                format!(
                    "{what} exits 0 although its output is not complete (faults {fired:?}; files that differ {d:?}; {} of {} bytes of stdout)",
                    s.stdout.len() / 2,
                    twin.stdout.len() / 2
                ),
            );
        }
    } else if twin.status == 0 && fired.is_empty() {
        res.bad("refused", format!("{what} fails although no call failed: {}", brief(&s)));
    }
    // the good output itself
    if let (Input::Prog(p), "yas", 0) = (&sc.input, e.bin.as_str(), twin.status) {
        if let Ok(img) = p.asm() {
            let path = full(&output_of(sc, e));
            match file(&twin, &path) {
                Some(f) if !img.overlap => check_yo(p, &img, f, res),
                Some(_) => {}
                None => res.bad("claimed", format!("{what} claims success and wrote no file {path}")),
            }
        }
    }
    // inputs are never modified
    if let Some(b) = bytes(&sc.input) {
        if file(&s, &full(&sc.name)) != Some(&hex(&b)) {
            res.bad("input-changed", format!("{what} changed its input file"));
        }
    }
}

// ---------------------------------------------------------------- C13

fn check_limit(sc: &ToolSc, res: &mut RunResult) {
    let Input::Prog(p) = &sc.input else { return };
    let Ok(img) = p.asm() else { return };
    let limit = sc.limit.unwrap_or(100_000);
    let e = &sc.execs[0];
    let arch = arch_of(e);
    let cap = limit.saturating_add(1).min(110_000);
    let t = own_cycles(&img.mem, &arch, cap.min(110_000));
    if img.overlap || arch != "pipe_std" && isa::run(&img.mem, false, cap).end == End::Undefined {
        return;
    }
    let cut = t.is_none_or(|t| t > limit);
    let Some(s) = start(sc, e, None, res) else { return };
    res.nontrivial = limit > 0;
    res.sample = format!("ysim on {arch}, limit {limit}, program needs {t:?} cycles: status {}", s.status);
    res.add(if cut { "cut_off" } else { "completed" }, 1);
    if let Some(t) = t {
        if t == limit || t == limit.saturating_add(1) {
            res.add("probe_limit_at_the_edge", 1);
        }
    }
    if s.end != "exit" {
        return res.bad("endless", format!("ysim on {arch} with limit {limit} does not end: {}", brief(&s)));
    }
    if cut != (s.status != 0) {
        return res.bad(
            "limit",
            format!(
                "ysim on {arch}, limit {limit}, program needs {} cycles: {}",
                t.map_or("more".into(), |t| t.to_string()),
                brief(&s)
            ),
        );
    }
    if cut {
        let n = blocks(&plain(&s.stdout).lines().collect::<Vec<_>>()).len() as u64;
        if n != limit.saturating_add(1) {
            return res.bad("limit", format!("ysim on {arch} executes {n} cycles with limit {limit}"));
        }
        if s.stderr.is_empty() || s.status == 101 {
            res.bad("limit", format!("the cut-off is not reported properly: {}", brief(&s)));
        }
        check_ysim(&img.mem, &arch, &s, limit.saturating_add(1), false, res);
    } else {
        let halts = isa::run(&img.mem, false, 20_000).end == End::Halt;
        if halts {
            check_ysim(&img.mem, &arch, &s, u64::MAX, true, res);
        } else {
            let n = blocks(&plain(&s.stdout).lines().collect::<Vec<_>>()).len() as u64;
            if Some(n) != t {
                res.bad("limit", format!("ysim on {arch} executes {n} cycles, {t:?} expected"));
            }
        }
    }
}

// ---------------------------------------------------------------- shrinking

/// The scenario with the choices it made spelled out.
pub fn pin(sc: &ToolSc) -> ToolSc {
    let mut sc = sc.clone();
    let mut yo = None;
    for i in 0..sc.execs.len() {
        let obj = if sc.execs[i].bin == "yis" && !sc.object { yo.clone() } else { None };
        if let Out::Res(s) = shimrun::run(&sc.execs[i].bin, &sc.execs[i].args, &sim_of(&sc, &sc.execs[i], obj.as_deref()), 30_000) {
            if sc.execs[i].bin == "yas" {
                yo = file(&s, &full(&output_of(&sc, &sc.execs[i]))).map(String::from);
            }
            sc.execs[i].choices = Some(s.choices);
        }
    }
    sc
}

/// Simpler recorded choices.
pub fn shrink_choices(c: &[u32]) -> Vec<Vec<u32>> {
    let mut v = vec![];
    let end = c.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    if end < c.len() {
        v.push(c[..end].to_vec());
    }
    let nz: Vec<usize> = (0..end).filter(|i| c[*i] != 0).collect();
    let mut k = nz.len();
    while k >= 1 {
        for ch in nz.chunks(k) {
            let mut d = c.to_vec();
            for i in ch {
                d[*i] = 0;
            }
            v.push(d);
        }
        k /= 2;
        if nz.len() / k.max(1) > 64 {
            break;
        }
    }
    v
}

pub fn shrink(sc: &ToolSc) -> Vec<ToolSc> {
    let mut v = vec![];
    for i in 0..sc.execs.len() {
        if sc.execs.len() > 1 && !(sc.prop == "C02" && sc.execs.len() == 2) {
            let mut s = sc.clone();
            s.execs.remove(i);
            v.push(s);
        }
        for k in 0..sc.execs[i].faults.len() {
            let mut s = sc.clone();
            s.execs[i].faults.remove(k);
            v.push(s);
            if sc.execs[i].faults[k].sticky {
                let mut s = sc.clone();
                s.execs[i].faults[k].sticky = false;
                v.push(s);
            }
        }
        if let Some(c) = &sc.execs[i].choices {
            for c in shrink_choices(c) {
                let mut s = sc.clone();
                s.execs[i].choices = Some(c);
                v.push(s);
            }
        }
    }
    if sc.old_output {
        let mut s = sc.clone();
        s.old_output = false;
        v.push(s);
    }
    match &sc.input {
        Input::Prog(p) => {
            for q in crate::arch::shrink_prog(p) {
                let mut s = sc.clone();
                s.input = Input::Prog(q);
                v.push(s);
            }
        }
        Input::Bytes(h) if sc.truth != Truth::Bad => {
            let b = unhex(h);
            let ls: Vec<&[u8]> = b.split_inclusive(|c| *c == b'\n').collect();
            let mut k = ls.len() / 2;
            while k >= 1 {
                let mut a = 0;
                while a < ls.len() {
                    let keep: Vec<u8> =
                        ls[..a].iter().chain(&ls[(a + k).min(ls.len())..]).flat_map(|l| l.iter().copied()).collect();
                    let mut s = sc.clone();
                    s.input = Input::Bytes(hex(&keep));
                    v.push(s);
                    a += k;
                }
                k /= 2;
            }
        }
        _ => {}
    }
    v
}
