//! What each property's check runs, and how its evidence describes it.
use crate::arch;
use crate::common::hash_bytes;
use crate::dbg;
use crate::prng::mix;
use crate::scenario::Scenario;
use crate::tool;

pub struct Info {
    pub quick_runs: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const ARCH_REAL: &[&str] = &[
    "y86-sim assembler",
    "y86-sim framework and the circuits generated by sim_macro (seq_std, seq_plus_std, pipe_std)",
    "y86-sim hardware units",
    "y86-sim ISA simulator",
];
const ARCH_STUB: &[&str] = &[
    "process entropy (getrandom)",
    "the order of evaluating a circuit (guarded hook, within the declared dependencies)",
    "the scheduler that decides which instance takes its next cycle, on which thread",
];
const ARCH_MEASURE: &str = "hash of the per-cycle pipeline occupancy (instruction codes in all five stages, hazards) of the first program, the interleaving schedule, the architectures and the evaluation orders";
const ARCH_ASSUME: &[&str] = &[
    "the reference assembler, ISA interpreter and pipeline timing formula of /verif/dst are right",
    "sampling: a clean batch is evidence, not proof",
];

const TOOL_REAL: &[&str] = &["the yas, yis and ysim binaries built from /repo, whole", "Rust standard library", "libc outside the simulated calls"];
const TOOL_STUB: &[&str] = &[
    "disk (virtual, in memory)",
    "standard streams",
    "entropy",
    "clock",
    "open/read/write/close and their failures",
];

const DBG_REAL: &[&str] = &[
    "the ydb binary built from /repo, whole: listener, threads, dap crate, debug server, assembler, simulators",
    "Rust standard library",
    "real threads of the process, of which the simulator lets one run at a time",
];
const DBG_STUB: &[&str] = &[
    "network (sockets, accept, delivery, buffers, resets)",
    "disk (virtual, in memory)",
    "thread creation, join, futex waits and wakes (scheduled by the simulator)",
    "clock and sleeping",
    "entropy",
    "Ctrl-C delivery",
    "the debugger front end (scripted clients)",
];
const DBG_ASSUME: &[&str] = &[
    "the session model and the reference machines of /verif/dst are right",
    "threads interact only through simulated calls and at simulated-cycle boundaries",
    "sampling: a clean batch is evidence, not proof",
];

pub fn info(prop: &str) -> Info {
    let arch = Info {
        quick_runs: 60_000,
        rule: "",
        measure: ARCH_MEASURE,
        real: ARCH_REAL,
        stub: ARCH_STUB,
        assumptions: ARCH_ASSUME,
    };
    let tool = Info {
        quick_runs: 30_000,
        rule: "",
        measure: "hash of all choices made in the run (transfer sizes, interruptions) and its length",
        real: TOOL_REAL,
        stub: TOOL_STUB,
        assumptions: ARCH_ASSUME,
    };
    let dbg = Info {
        quick_runs: 40_000,
        rule: "",
        measure: "hash of the sequence of scheduler decisions (which thread, client action, delivery or drain came next among the alternatives) and of all transfer sizes",
        real: DBG_REAL,
        stub: DBG_STUB,
        assumptions: DBG_ASSUME,
    };
    match prop {
        "C01" => Info {
            rule: "each run generates a hazard-heavy halting program (sections anywhere in the 64 KiB), runs it on the three architectures stepped in a random interleaving with random evaluation orders, and on the ISA simulator; non-trivial: more than 10 executed instructions",
            ..arch
        },
        "C02" => Info {
            quick_runs: 20_000,
            rule: "each run executes one program (halting, faulting, runaway, self-modifying or raw bytes) on one architecture four times in processes of their own, with different entropy and (when the program writes nothing it fetches) different evaluation orders, and compares every cycle; non-trivial: more than 10 cycles",
            ..arch
        },
        "C03" => Info {
            rule: "each run executes a program with a machine fault planted in flight (or raw bytes) on all architectures and the ISA simulator; non-trivial: the program faults after more than three instructions",
            ..arch
        },
        "C04" => Info {
            rule: "each run generates a hazard-heavy halting program and compares cycle counts on the three architectures with the timing formula; non-trivial: more than 10 executed instructions",
            ..arch
        },
        "C05" => Info {
            quick_runs: 20_000,
            rule: "each run creates, steps, inspects and drops 2 to 6 simulators of 1 to 3 programs on 1 to 3 threads in a random order and compares each history with that of the simulator alone in a process of its own; non-trivial: at least two instances and five schedule entries",
            ..arch
        },
        "C06" => Info {
            rule: "each run assembles a generated source with the real yas, executes the object file with the real yis and the source with the real ysim, all on the simulated disk and terminal with short and interrupted transfers, and compares the object file and everything printed with the reference assembler and machine models; non-trivial: more than 10 executed instructions",
            ..tool
        },
        "C07" => Info {
            rule: "each run gives one tool good, malformed, mutated, missing or unreadable input and makes chosen system calls fail, and compares with the same run without faults and with the reference assembler; non-trivial: bad input or a fault that fired",
            quick_runs: 60_000,
            ..tool
        },
        "C08" => Info {
            rule: "each run is one server and one or two sessions of 3 to 25 requests with heavily split, delayed and pipelined traffic; non-trivial: at least five requests and a split or interrupted transfer",
            ..dbg
        },
        "C09" => Info {
            rule: "each run is one session that sets breakpoints, steps, continues, relaunches and has its files changed; every stop is compared with the reference machines; non-trivial: stops for at least two different reasons",
            ..dbg
        },
        "C10" => Info {
            rule: "each run is one to three sessions with dense inspection between stops; every register and signal shown is compared with the reference machines and with the simulator library; non-trivial: variables shown after a stop",
            ..dbg
        },
        "C11" => Info {
            rule: "each run is one session that mixes requests which must be refused, and failing launches, with valid ones; non-trivial: at least two refusals and some cycles",
            ..dbg
        },
        "C12" => Info {
            rule: "each run is 2 to 5 (one in fourteen: 10 to 60) concurrent sessions, some of which fail, with accept, dup, thread and socket faults, and one late session; each transcript is compared with what that session alone gives; non-trivial: more than 10 thread switches and requests",
            ..dbg
        },
        "C13" => Info {
            rule: "each run gives ysim or a debug session a program and a cycle limit near its running time; non-trivial: a session stopped by the limit, or ysim with a limit above 0",
            ..dbg
        },
        "C14" => Info {
            rule: "each run is a history of sessions that end in every way and at every moment, run to quiescence; threads, descriptors, connections and (for equal sessions in a row) live heap are compared with those of an idle server; non-trivial: an end other than disconnect, or a fault that fired",
            ..dbg
        },
        "C15" => Info {
            rule: "each run presses Ctrl-C at some moment of one or more sessions, some of which execute an endless program, or makes bind fail; non-trivial: more than 50 scheduler steps",
            quick_runs: 20_000,
            ..dbg
        },
        "C16" => Info {
            rule: "each run is either 1 to 4 simulators of random circuits (fixed by the build, one in six to be rejected), stepped in turns under chosen evaluation orders and entropy on random memory, every signal, register and byte of memory compared each cycle with what the description says; or one random dependency graph given to the framework under three entropies; non-trivial: more than 10 cycles, some in another order, or a graph of more than 8 edges",
            ..arch
        },
        _ => crate::runner::harness_error(&format!("unknown property {prop}")),
    }
}

pub fn generate(prop: &str, seed: u64, idx: u64) -> Scenario {
    let s = mix(&[seed, hash_bytes(prop.as_bytes()), idx]);
    match prop {
        "C02" if mix(&[s, 2]) % 8 == 0 => Scenario::Tool(tool::generate(prop, s)),
        "C13" if mix(&[s, 2]) % 2 == 0 => Scenario::Tool(tool::generate(prop, s)),
        "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" => Scenario::Dbg(dbg::generate(prop, s)),
        "C06" | "C07" => Scenario::Tool(tool::generate(prop, s)),
        "C01" | "C02" | "C03" | "C04" | "C05" => Scenario::Arch(arch::generate(prop, s)),
        "C16" => Scenario::Circ(crate::circ::generate(s)),
        _ => crate::runner::harness_error(&format!("unknown property {prop}")),
    }
}
