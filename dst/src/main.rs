mod arch;
mod circ;
mod common;
mod dbg;
mod gen;
mod hcl;
mod isa;
mod pipe;
mod prng;
mod prog;
mod props;
mod refm;
mod runner;
mod scenario;
mod shimrun;
mod simapi;
mod tool;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    if matches!(s(1), "worker" | "run-scenario") {
        // panics of the code under test are observed, not printed
        std::panic::set_hook(Box::new(|i| {
            if i.location().is_some_and(|l| l.file().starts_with("src/")) {
                eprintln!("dst: {i}");
            }
        }));
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    }
    let code = match s(1) {
        "check" => runner::check(s(2)),
        "replay" => runner::replay(s(2)),
        "worker" => {
            runner::worker(s(2), n(3), n(4), n(5), n(6), s(7).parse().unwrap_or(1e9));
            0
        }
        "run-scenario" => {
            runner::run_scenario_stdin();
            0
        }
        "selftest" => runner::selftest(s(2), n(3).max(50)),
        "show" => {
            let sc = props::generate(s(2), n(3), n(4));
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            0
        }
        "sim" => shimrun::cli(s(2), s(3), &a[4..]),
        "text" => {
            // the sources of a scenario, for reading
            if let scenario::Scenario::Arch(sc) = props::generate(s(2), n(3), n(4)) {
                for x in &sc.srcs {
                    match x {
                        arch::Src::Asm(p) => println!("{}", p.render()),
                        arch::Src::Raw(p) => println!("{p:?}"),
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: dst check <property> | replay <file> | selftest <property> <n>");
            2
        }
    };
    std::process::exit(code)
}
