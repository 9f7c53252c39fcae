//! Orchestration: worker processes, aggregation, minimisation, replay files
//! and evidence.
use crate::common::*;
use crate::prng::mix;
use crate::props;
use crate::scenario::Scenario;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

/// Run `f` in a forked copy of this process and return what it produces.
pub fn in_fork(timeout_ms: u64, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        harness_error("fork failed");
    }
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        let out = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(o) => o,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                eprintln!("dst: internal panic: {m}");
                unsafe { libc::_exit(97) }
            }
        };
        let mut k = 0;
        while k < out.len() {
            let n = unsafe { libc::write(fds[1], out[k..].as_ptr().cast(), out.len() - k) };
            if n <= 0 {
                break;
            }
            k += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let end = Instant::now() + Duration::from_millis(timeout_ms);
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    let mut hung = false;
    loop {
        let left = end.saturating_duration_since(Instant::now()).as_millis() as i32;
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, left) };
        if n == 0 {
            hung = true;
            break;
        }
        if n < 0 {
            continue;
        }
        let n = unsafe { libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len()) };
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    let mut st = 0;
    unsafe {
        libc::close(fds[0]);
        if hung {
            libc::kill(pid, libc::SIGKILL);
        }
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    if hung {
        return Err(format!("no answer within {timeout_ms} ms"));
    }
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 97 {
        harness_error("internal panic in a simulated run");
    }
    if libc::WIFSIGNALED(st) {
        return Err(format!("killed by signal {}", libc::WTERMSIG(st)));
    }
    if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
        return Err(format!("ended with status {st:#x}"));
    }
    Ok(out)
}

pub fn harness_error(m: &str) -> ! {
    eprintln!("dst: harness error: {m}");
    std::process::exit(2)
}

#[derive(Serialize, Deserialize)]
struct Line {
    idx: u64,
    res: RunResult,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub index: u64,
    pub reproduced: bool,
    pub shrunk_from: Value,
    pub scenario: Scenario,
}

pub fn worker(prop: &str, seed: u64, start: u64, stride: u64, count: u64, secs: f64) {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut i = start;
    while i < count && t0.elapsed().as_secs_f64() < secs {
        let sc = props::generate(prop, seed, i);
        let t = Instant::now();
        let mut res = sc.run();
        res.stats.insert("max_wall_ms_of_a_run".into(), t.elapsed().as_millis() as u64);
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &Line { idx: i, res }).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
        i += stride;
    }
}

/// Run one scenario in a fresh process.
fn run_fresh(sc: &Scenario, secs: u64) -> Option<RunResult> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("run-scenario")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let js = serde_json::to_vec(sc).unwrap();
    let mut w = c.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = w.write_all(&js);
    });
    let mut o = c.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        let _ = tx.send(s);
    });
    let s = rx.recv_timeout(Duration::from_secs(secs));
    if s.is_err() {
        let _ = c.kill();
    }
    let _ = t.join();
    let _ = c.wait();
    serde_json::from_slice(&s.ok()?).ok()
}

pub fn run_scenario_stdin() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let sc: Scenario = serde_json::from_str(&s).unwrap();
    println!("{}", serde_json::to_string(&sc.run()).unwrap());
}

fn has_class(r: &Option<RunResult>, class: &str) -> Option<String> {
    r.as_ref()?.violations.iter().find(|v| v.class == class).map(|v| v.detail.clone())
}

fn minimise(sc: &Scenario, class: &str, budget: f64) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut cur = sc.clone();
    let mut tried = 0;
    'outer: loop {
        let cands = cur.shrink();
        for chunk in cands.chunks(8) {
            if t0.elapsed().as_secs_f64() > budget {
                break 'outer;
            }
            tried += chunk.len() as u64;
            let ok: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> =
                    chunk.iter().map(|c| s.spawn(|| has_class(&run_fresh(c, 75), class).is_some())).collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            if let Some(k) = ok.iter().position(|b| *b) {
                cur = chunk[k].clone();
                continue 'outer;
            }
        }
        break;
    }
    (cur, tried)
}

/// Replay the recorded findings of this property. Each names the scenario and
/// the class of deviation that is known; anything else it shows counts.
fn known_findings(prop: &str) -> Vec<(String, Violation)> {
    let text = std::fs::read_to_string("KNOWN_FINDINGS").unwrap_or_default();
    let mut new = vec![];
    for l in text.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let mut w = l.splitn(3, ' ');
        let (Some(p), Some(path), Some(what)) = (w.next(), w.next(), w.next()) else {
            harness_error(&format!("KNOWN_FINDINGS: {l}"))
        };
        if p.strip_prefix("property=") != Some(prop) {
            continue;
        }
        let Some(path) = path.strip_prefix("scenario=") else { harness_error(&format!("KNOWN_FINDINGS: {l}")) };
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
        let rp: Replay = serde_json::from_str(&s).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
        let Some(r) = run_fresh(&rp.scenario, 120) else { harness_error("the run gave no result") };
        let mut shown = false;
        for v in r.violations {
            if v.class == rp.class && v.detail == rp.detail {
                shown = true;
            } else {
                new.push((path.to_string(), v));
            }
        }
        if shown {
            println!("KNOWN-FINDING: property={prop} {what}");
        }
    }
    new
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let info = props::info(prop);
    let (count, mut secs) = if thorough { (u64::MAX / 4, 600.0) } else { (info.quick_runs, 55.0) };
    if let Some(s) = std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()) {
        secs = s;
    }
    let count = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let nw: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    println!("dst: property {prop}, VERIF_SEED={seed}, tier {tier}, {nw} workers");
    let known = known_findings(prop);

    let (tx, rx) = channel::<(u64, Option<Line>)>();
    let mut kids = vec![];
    for k in 0..nw {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", prop, &seed.to_string(), &k.to_string(), &nw.to_string(), &count.to_string(), &secs.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("cannot start a worker: {e}")));
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                match serde_json::from_str::<Line>(&l) {
                    Ok(l) => {
                        if tx.send((k, Some(l))).is_err() {
                            return;
                        }
                    }
                    Err(e) => harness_error(&format!("bad worker line: {e}: {l}")),
                }
            }
            let _ = tx.send((k, None));
        });
        kids.push(c);
    }
    drop(tx);

    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs = BTreeSet::new();
    let mut runs = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut found: BTreeMap<u64, Violation> = BTreeMap::new();
    let mut nontrivial_sigs = BTreeSet::new();
    let mut open = nw;
    let mut next: Vec<u64> = (0..nw).collect();
    let mut last = vec![Instant::now(); nw as usize];
    let mut ended = vec![false; nw as usize];
    let mut stop_at: Option<Instant> = None;
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((k, Some(l))) => {
                last[k as usize] = Instant::now();
                next[k as usize] = l.idx + nw;
                runs += 1;
                for (n, v) in l.res.stats {
                    if n.starts_with("max_") {
                        let e = stats.entry(n).or_default();
                        *e = (*e).max(v);
                    } else {
                        *stats.entry(n).or_default() += v;
                    }
                }
                sigs.insert(l.res.signature);
                if l.res.nontrivial {
                    nontrivial_sigs.insert(l.res.signature);
                }
                if samples.len() < 4 && l.res.nontrivial {
                    samples.push(json!({"index": l.idx, "case": l.res.sample}));
                }
                if let Some(v) = l.res.violations.into_iter().next() {
                    found.insert(l.idx, v);
                    stop_at.get_or_insert(Instant::now() + Duration::from_secs(2));
                }
            }
            Ok((k, None)) => {
                open -= 1;
                ended[k as usize] = true;
                let st = kids[k as usize].wait().ok();
                if !st.is_some_and(|s| s.success()) && stop_at.is_none() {
                    harness_error(&format!("worker {k} ended with {st:?}"));
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(RecvTimeoutError::Disconnected) => break,
        }
        for k in 0..nw as usize {
            if !ended[k] && last[k].elapsed() > Duration::from_secs(120) {
                found.insert(
                    next[k],
                    Violation { class: "hang".into(), detail: "the simulated system makes no progress".into() },
                );
                let _ = kids[k].kill();
            }
        }
        if stop_at.is_some_and(|t| Instant::now() > t) || found.len() > 16 {
            break;
        }
    }
    for c in &mut kids {
        let _ = c.kill();
        let _ = c.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    if runs == 0 && found.is_empty() {
        harness_error("no run completed");
    }

    // report
    let mut reported: Option<(Replay, String)> = None;
    for (idx, v) in &found {
        let sc = props::generate(prop, seed, *idx);
        let sc = sc.pin().unwrap_or(sc);
        let again = (0..2).find_map(|_| has_class(&run_fresh(&sc, 90), &v.class));
        let reproduced = again.is_some();
        if !reproduced && v.class == "hang" {
            println!("dst: run {idx}: a stall that does not repeat is not reported");
            *stats.entry("unreproduced_stalls".into()).or_default() += 1;
            continue;
        }
        let (small, tried) = if reproduced {
            minimise(&sc, &v.class, std::env::var("DST_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 180.0 } else { 60.0 }))
        } else {
            (sc.clone(), 0)
        };
        let detail = has_class(&run_fresh(&small, 90), &v.class).unwrap_or(v.detail.clone());
        let rp = Replay {
            property: prop.into(),
            class: v.class.clone(),
            detail,
            seed,
            index: *idx,
            reproduced,
            shrunk_from: json!({"size": serde_json::to_string(&sc).unwrap().len(), "candidates_tried": tried}),
            scenario: small,
        };
        let _ = std::fs::create_dir_all("replays");
        let path = std::env::current_dir().unwrap().join(format!("replays/{prop}-{seed}-{idx}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap())
            .unwrap_or_else(|e| harness_error(&format!("cannot write the replay file: {e}")));
        reported = Some((rp, path.display().to_string()));
        break;
    }

    let faults: BTreeMap<_, _> = stats.iter().filter(|(k, _)| k.starts_with("fault_")).collect();
    let probes: BTreeMap<_, _> = stats.iter().filter(|(k, _)| k.starts_with("probe_")).collect();
    let other: BTreeMap<_, _> =
        stats.iter().filter(|(k, _)| !k.starts_with("probe_") && !k.starts_with("fault_")).collect();
    if samples.is_empty() {
        samples.push(json!({"index": 0, "case": "no non-trivial run"}));
    }
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": reported.is_some() as u64,
        "assumptions": info.assumptions,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial_sigs.len(),
            "rule": info.rule,
            "samples": samples,
            "runs_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
            "run_seeds": format!("run i is generated from mix(VERIF_SEED, property, i), i in 0..{}", next.iter().max().unwrap_or(&0)),
            "distinct_executions": sigs.len(),
            "distinct_executions_measure": info.measure,
            "faults_injected": faults,
            "rare_conditions_reached": probes,
            "counters": other,
            "real_components": info.real,
            "stub_components": info.stub,
        },
    });
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap())
        .unwrap_or_else(|e| harness_error(&format!("cannot write evidence: {e}")));

    println!(
        "dst: {runs} runs in {search_s:.1} s, {} distinct executions, {} non-trivial",
        sigs.len(),
        nontrivial_sigs.len()
    );
    if let Some((path, v)) = known.into_iter().next() {
        println!("dst: {path}: {}: {}", v.class, v.detail);
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some((rp, path)) = reported {
        println!("dst: run {} (seed {}): {}: {}", rp.index, rp.seed, rp.class, rp.detail);
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    println!("dst: property {prop} held on everything explored");
    0
}

pub fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
    let rp: Replay = serde_json::from_str(&s).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
    match run_fresh(&rp.scenario, 120) {
        None => harness_error("the run gave no result"),
        Some(r) => {
            for v in &r.violations {
                println!("dst: {}: {}", v.class, v.detail);
            }
            if r.violations.iter().any(|v| v.class == rp.class) {
                println!("VIOLATION property={} replay={path}", rp.property);
                1
            } else {
                println!("dst: the replayed execution shows no violation of class {}", rp.class);
                0
            }
        }
    }
}

/// Determinism: run many scenarios twice in different processes, with
/// different worker counts, and compare everything.
pub fn selftest(prop: &str, n: u64) -> i32 {
    let mut bad = 0;
    for seed in [1u64, 7] {
        let mut logs: Vec<BTreeMap<u64, String>> = vec![];
        for nw in [3u64, 8] {
            let kids: Vec<_> = (0..nw)
                .map(|k| {
                    Command::new(std::env::current_exe().unwrap())
                        .args(["worker", prop, &seed.to_string(), &k.to_string(), &nw.to_string(), &n.to_string(), "1e9"])
                        .stdin(Stdio::null())
                        .stdout(Stdio::piped())
                        .spawn()
                        .unwrap()
                })
                .collect();
            let mut log = BTreeMap::new();
            let outs: Vec<_> = kids
                .into_iter()
                .map(|k| std::thread::spawn(move || k.wait_with_output().unwrap().stdout))
                .collect();
            for o in outs {
                for l in String::from_utf8_lossy(&o.join().unwrap()).lines() {
                    let mut x: Line = serde_json::from_str(l).unwrap();
                    x.res.stats.remove("max_wall_ms_of_a_run"); // real time
                    log.insert(x.idx, serde_json::to_string(&x).unwrap());
                }
            }
            logs.push(log);
        }
        for i in 0..n {
            if logs[0].get(&i) != logs[1].get(&i) || logs[0].get(&i).is_none() {
                bad += 1;
                if bad > 5 {
                    continue;
                }
                println!("selftest {prop} seed {seed} run {i} differs:\n {:?}\n {:?}", logs[0].get(&i), logs[1].get(&i));
            }
        }
        println!(
            "selftest {prop} seed {seed}: {n} runs twice, log hash {:x}, {bad} differ",
            mix(&logs[0].values().map(|s| hash_bytes(s.as_bytes())).collect::<Vec<_>>())
        );
    }
    (bad > 0) as i32
}
