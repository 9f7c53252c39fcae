//! Starts a real binary under the preloaded simulator.
use crate::runner::harness_error;
use crate::simapi::*;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

pub enum Out {
    Res(Box<SimRes>),
    /// No answer in real time.
    Hang(u64),
    /// Ended without a report.
    Died(String),
}

pub fn dir() -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

fn memfd() -> i32 {
    let f = unsafe { libc::memfd_create(b"dst\0".as_ptr().cast(), 0) };
    if f < 0 {
        harness_error("memfd_create failed");
    }
    f
}

pub fn run(bin: &str, args: &[String], sc: &SimSc, timeout_ms: u64) -> Out {
    let js = serde_json::to_vec(sc).unwrap();
    let (i, o) = (memfd(), memfd());
    let mut k = 0;
    while k < js.len() {
        let n = unsafe { libc::write(i, js[k..].as_ptr().cast(), js.len() - k) };
        if n <= 0 {
            harness_error("cannot write the scenario");
        }
        k += n as usize;
    }
    let d = dir();
    let mut c = Command::new(d.join(bin));
    c.args(args)
        .env_clear()
        .env("LD_PRELOAD", d.join("libdstshim.so"))
        .env("DST_IN", i.to_string())
        .env("DST_OUT", o.to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::personality(0x0040000);
            let set = |r, v| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            set(libc::RLIMIT_AS, 20 << 30);
            set(libc::RLIMIT_CPU, 120);
            set(libc::RLIMIT_CORE, 0);
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap_or_else(|e| harness_error(&format!("cannot start {bin}: {e}")));
    let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, child.id(), 0) } as i32;
    let mut hung = false;
    if pfd >= 0 {
        let t0 = std::time::Instant::now();
        loop {
            let left = timeout_ms.saturating_sub(t0.elapsed().as_millis() as u64) as i32;
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, left) };
            if n > 0 {
                break;
            }
            if n == 0 {
                hung = true;
                let _ = child.kill();
                break;
            }
        }
        unsafe { libc::close(pfd) };
    }
    let st = child.wait().unwrap_or_else(|e| harness_error(&format!("wait: {e}")));
    let mut b = vec![];
    unsafe {
        libc::lseek(o, 0, libc::SEEK_SET);
        let _ = std::fs::File::from_raw_fd(o).read_to_end(&mut b);
        libc::close(i);
    }
    if hung {
        return Out::Hang(timeout_ms);
    }
    match serde_json::from_slice::<SimRes>(&b) {
        Ok(r) => Out::Res(Box::new(r)),
        Err(_) => {
            if matches!(st.code(), Some(95 | 96)) {
                harness_error("the preloaded simulator did not start");
            }
            Out::Died(format!("{st}"))
        }
    }
}

/// Command line: the scenario is read from a file.
pub fn cli(file: &str, bin: &str, args: &[String]) -> i32 {
    let sc: SimSc = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    match run(bin, args, &sc, 20_000) {
        Out::Res(r) => {
            println!("end {} status {} steps {} now {} us, switches {}, sig {:x}", r.end, r.status, r.steps, r.now_us, r.switches, r.signature);
            println!("threads {:?} fds {:?} fired {:?} rare {:?} heap {:?}", r.threads, r.fds, r.fired, r.rare, r.heap);
            println!("disk {:?}", r.disk_ops);
            println!("log {:?}", r.log);
            println!("--- stdout\n{}", String::from_utf8_lossy(&unhex(&r.stdout)));
            println!("--- stderr\n{}", String::from_utf8_lossy(&unhex(&r.stderr)));
            for (p, h) in &r.files {
                println!("--- file {p}\n{}", String::from_utf8_lossy(&unhex(h)));
            }
            for (i, c) in r.clients.iter().enumerate() {
                println!("--- client {i} done {} accepted {} ended {} refused {} unread {} pieces {:?} op_at {:?}\n{}", c.done, c.accepted, c.ended, c.refused, c.unread, c.pieces, c.op_at, String::from_utf8_lossy(&unhex(&c.rx)));
            }
            println!("choices {:?}", r.choices);
        }
        Out::Hang(ms) => println!("hang {ms}"),
        Out::Died(s) => println!("died {s}"),
    }
    0
}
