//! The intercepted C library functions.
use crate::simapi::FaultKind;
use crate::sys::{fail, raw, ret};
use crate::*;
use libc::*;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Acquire, Ordering::Relaxed, Ordering::Release};

/// State of the allocator's whims; 0: none.
pub static SCATTER: AtomicU64 = AtomicU64::new(0);

type Start = extern "C" fn(*mut c_void) -> *mut c_void;

struct Real {
    create: unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int,
    join: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int,
    detach: unsafe extern "C" fn(pthread_t) -> c_int,
    sigaction: unsafe extern "C" fn(c_int, *const sigaction, *mut sigaction) -> c_int,
    exit: unsafe extern "C" fn(c_int) -> !,
    key: pthread_key_t,
}
static mut REAL: Option<Real> = None;
static mut HANDLES: Vec<(pthread_t, u32)> = Vec::new();

unsafe fn next<T: Copy>(n: &[u8]) -> T {
    let p = dlsym(RTLD_NEXT, n.as_ptr().cast());
    if p.is_null() {
        sys::exit_group(95);
    }
    std::mem::transmute_copy(&p)
}

pub fn init() {
    unsafe {
        let mut key = 0;
        pthread_key_create(&mut key, Some(thread_end));
        REAL = Some(Real {
            create: next(b"pthread_create\0"),
            join: next(b"pthread_join\0"),
            detach: next(b"pthread_detach\0"),
            sigaction: next(b"sigaction\0"),
            exit: next(b"exit\0"),
            key,
        });
    }
}

fn real() -> &'static Real {
    unsafe { REAL.as_ref().unwrap() }
}

// ---------------------------------------------------------------- threads

pub fn new_thread() -> u32 {
    let s = sim();
    let prio = s.rng.next();
    s.threads.push(Thread {
        word: Box::leak(Box::new(AtomicU32::new(0))),
        cond: Cond::Ready,
        woken: false,
        deadline: None,
        poll: vec![],
        prio,
    });
    s.threads.len() as u32 - 1
}

struct StartInfo {
    f: Start,
    arg: *mut c_void,
    tid: u32,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    IN.set(true);
    let i = unsafe { Box::from_raw(p as *mut StartInfo) };
    TID.set(i.tid);
    sys::park(sim().threads[i.tid as usize].word);
    let (f, arg) = (i.f, i.arg);
    drop(i);
    unsafe { pthread_setspecific(real().key, 1 as *const c_void) };
    IN.set(false);
    f(arg)
}

/// Runs after the destructors of Rust's thread-locals.
unsafe extern "C" fn thread_end(v: *mut c_void) {
    if (v as usize) < 3 {
        pthread_setspecific(real().key, (v as usize + 1) as *const c_void);
        return;
    }
    IN.set(true);
    let t = TID.get();
    let s = sim();
    s.threads[t as usize].cond = Cond::Dead;
    s.note(format!("thread {t} ended"));
    s.schedule();
    TID.set(u32::MAX);
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: Start,
    arg: *mut c_void,
) -> c_int {
    if !active() {
        return match REAL.as_ref() {
            Some(r) => (r.create)(out, attr, f, arg),
            None => EAGAIN,
        };
    }
    let _g = Guard::new();
    let s = sim();
    if let Some(FaultKind::Errno(e)) = s.fault("thread", "") {
        return e;
    }
    let tid = new_thread();
    let p = Box::into_raw(Box::new(StartInfo { f, arg, tid }));
    let r = (real().create)(out, attr, trampoline, p.cast());
    if r != 0 {
        s.threads[tid as usize].cond = Cond::Dead;
        return r;
    }
    s.note(format!("thread {tid} started"));
    HANDLES.push((*out, tid));
    s.point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    if active() {
        let _g = Guard::new();
        if let Some(k) = HANDLES.iter().rposition(|h| h.0 == t) {
            let tid = HANDLES.remove(k).1;
            sim().block(Cond::Join(tid), None);
        }
    }
    (real().join)(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if active() {
        let _g = Guard::new();
        if let Some(k) = HANDLES.iter().rposition(|h| h.0 == t) {
            HANDLES.remove(k);
        }
    }
    match REAL.as_ref() {
        Some(r) => (r.detach)(t),
        None => 0,
    }
}

/// Threads that have ended and that nobody has joined or detached: the system
/// keeps their stacks.
pub unsafe fn zombies(threads: &[Thread]) -> u32 {
    HANDLES.iter().filter(|h| threads[h.1 as usize].cond == Cond::Dead).count() as u32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let _g = Guard::new();
        let s = sim();
        let p = s.sc.policy.preempt;
        if p > 0 {
            if s.preempt_left == 0 {
                let v = s.choose(2 * p + 2, |r| 1 + r.below(2 * p as u64) as u32);
                s.preempt_left = match v {
                    0 if s.sc.prompt > 0 => p as u64,
                    0 => u64::MAX,
                    v => v as u64,
                };
            }
            s.preempt_left -= 1;
            if s.preempt_left == 0 {
                s.fire("preempted_in_mid_run");
                // what the cycles took
                s.now += 20;
                s.point();
            }
        }
    }
    0
}

/// Variadic in C; on this machine the registers are the same.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if !active() {
        return ret(raw(n, a, b, c, d, e, f));
    }
    match n {
        SYS_futex => futex(a as usize, b as i32, c as u32, d as *const timespec),
        SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as i64,
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const timespec) -> i64 {
    let _g = Guard::new();
    let s = sim();
    match op & 127 {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            s.point();
            let s = sim();
            if *(addr as *const u32) != val {
                return fail(EAGAIN);
            }
            let deadline = (!ts.is_null()).then(|| {
                let t = (*ts).tv_sec.saturating_mul(1_000_000).saturating_add((*ts).tv_nsec / 1000) as u64;
                if op & 127 == FUTEX_WAIT {
                    s.now + t
                } else if op & FUTEX_CLOCK_REALTIME != 0 {
                    t.saturating_sub(sim().epoch)
                } else {
                    t.saturating_sub(1_000_000_000)
                }
            });
            s.hit("blocked_on_lock");
            if s.block(Cond::Futex(addr), deadline) {
                0
            } else {
                fail(ETIMEDOUT)
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let mut n = 0;
            while n < val {
                let w: Vec<usize> = (0..s.threads.len())
                    .filter(|t| s.threads[*t].cond == Cond::Futex(addr) && !s.threads[*t].woken)
                    .collect();
                if w.is_empty() {
                    break;
                }
                let k = s.choose(w.len() as u32, |r| r.below(w.len() as u64) as u32) as usize;
                s.threads[w[k]].woken = true;
                n += 1;
            }
            n as i64
        }
        _ => fail(ENOSYS),
    }
}

// ---------------------------------------------------------------- descriptors

fn new_fd(o: Obj) -> i32 {
    let s = sim();
    let mut fd = 1000;
    while s.fds.contains_key(&fd) {
        fd += 1;
    }
    s.fds.insert(fd, FdEnt { obj: o, nonblock: false });
    fd
}

fn obj(fd: i32) -> Option<Obj> {
    sim().fds.get(&fd).map(|e| e.obj.clone())
}

fn nonblock(fd: i32) -> bool {
    sim().fds.get(&fd).is_some_and(|e| e.nonblock)
}

fn incref(o: &Obj) {
    let s = sim();
    match o {
        Obj::Sock(k) => s.conns[*k].refs += 1,
        Obj::Listener(l) => s.listeners[*l].refs += 1,
        Obj::File(f) => s.ofds[*f].refs += 1,
        Obj::PipeR(p) => s.pipes[*p].readers += 1,
        Obj::PipeW(p) => s.pipes[*p].writers += 1,
        _ => {}
    }
}

fn decref(o: Obj) {
    let s = sim();
    match o {
        Obj::Sock(k) => s.conn_unref(k),
        Obj::Listener(l) => s.listeners[l].refs -= 1,
        Obj::File(f) => {
            let o = &mut s.ofds[f];
            o.refs -= 1;
            if o.refs == 0 && o.write {
                let p = o.path.clone();
                s.disk_ops.push(format!("close {p}"));
            }
        }
        Obj::PipeR(p) => s.pipes[p].readers -= 1,
        Obj::PipeW(p) => s.pipes[p].writers -= 1,
        _ => {}
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        if let Some(o) = obj(fd) {
            let _g = Guard::new();
            if matches!(o, Obj::Std(_)) {
                return 0;
            }
            if matches!(o, Obj::Sock(_) | Obj::Listener(_)) {
                sim().point();
            }
            sim().fds.remove(&fd);
            decref(o);
            return 0;
        }
    }
    ret(raw(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn dup_to(fd: i32, to: Option<i32>) -> i32 {
    let _g = Guard::new();
    let o = obj(fd).unwrap();
    let name = match &o {
        Obj::Sock(k) => sim().conns[*k].client.to_string(),
        _ => String::new(),
    };
    if let Some(FaultKind::Errno(e)) = sim().fault("dup", &name) {
        return fail(e) as i32;
    }
    incref(&o);
    match to {
        None => new_fd(o),
        Some(t) => {
            if let Some(e) = sim().fds.remove(&t) {
                decref(e.obj);
            }
            sim().fds.insert(t, FdEnt { obj: o, nonblock: false });
            t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if active() && obj(fd).is_some() {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => dup_to(fd, None),
            F_GETFD => FD_CLOEXEC,
            F_GETFL => O_RDWR | if nonblock(fd) { O_NONBLOCK } else { 0 },
            F_SETFL => {
                sim().fds.get_mut(&fd).unwrap().nonblock = arg as i32 & O_NONBLOCK != 0;
                0
            }
            _ => 0,
        };
    }
    ret(raw(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if active() && obj(fd).is_some() {
        return dup_to(fd, None);
    }
    ret(raw(SYS_dup, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn dup2(fd: c_int, to: c_int) -> c_int {
    if active() && obj(fd).is_some() {
        return dup_to(fd, Some(to));
    }
    ret(raw(SYS_dup2, fd as i64, to as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
    if active() && obj(fd).is_some() {
        return match req {
            FIONBIO => {
                sim().fds.get_mut(&fd).unwrap().nonblock = *arg != 0;
                0
            }
            FIONREAD => {
                *arg = match obj(fd) {
                    Some(Obj::Sock(k)) => sim().conns[k].rx.len() as i32,
                    _ => 0,
                };
                0
            }
            _ => fail(ENOTTY) as i32,
        };
    }
    ret(raw(SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if active() {
        return fail(ENOTTY) as c_int + 1;
    }
    let mut t: [u8; 64] = [0; 64];
    (ret(raw(SYS_ioctl, fd as i64, TCGETS as i64, t.as_mut_ptr() as i64, 0, 0, 0)) == 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, ms: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_poll, p as i64, n as i64, ms as i64, 0, 0, 0)) as c_int;
    }
    let _g = Guard::new();
    let v = std::slice::from_raw_parts_mut(p, n as usize);
    let set: Vec<(i32, i16)> = v.iter().filter(|f| f.fd >= 0).map(|f| (f.fd, f.events)).collect();
    let s = sim();
    if !s.threads.is_empty() && ms != 0 {
        s.point();
        let s = sim();
        if !set.iter().any(|(fd, ev)| s.poll_one(*fd, *ev) != 0) {
            let me = s.cur as usize;
            s.threads[me].poll = set;
            let d = (ms > 0).then(|| s.now + ms as u64 * 1000);
            s.block(Cond::Poll, d);
        }
    }
    let mut c = 0;
    for f in v {
        f.revents = if f.fd < 0 { 0 } else { sim().poll_one(f.fd, f.events) };
        c += (f.revents != 0) as c_int;
    }
    c
}

// ---------------------------------------------------------------- sockets

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !active() {
        return ret(raw(SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int;
    }
    let _g = Guard::new();
    if d != AF_INET && d != AF_INET6 {
        return fail(EAFNOSUPPORT) as c_int;
    }
    new_fd(Obj::NewSock)
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if active() && obj(fd).is_some() {
        let _g = Guard::new();
        let s = sim();
        if let Some(FaultKind::Errno(e)) = s.fault("bind", "") {
            return fail(e) as c_int;
        }
        let mut port = u16::from_be((*(a as *const sockaddr_in)).sin_port);
        if port == 0 {
            port = 40000;
        }
        let local = if (*a).sa_family as c_int == AF_INET {
            [[0; 4], [127, 0, 0, 1]].contains(&(*(a as *const sockaddr_in)).sin_addr.s_addr.to_ne_bytes())
        } else {
            (*(a as *const sockaddr_in6)).sin6_addr.s6_addr == [0; 16]
        };
        s.listeners.push(Listener { pending: VecDeque::new(), listening: false, local, refs: 1, port });
        let k = s.listeners.len() - 1;
        s.fds.get_mut(&fd).unwrap().obj = Obj::Listener(k);
        return 0;
    }
    ret(raw(SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if active() {
        if let Some(Obj::Listener(l)) = obj(fd) {
            sim().listeners[l].listening = true;
            return 0;
        }
    }
    ret(raw(SYS_listen, fd as i64, n as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn connect(_: c_int, _: *const sockaddr, _: socklen_t) -> c_int {
    fail(ECONNREFUSED) as c_int
}

unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, port: u16) {
    if a.is_null() || l.is_null() {
        return;
    }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let n = std::mem::size_of::<sockaddr_in>();
    let m = n.min(*l as usize);
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, m);
    *l = n as socklen_t;
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if active() {
        match obj(fd) {
            Some(Obj::Listener(k)) => {
                put_addr(a, l, sim().listeners[k].port);
                return 0;
            }
            Some(_) => {
                put_addr(a, l, sim().listeners.first().map_or(0, |l| l.port));
                return 0;
            }
            None => {}
        }
    }
    ret(raw(SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if active() {
        if let Some(Obj::Sock(k)) = obj(fd) {
            let c = &sim().conns[k];
            if c.rst {
                return fail(ENOTCONN) as c_int;
            }
            put_addr(a, l, 50000 + c.client as u16);
            return 0;
        }
    }
    ret(raw(SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if active() && obj(fd).is_some() {
        if lv == SOL_SOCKET && o == SO_RCVTIMEO && l as usize >= std::mem::size_of::<timeval>() {
            if let Some(Obj::Sock(k)) = obj(fd) {
                let _g = Guard::new();
                let t = &*(v as *const timeval);
                let us = t.tv_sec as u64 * 1_000_000 + t.tv_usec as u64;
                if us == 0 {
                    sim().rcvtimeo.remove(&k);
                } else {
                    sim().rcvtimeo.insert(k, us);
                }
            }
        }
        return 0;
    }
    ret(raw(SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if active() && obj(fd).is_some() {
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
        return 0;
    }
    ret(raw(SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if active() {
        if let Some(Obj::Sock(k)) = obj(fd) {
            let _g = Guard::new();
            let s = sim();
            s.point();
            let s = sim();
            let c = &mut s.conns[k];
            if c.rst {
                return fail(ENOTCONN) as c_int;
            }
            if how != SHUT_RD {
                c.server_shut = true;
            }
            if how != SHUT_WR {
                c.fin = true;
            }
            return 0;
        }
    }
    ret(raw(SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
    if active() {
        if let Some(Obj::Listener(k)) = obj(fd) {
            let _g = Guard::new();
            let s = sim();
            s.serving = true;
            s.point();
            let s = sim();
            let eintr = s.sc.policy.eintr_pct;
            if s.chance(eintr) {
                s.fire("accept:EINTR");
                return fail(EINTR) as c_int;
            }
            let f = s.fault("accept", "");
            if let Some(FaultKind::Errno(e)) = f {
                if e != ECONNABORTED {
                    return fail(e) as c_int;
                }
            }
            loop {
                let s = sim();
                if let Some(c) = s.listeners[k].pending.pop_front() {
                    let i = s.conns[c].client;
                    if f.is_some() {
                        s.conns[c].rst = true;
                        s.clients[i].refused = true;
                        return fail(ECONNABORTED) as c_int;
                    }
                    s.conns[c].accepted = true;
                    s.conns[c].refs = 1;
                    s.note(format!("c{i} accepted"));
                    put_addr(a, l, 50000 + i as u16);
                    let fd = new_fd(Obj::Sock(c));
                    sim().fds.get_mut(&fd).unwrap().nonblock = fl & SOCK_NONBLOCK != 0;
                    return fd;
                }
                if nonblock(fd) {
                    return fail(EAGAIN) as c_int;
                }
                s.block(Cond::Accept(k), None);
            }
        }
    }
    ret(raw(SYS_accept4, fd as i64, a as i64, l as i64, fl as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}

unsafe fn sock_read(fd: i32, k: usize, buf: &mut [u8], flags: c_int) -> i64 {
    let _g = Guard::new();
    sim().point();
    let s = sim();
    let name = s.conns[k].client.to_string();
    let mut most = buf.len();
    match s.fault("recv", &name) {
        Some(FaultKind::Errno(e)) => {
            if e == ECONNRESET || e == ETIMEDOUT {
                let c = &mut s.conns[k];
                c.rst = true;
                c.rst_told = true;
                c.rx.clear();
                c.fly.clear();
            }
            return fail(e);
        }
        Some(FaultKind::Short(n)) => most = most.min(n.max(1) as usize),
        Some(FaultKind::Eof) => {
            // the end of the stream is final: nothing sent later arrives
            s.conns[k].fin = true;
            s.conns[k].fin_sent = true;
            s.conns[k].rx.clear();
            s.conns[k].fly.clear();
        }
        None => {}
    }
    let eintr = s.sc.policy.eintr_pct;
    if s.chance(eintr) {
        s.fire("recv:EINTR");
        return fail(EINTR);
    }
    let deadline = s.rcvtimeo.get(&k).map(|t| s.now + t);
    loop {
        let s = sim();
        let n = s.conns[k].rx.len().min(most);
        if buf.is_empty() {
            return 0;
        }
        if n > 0 {
            let part = s.sc.policy.short_pct;
            let m = s.amount(n, part, 40);
            if m < n {
                s.fire("recv:short");
            }
            let c = &mut s.conns[k];
            for (i, b) in c.rx.iter().take(m).enumerate() {
                buf[i] = *b;
            }
            if flags & MSG_PEEK == 0 {
                c.rx.drain(..m);
            }
            return m as i64;
        }
        let c = &mut s.conns[k];
        if c.rst {
            if !c.rst_told {
                c.rst_told = true;
                s.fire("recv:ECONNRESET");
                return fail(ECONNRESET);
            }
            return 0;
        }
        if c.fin {
            return 0;
        }
        if nonblock(fd) || flags & MSG_DONTWAIT != 0 {
            return fail(EAGAIN);
        }
        if !s.block(Cond::Recv(k), deadline) {
            return fail(EAGAIN);
        }
    }
}

unsafe fn sock_write(fd: i32, k: usize, buf: &[u8], flags: c_int) -> i64 {
    let _g = Guard::new();
    sim().point();
    let s = sim();
    let name = s.conns[k].client.to_string();
    let mut most = buf.len();
    match s.fault("send", &name) {
        Some(FaultKind::Errno(e)) => {
            if e != EINTR && e != ENOBUFS && e != EAGAIN {
                let c = &mut s.conns[k];
                c.rst = true;
                c.rst_told = true;
                c.fly.clear();
                c.tx.clear();
            }
            return fail(e);
        }
        Some(FaultKind::Short(n)) => most = most.min(n.max(1) as usize),
        _ => {}
    }
    let eintr = s.sc.policy.eintr_pct;
    if s.chance(eintr) {
        s.fire("send:EINTR");
        return fail(EINTR);
    }
    loop {
        let s = sim();
        let window = s.sc.policy.window as usize;
        let part = s.sc.policy.short_pct;
        let c = &mut s.conns[k];
        if c.rst {
            if !c.rst_told {
                c.rst_told = true;
                s.fire("send:ECONNRESET");
                return fail(ECONNRESET);
            }
            s.fire("send:EPIPE");
            return fail(EPIPE);
        }
        if c.server_shut {
            return fail(EPIPE);
        }
        if c.peer_gone {
            // accepted by the kernel, answered by a reset
            c.rst = true;
            c.rst_told = true;
            s.hit("send_to_closed_peer");
            return most as i64;
        }
        let room = window.saturating_sub(c.tx.len());
        if room > 0 || most == 0 {
            let n = most.min(room);
            if n < most {
                s.hit("send_buffer_full");
            }
            let m = s.amount(n, part, 40);
            if m < n {
                s.fire("send:short");
            }
            s.conns[k].tx.extend(&buf[..m]);
            return m as i64;
        }
        if nonblock(fd) || flags & MSG_DONTWAIT != 0 {
            return fail(EAGAIN);
        }
        s.hit("send_blocked");
        s.block(Cond::Send(k), None);
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, f: c_int) -> ssize_t {
    if active() {
        if let Some(Obj::Sock(k)) = obj(fd) {
            return sock_read(fd, k, std::slice::from_raw_parts_mut(b as *mut u8, n), f) as ssize_t;
        }
    }
    ret(raw(SYS_recvfrom, fd as i64, b as i64, n as i64, f as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int,
    b: *mut c_void,
    n: size_t,
    f: c_int,
    _: *mut sockaddr,
    _: *mut socklen_t,
) -> ssize_t {
    recv(fd, b, n, f)
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, f: c_int) -> ssize_t {
    if active() {
        if let Some(Obj::Sock(k)) = obj(fd) {
            return sock_write(fd, k, std::slice::from_raw_parts(b as *const u8, n), f) as ssize_t;
        }
    }
    ret(raw(SYS_sendto, fd as i64, b as i64, n as i64, f as i64, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    b: *const c_void,
    n: size_t,
    f: c_int,
    _: *const sockaddr,
    _: socklen_t,
) -> ssize_t {
    send(fd, b, n, f)
}

// ---------------------------------------------------------------- read/write

unsafe fn file_read(o: usize, buf: &mut [u8], at: Option<usize>) -> i64 {
    let _g = Guard::new();
    sim().point();
    let s = sim();
    let path = s.ofds[o].path.clone();
    let mut most = buf.len();
    match s.fault("read", &path) {
        Some(FaultKind::Errno(e)) => return fail(e),
        Some(FaultKind::Short(n)) => most = most.min(n.max(1) as usize),
        Some(FaultKind::Eof) => return 0,
        None => {}
    }
    let eintr = s.sc.policy.eintr_pct;
    if s.chance(eintr) {
        s.fire("read:EINTR");
        return fail(EINTR);
    }
    let f = &s.ofds[o];
    if !f.read {
        return fail(EBADF);
    }
    let Some(i) = f.inode else { return fail(EISDIR) };
    let pos = at.unwrap_or(f.pos);
    let left = s.inodes[i].data.len().saturating_sub(pos);
    let n = most.min(left);
    let part = s.sc.policy.short_pct;
    let m = s.amount(n, part, 40);
    if m < n {
        s.fire("read:short");
    }
    buf[..m].copy_from_slice(&s.inodes[i].data[pos..pos + m]);
    if at.is_none() {
        s.ofds[o].pos += m;
    }
    m as i64
}

unsafe fn file_write(o: usize, buf: &[u8], at: Option<usize>) -> i64 {
    let _g = Guard::new();
    sim().point();
    let s = sim();
    let path = s.ofds[o].path.clone();
    let mut most = buf.len();
    match s.fault("write", &path) {
        Some(FaultKind::Errno(e)) => return fail(e),
        Some(FaultKind::Short(n)) => most = most.min(n.max(1) as usize),
        _ => {}
    }
    let eintr = s.sc.policy.eintr_pct;
    if s.chance(eintr) {
        s.fire("write:EINTR");
        return fail(EINTR);
    }
    if !s.ofds[o].write {
        return fail(EBADF);
    }
    let Some(i) = s.ofds[o].inode else { return fail(EISDIR) };
    let part = s.sc.policy.short_pct;
    let m = s.amount(most, part, 40);
    if m < most {
        s.fire("write:short");
    }
    if s.ofds[o].append {
        s.ofds[o].pos = s.inodes[i].data.len();
    }
    let pos = at.unwrap_or(s.ofds[o].pos);
    let d = &mut s.inodes[i].data;
    if d.len() < pos + m {
        d.resize(pos + m, 0);
    }
    d[pos..pos + m].copy_from_slice(&buf[..m]);
    if at.is_none() {
        s.ofds[o].pos = pos + m;
    }
    s.disk_ops.push(format!("write {path} {m}"));
    m as i64
}

unsafe fn std_write(k: u8, buf: &[u8]) -> i64 {
    let _g = Guard::new();
    if k == 2 {
        let s = sim();
        if let Some(FaultKind::Errno(e)) = s.fault("write", if s.serving { "stderr+" } else { "stderr" }) {
            return fail(e);
        }
        if s.stderr.len() < 1 << 20 {
            s.stderr.extend_from_slice(buf);
        }
        return buf.len() as i64;
    }
    let s = sim();
    s.steps += 1;
    if s.steps > s.sc.max_steps {
        s.finish("steps", 0);
    }
    let mut most = buf.len();
    match s.fault("write", if s.serving { "stdout+" } else { "stdout" }) {
        Some(FaultKind::Errno(e)) => return fail(e),
        Some(FaultKind::Short(n)) => most = most.min(n.max(1) as usize),
        _ => {}
    }
    let (eintr, part) = (s.sc.policy.eintr_pct, s.sc.policy.short_pct);
    if s.chance(eintr / 2) {
        s.fire("write:EINTR");
        return fail(EINTR);
    }
    let m = s.amount(most, part / 2, 40);
    if m < most {
        s.fire("write:short");
    }
    if s.stdout.len() < 192 << 20 {
        s.stdout.extend_from_slice(&buf[..m]);
    }
    m as i64
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if active() {
        if let Some(o) = obj(fd) {
            let buf = std::slice::from_raw_parts_mut(b as *mut u8, n);
            return match o {
                Obj::Sock(k) => sock_read(fd, k, buf, 0) as ssize_t,
                Obj::File(f) => file_read(f, buf, None) as ssize_t,
                Obj::PipeR(p) => {
                    let _g = Guard::new();
                    sim().point();
                    loop {
                        let s = sim();
                        let m = s.pipes[p].buf.len().min(n);
                        if m > 0 {
                            for (i, x) in s.pipes[p].buf.drain(..m).enumerate() {
                                buf[i] = x;
                            }
                            return m as ssize_t;
                        }
                        if s.pipes[p].writers == 0 {
                            return 0;
                        }
                        if nonblock(fd) {
                            return fail(EAGAIN) as ssize_t;
                        }
                        s.block(Cond::Pipe(p), None);
                    }
                }
                Obj::Std(0) => 0,
                _ => fail(EINVAL) as ssize_t,
            };
        }
    }
    ret(raw(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if active() {
        if let Some(o) = obj(fd) {
            let buf = std::slice::from_raw_parts(b as *const u8, n);
            return match o {
                Obj::Sock(k) => sock_write(fd, k, buf, 0) as ssize_t,
                Obj::File(f) => file_write(f, buf, None) as ssize_t,
                Obj::PipeW(p) => {
                    let _g = Guard::new();
                    sim().pipes[p].buf.extend(buf);
                    n as ssize_t
                }
                Obj::Std(k) if k > 0 => std_write(k, buf) as ssize_t,
                _ => fail(EBADF) as ssize_t,
            };
        }
    }
    ret(raw(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if active() && obj(fd).is_some() {
        let vs = std::slice::from_raw_parts(v, n as usize);
        // a vectored write is one transfer; the first non-empty part is a legal short one
        IN.set(true);
        let all: Vec<u8> = vs
            .iter()
            .flat_map(|x| std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len).iter().copied())
            .collect();
        IN.set(false);
        let r = write(fd, all.as_ptr().cast(), all.len());
        IN.set(true);
        drop(all);
        IN.set(false);
        return r;
    }
    ret(raw(SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if active() && obj(fd).is_some() {
        let vs = std::slice::from_raw_parts(v, n as usize);
        let Some(x) = vs.iter().find(|x| x.iov_len > 0) else { return 0 };
        return read(fd, x.iov_base, x.iov_len);
    }
    ret(raw(SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, f: c_int) -> ssize_t {
    if active() && obj(fd).is_some() {
        return writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int);
    }
    ret(raw(SYS_sendmsg, fd as i64, m as i64, f as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, f: c_int) -> ssize_t {
    if active() && obj(fd).is_some() {
        (*m).msg_controllen = 0;
        (*m).msg_flags = 0;
        return readv(fd, (*m).msg_iov, (*m).msg_iovlen as c_int);
    }
    ret(raw(SYS_recvmsg, fd as i64, m as i64, f as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if active() {
        if let Some(Obj::File(f)) = obj(fd) {
            return file_read(f, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as usize)) as ssize_t;
        }
    }
    ret(raw(SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: i64) -> ssize_t {
    if active() {
        if let Some(Obj::File(f)) = obj(fd) {
            return file_write(f, std::slice::from_raw_parts(b as *const u8, n), Some(off as usize)) as ssize_t;
        }
    }
    ret(raw(SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(out: *mut c_int, flags: c_int) -> c_int {
    if active() {
        let _g = Guard::new();
        let s = sim();
        s.pipes.push(Pipe { buf: VecDeque::new(), readers: 1, writers: 1 });
        let p = s.pipes.len() - 1;
        *out = new_fd(Obj::PipeR(p));
        *out.add(1) = new_fd(Obj::PipeW(p));
        if flags & O_NONBLOCK != 0 {
            for k in 0..2 {
                sim().fds.get_mut(&*out.add(k)).unwrap().nonblock = true;
            }
        }
        return 0;
    }
    ret(raw(SYS_pipe2, out as i64, flags as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pipe(out: *mut c_int) -> c_int {
    pipe2(out, 0)
}

// ---------------------------------------------------------------- the disk

pub const CWD: &str = "/sim";

/// The path, if it is on the simulated disk.
unsafe fn virt(p: *const c_char) -> Option<String> {
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    let s = String::from_utf8_lossy(b).into_owned();
    let full = if s.starts_with('/') { s } else { format!("{CWD}/{s}") };
    let mut parts: Vec<&str> = vec![];
    for x in full.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            x => parts.push(x),
        }
    }
    let n = format!("/{}", parts.join("/"));
    (n == CWD || n.starts_with("/sim/")).then_some(n)
}

unsafe fn is_real(p: *const c_char) -> bool {
    let _g = Guard::new();
    virt(p).is_none()
}

fn is_dir(p: &str) -> bool {
    p == CWD || sim().dir.keys().any(|k| k.len() > p.len() && k.starts_with(p) && k.as_bytes()[p.len()] == b'/')
}

fn parent_ok(p: &str) -> bool {
    p.rfind('/').is_some_and(|i| is_dir(&p[..i]))
}

unsafe fn sim_open(p: String, flags: c_int) -> c_int {
    let s = sim();
    s.point();
    let s = sim();
    let eintr = s.sc.policy.eintr_pct;
    if s.chance(eintr) {
        s.fire("open:EINTR");
        return fail(EINTR) as c_int;
    }
    if flags & O_CREAT == 0 && !s.dir.contains_key(&p) && !is_dir(&p) {
        return fail(ENOENT) as c_int;
    }
    let s = sim();
    if let Some(FaultKind::Errno(e)) = s.fault("open", &p) {
        return fail(e) as c_int;
    }
    let acc = flags & O_ACCMODE;
    let (rd, wr) = (acc != O_WRONLY, acc != O_RDONLY);
    let inode = match s.dir.get(&p) {
        Some(_) if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL => return fail(EEXIST) as c_int,
        Some(i) => Some(*i),
        None if is_dir(&p) => {
            if wr {
                return fail(EISDIR) as c_int;
            }
            None
        }
        None if flags & O_CREAT != 0 => {
            if !parent_ok(&p) {
                return fail(ENOENT) as c_int;
            }
            let s = sim();
            s.inodes.push(Inode { data: vec![] });
            let i = s.inodes.len() - 1;
            s.dir.insert(p.clone(), i);
            s.disk_ops.push(format!("create {p}"));
            Some(i)
        }
        None => return fail(ENOENT) as c_int,
    };
    let s = sim();
    if wr {
        s.disk_ops.push(format!("open {p}"));
        if flags & O_TRUNC != 0 {
            if let Some(i) = inode {
                s.inodes[i].data.clear();
                s.disk_ops.push(format!("truncate {p}"));
            }
        }
    }
    s.ofds.push(Ofd { inode, path: p, pos: 0, write: wr, read: rd, append: flags & O_APPEND != 0, refs: 1 });
    let o = s.ofds.len() - 1;
    new_fd(Obj::File(o))
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if active() && !is_real(p) {
        let _g = Guard::new();
        return sim_open(virt(p).unwrap(), flags);
    }
    // the real file system is not written to
    if active() && flags & (O_ACCMODE | O_CREAT | O_TRUNC) != 0 {
        return fail(EROFS) as c_int;
    }
    ret(raw(SYS_openat, AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if active() && d == AT_FDCWD {
        return open64(p, flags, mode);
    }
    ret(raw(SYS_openat, d as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: c_uint) -> c_int {
    open64(p, O_WRONLY | O_CREAT | O_TRUNC, mode)
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if active() {
        match obj(fd) {
            Some(Obj::File(f)) => {
                let s = sim();
                let o = &mut s.ofds[f];
                let end = o.inode.map_or(0, |i| s.inodes[i].data.len()) as i64;
                let n = match wh {
                    SEEK_SET => off,
                    SEEK_CUR => o.pos as i64 + off,
                    _ => end + off,
                };
                if n < 0 {
                    return fail(EINVAL);
                }
                o.pos = n as usize;
                return n;
            }
            Some(_) => return fail(ESPIPE),
            None => {}
        }
    }
    ret(raw(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
}

unsafe fn fill(st: *mut stat64, dir: bool, size: usize, ino: u64) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    (*st).st_mode = if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    (*st).st_size = size as i64;
    (*st).st_ino = ino;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}

unsafe fn what(p: &str) -> Option<(bool, usize, u64)> {
    let s = sim();
    match s.dir.get(p) {
        Some(i) => Some((false, s.inodes[*i].data.len(), *i as u64 + 2)),
        None if is_dir(p) => Some((true, 0, 1)),
        None => None,
    }
}

unsafe fn what_fd(fd: i32) -> Option<(bool, usize, u64)> {
    match obj(fd)? {
        Obj::File(f) => {
            let s = sim();
            match s.ofds[f].inode {
                Some(i) => Some((false, s.inodes[i].data.len(), i as u64 + 2)),
                None => Some((true, 0, 1)),
            }
        }
        _ => Some((false, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    if active() && !is_real(p) {
        let _g = Guard::new();
        let Some((d, n, i)) = what(&virt(p).unwrap()) else { return fail(ENOENT) as c_int };
        fill(st, d, n, i);
        return 0;
    }
    ret(raw(SYS_stat, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
    stat64(p, st)
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    if active() && !is_real(p) {
        return stat64(p, st);
    }
    ret(raw(SYS_lstat, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if active() {
        if let Some((d, n, i)) = what_fd(fd) {
            fill(st, d, n, i);
            return 0;
        }
    }
    ret(raw(SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    fstat64(fd, st)
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut statx) -> c_int {
    if active() {
        if st.is_null() {
            // how the standard library finds out whether the call exists
            return fail(EFAULT) as c_int;
        }
        let empty = p.is_null() || *p == 0;
        let w = if empty {
            what_fd(d).map(Some)
        } else if !is_real(p) {
            let _g = Guard::new();
            Some(what(&virt(p).unwrap()))
        } else {
            None
        };
        if let Some(w) = w {
            let Some((dir, n, i)) = w else { return fail(ENOENT) as c_int };
            std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<statx>());
            (*st).stx_mask = STATX_BASIC_STATS;
            (*st).stx_mode = (if dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
            (*st).stx_size = n as u64;
            (*st).stx_ino = i;
            (*st).stx_nlink = 1;
            (*st).stx_blksize = 4096;
            return 0;
        }
    }
    ret(raw(SYS_statx, d as i64, p as i64, fl as i64, mask as i64, st as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if active() && !is_real(p) {
        let _g = Guard::new();
        return if what(&virt(p).unwrap()).is_some() { 0 } else { fail(ENOENT) as c_int };
    }
    ret(raw(SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if active() {
        if is_real(p) {
            return fail(EROFS) as c_int;
        }
        let _g = Guard::new();
        let s = sim();
        let n = virt(p).unwrap();
        s.point();
        let s = sim();
        if let Some(FaultKind::Errno(e)) = s.fault("unlink", &n) {
            return fail(e) as c_int;
        }
        if s.dir.remove(&n).is_none() {
            return fail(ENOENT) as c_int;
        }
        s.disk_ops.push(format!("unlink {n}"));
        return 0;
    }
    ret(raw(SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        if is_real(a) || is_real(b) {
            return fail(EROFS) as c_int;
        }
        let _g = Guard::new();
        let (x, y) = (virt(a).unwrap(), virt(b).unwrap());
        sim().point();
        let s = sim();
        if let Some(FaultKind::Errno(e)) = s.fault("rename", &y) {
            return fail(e) as c_int;
        }
        if !parent_ok(&y) {
            return fail(ENOENT) as c_int;
        }
        if is_dir(&y) {
            return fail(EISDIR) as c_int;
        }
        let s = sim();
        return match s.dir.remove(&x) {
            Some(i) => {
                s.disk_ops.push(format!("rename {x} {y}"));
                s.dir.insert(y, i);
                0
            }
            None => fail(ENOENT) as c_int,
        };
    }
    ret(raw(SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if active() {
        return fail(EROFS) as c_int;
    }
    ret(raw(SYS_mkdir, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if active() {
        return fail(EROFS) as c_int;
    }
    ret(raw(SYS_rmdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if active() {
        if let Some(Obj::File(f)) = obj(fd) {
            let _g = Guard::new();
            let s = sim();
            let path = s.ofds[f].path.clone();
            if let Some(i) = s.ofds[f].inode {
                s.inodes[i].data.resize(n as usize, 0);
                s.disk_ops.push(format!("truncate {path}"));
            }
            return 0;
        }
    }
    ret(raw(SYS_ftruncate, fd as i64, n, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if active() {
        if let Some(Obj::File(f)) = obj(fd) {
            let _g = Guard::new();
            let p = sim().ofds[f].path.clone();
            if let Some(FaultKind::Errno(e)) = sim().fault("fsync", &p) {
                return fail(e) as c_int;
            }
            return 0;
        }
    }
    ret(raw(SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let c = b"/sim\0";
        if n < c.len() || b.is_null() {
            sys::set_errno(ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr(), b as *mut u8, c.len());
        return b;
    }
    if ret(raw(SYS_getcwd, b as i64, n as i64, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    b
}

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let b = if active() && !is_real(p) {
        let n = {
            let _g = Guard::new();
            let n = virt(p).unwrap();
            if what(&n).is_none() {
                sys::set_errno(ENOENT);
                return std::ptr::null_mut();
            }
            n
        };
        IN.set(true);
        let mut v = n.into_bytes();
        v.push(0);
        let d = if out.is_null() { __libc_malloc(v.len()) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(v.as_ptr(), d as *mut u8, v.len());
        drop(v);
        IN.set(false);
        d
    } else {
        std::ptr::null_mut()
    };
    if b.is_null() {
        sys::set_errno(ENOENT);
    }
    b
}

// ---------------------------------------------------------------- clock, entropy, signals, exit

fn timespec_of(s: i64, us: u64) -> timespec {
    timespec { tv_sec: s + (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    if active() {
        let s = sim();
        s.now += 1;
        *t = if c == CLOCK_REALTIME || c == 5 { timespec_of(0, s.epoch + s.now) } else { timespec_of(1000, s.now) };
        return 0;
    }
    ret(raw(SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, z: *mut c_void) -> c_int {
    if active() {
        let s = sim();
        s.now += 1;
        let n = s.epoch + s.now;
        *t = timeval { tv_sec: (n / 1_000_000) as i64, tv_usec: (n % 1_000_000) as i64 };
        return 0;
    }
    ret(raw(SYS_gettimeofday, t as i64, z as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let v = if active() {
        ((sim().epoch + sim().now) / 1_000_000) as i64
    } else {
        raw(SYS_time, 0, 0, 0, 0, 0, 0)
    };
    if !t.is_null() {
        *t = v;
    }
    v
}

unsafe fn sleep_until(d: u64) -> c_int {
    let _g = Guard::new();
    sim().block(Cond::Sleep, Some(d));
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        return sleep_until(sim().now + (*t).tv_sec as u64 * 1_000_000 + (*t).tv_nsec as u64 / 1000);
    }
    ret(raw(SYS_nanosleep, t as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, t: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let us = (*t).tv_sec as u64 * 1_000_000 + (*t).tv_nsec as u64 / 1000;
        let base = if c == CLOCK_REALTIME { sim().epoch } else { 1_000_000_000 };
        return sleep_until(if fl & TIMER_ABSTIME != 0 { us.saturating_sub(base) } else { sim().now + us });
    }
    -raw(SYS_clock_nanosleep, c as i64, fl as i64, t as i64, rem as i64, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if active() {
        let s = sim();
        for i in 0..n {
            *(b as *mut u8).add(i) = s.ent.next() as u8;
        }
        return n as ssize_t;
    }
    ret(raw(SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    getrandom(b, n, 0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sigaction(n: c_int, a: *const sigaction, o: *mut sigaction) -> c_int {
    if active() && matches!(n, SIGINT | SIGTERM | SIGHUP) {
        if !o.is_null() {
            std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<sigaction>());
        }
        if !a.is_null() && n == SIGINT {
            let h = (*a).sa_sigaction;
            sim().sigint = if h > 1 { Some(std::mem::transmute::<usize, extern "C" fn(i32)>(h)) } else { None };
        }
        return 0;
    }
    (real().sigaction)(n, a, o)
}

#[no_mangle]
pub unsafe extern "C" fn exit(s: c_int) -> ! {
    (real().exit)(s)
}

#[no_mangle]
pub unsafe extern "C" fn _exit(s: c_int) -> ! {
    if SIM.is_some() {
        IN.set(true);
        sim().report("exit", s);
    }
    sys::exit_group(s)
}

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if SIM.is_some() {
        IN.set(true);
        sim().report("abort", 134);
    }
    sys::exit_group(134)
}

// ---------------------------------------------------------------- heap accounting

extern "C" {
    fn __libc_malloc(n: size_t) -> *mut c_void;
    fn __libc_calloc(n: size_t, m: size_t) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
    fn __libc_memalign(a: size_t, n: size_t) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
}

/// The blocks that the program (not the simulator) holds, by address, when
/// somebody wants to know: open addressing in memory of its own.
pub static HEAP: AtomicPtr<[u64; 2]> = AtomicPtr::new(std::ptr::null_mut());
static HEAP_LOCK: AtomicBool = AtomicBool::new(false);
static HEAP_USED: AtomicUsize = AtomicUsize::new(0);
const HEAP_SLOTS: usize = 1 << 19;

pub unsafe fn watch_heap() {
    let p = raw(
        SYS_mmap,
        0,
        (HEAP_SLOTS * 16) as i64,
        (PROT_READ | PROT_WRITE) as i64,
        (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE) as i64,
        -1,
        0,
    );
    if p > 0 {
        HEAP.store(p as *mut [u64; 2], SeqCst);
    }
}

fn home(p: u64) -> usize {
    ((p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 45) as usize
}

unsafe fn locked(f: impl FnOnce(&mut [[u64; 2]])) {
    let t = HEAP.load(Relaxed);
    if t.is_null() {
        return;
    }
    while HEAP_LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    f(std::slice::from_raw_parts_mut(t, HEAP_SLOTS));
    HEAP_LOCK.store(false, Release);
}

unsafe fn taken(p: *mut c_void, n: size_t) {
    if p.is_null() || IN.get() {
        return;
    }
    locked(|t| {
        if HEAP_USED.load(Relaxed) > HEAP_SLOTS / 2 {
            return;
        }
        let mut i = home(p as u64);
        while t[i][0] != 0 {
            i = (i + 1) % HEAP_SLOTS;
        }
        t[i] = [p as u64, n as u64];
        HEAP_USED.fetch_add(1, Relaxed);
        LIVE.fetch_add(n as i64, SeqCst);
    })
}

/// The size of the block, if it is one of the program's.
unsafe fn given_back(p: *mut c_void) -> Option<u64> {
    if p.is_null() {
        return None;
    }
    let mut r = None;
    locked(|t| {
        let mut i = home(p as u64);
        while t[i][0] != p as u64 {
            if t[i][0] == 0 {
                return;
            }
            i = (i + 1) % HEAP_SLOTS;
        }
        r = Some(t[i][1]);
        LIVE.fetch_sub(t[i][1] as i64, SeqCst);
        HEAP_USED.fetch_sub(1, Relaxed);
        // close the gap
        let mut gap = i;
        loop {
            i = (i + 1) % HEAP_SLOTS;
            if t[i][0] == 0 {
                break;
            }
            let h = home(t[i][0]);
            let far = (i + HEAP_SLOTS - h) % HEAP_SLOTS;
            if far >= (i + HEAP_SLOTS - gap) % HEAP_SLOTS {
                t[gap] = t[i];
                gap = i;
            }
        }
        t[gap] = [0, 0];
    });
    r
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
    let mut p = __libc_malloc(n);
    let e = SCATTER.load(Relaxed);
    if e != 0 && n <= 4096 && !p.is_null() && !IN.get() {
        // one of two places
        let x = mix(&[e]);
        SCATTER.store(x | 1, Relaxed);
        if x >> 62 < 2 {
            let q = __libc_malloc(n);
            if x >> 62 == 0 {
                __libc_free(p);
                p = q;
            } else {
                __libc_free(q);
            }
        }
    }
    taken(p, n);
    p
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if active() {
        return sim().pid;
    }
    raw(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: size_t, m: size_t) -> *mut c_void {
    let p = __libc_calloc(n, m);
    taken(p, n.wrapping_mul(m));
    p
}
#[no_mangle]
pub unsafe extern "C" fn realloc(q: *mut c_void, n: size_t) -> *mut c_void {
    let old = given_back(q);
    let p = __libc_realloc(q, n);
    if p.is_null() && n != 0 {
        taken(q, old.unwrap_or(0) as usize);
    } else if old.is_some() || q.is_null() {
        taken(p, n);
    }
    p
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    given_back(p);
    __libc_free(p)
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, a: size_t, n: size_t) -> c_int {
    let p = __libc_memalign(a, n);
    if p.is_null() {
        return ENOMEM;
    }
    taken(p, n);
    *out = p;
    0
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: size_t, n: size_t) -> *mut c_void {
    let p = __libc_memalign(a, n);
    taken(p, n);
    p
}
#[no_mangle]
pub unsafe extern "C" fn memalign(a: size_t, n: size_t) -> *mut c_void {
    aligned_alloc(a, n)
}
