//! Real system calls, not through the (intercepted) C library.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

/// As the C library returns it.
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

pub fn fail(e: i32) -> i64 {
    set_errno(e);
    -1
}

pub fn park(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        unsafe { raw(libc::SYS_futex, w as *const _ as i64, 128, 0, 0, 0, 0) };
    }
}

pub fn unpark(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { raw(libc::SYS_futex, w as *const _ as i64, 129, 1, 0, 0, 0) };
}

pub fn exit_group(s: i32) -> ! {
    unsafe {
        loop {
            raw(libc::SYS_exit_group, s as i64, 0, 0, 0, 0, 0);
        }
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { raw(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

pub fn read_all(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let n = unsafe {
            raw(libc::SYS_pread64, fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64, v.len() as i64, 0, 0)
        };
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&buf[..n as usize]);
    }
}

pub fn errno_name(e: i32) -> String {
    match e {
        libc::ENOENT => "ENOENT",
        libc::EINTR => "EINTR",
        libc::EIO => "EIO",
        libc::EAGAIN => "EAGAIN",
        libc::ENOMEM => "ENOMEM",
        libc::EACCES => "EACCES",
        libc::EISDIR => "EISDIR",
        libc::ENFILE => "ENFILE",
        libc::EMFILE => "EMFILE",
        libc::ENOSPC => "ENOSPC",
        libc::EPIPE => "EPIPE",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::ECONNABORTED => "ECONNABORTED",
        libc::ECONNRESET => "ECONNRESET",
        libc::ENOBUFS => "ENOBUFS",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::EHOSTUNREACH => "EHOSTUNREACH",
        libc::EPROTO => "EPROTO",
        libc::ENETDOWN => "ENETDOWN",
        libc::EPERM => "EPERM",
        libc::ELOOP => "ELOOP",
        _ => return format!("errno{e}"),
    }
    .into()
}
