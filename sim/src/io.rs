//! The file layer seam: the system calls a tracer makes on its log and on standard output are
//! intercepted for simulated threads. They reach real files in a scratch directory, unless the
//! simulator decides that they fail, are interrupted or cut short, or that the log is removed,
//! rotated or truncated in between.
use crate::ctx::*;
use crate::sched;
use crate::sys::*;
use std::ffi::CStr;

pub const LOG: &str = "faster-debug.txt";

/// One file which is or was the log.
pub struct Inode {
    pub ino: u64,
    /// the simulator's own descriptor of it
    pub keep: i64,
    /// what it held before
    pub prior: Vec<u8>,
    /// every successful write: (thread, bytes)
    pub writes: Vec<(usize, Vec<u8>)>,
}

#[derive(Default)]
pub struct Thread {
    /// operations started by this thread
    pub op: usize,
    /// an output call of the current operation failed for good
    pub failed: bool,
    /// events in the world when the current operation started
    pub events: u64,
    /// everything this thread wrote to logs
    pub log: Vec<u8>,
    /// everything this thread had accepted by standard output
    pub out: Vec<u8>,
    pub cut: bool,
    /// calls which failed in a row
    pub tries: u64,
}

pub struct Io {
    pub on: bool,
    /// outside simulated threads as well, without faults: what an operation reports when all is well
    pub capture: bool,
    pub inodes: Vec<Inode>,
    pub fds: Vec<(i64, usize)>,
    pub threads: Vec<Thread>,
    /// chance/64 of a fault at a call, and which kinds
    pub rate: u64,
    pub kinds: Vec<Fk>,
    /// chance/64 of an event in the world at a call
    pub churn: u64,
    /// the log can't be opened for now
    pub broken: i32,
    /// what is written to the log fails for now
    pub full: i32,
    /// and stays like that
    pub lasting: bool,
    pub stdout_gone: i32,
    pub events: u64,
    pub budget: u64,
    pub calls: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fk { OpenFail, OpenEintr, LogFail, LogEintr, LogShort, OutFail, OutEintr, OutShort, Close, Other }

static mut IO: Io = Io { on: false, capture: false, inodes: Vec::new(), fds: Vec::new(), threads: Vec::new(), rate: 0, kinds: Vec::new(), churn: 0,
                         broken: 0, full: 0, lasting: false, stdout_gone: 0, events: 0, budget: 0, calls: 0 };
pub fn io() -> &'static mut Io { unsafe { &mut IO } }

pub fn me() -> usize { if io().capture { 0 } else { sched::tid() } }
fn active() -> bool { io().capture || (io().on && sched::in_thread()) }
pub fn thread() -> &'static mut Thread {
    let t = me();
    let ts = &mut io().threads;
    while ts.len() <= t { ts.push(Thread::default()) }
    &mut ts[t]
}

// ---- the real files, as the simulator handles them -----------------------------------------------

fn sys_open(path: &str, flags: u64) -> i64 {
    let p = format!("{}\0", path);
    let e = errno();
    let r = unsafe { syscall(SYS_OPENAT, -100i64, p.as_ptr(), flags | 0o2000000, 0o644u64) };
    set_errno(e);
    r
}
fn ino(fd: i64) -> u64 {
    let mut st = [0u64; 18];
    unsafe { syscall(5, fd, st.as_mut_ptr()) };
    st[1]
}
pub fn read_all(fd: i64) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = [0u8; 4096];
    loop {
        let n = unsafe { syscall(17, fd, buf.as_mut_ptr(), buf.len(), v.len()) };
        if n <= 0 { return v }
        v.extend_from_slice(&buf[..n as usize]);
    }
}
/// The file which is the log now, if any.
pub fn current() -> Option<u64> {
    let fd = sys_open(LOG, 0);
    if fd < 0 { return None }
    let i = ino(fd);
    unsafe { syscall(SYS_CLOSE, fd) };
    Some(i)
}
pub fn unlink(p: &str) {
    let p = format!("{}\0", p);
    unsafe { syscall(87, p.as_ptr()) };
}
fn rename(a: &str, b: &str) {
    let (a, b) = (format!("{}\0", a), format!("{}\0", b));
    unsafe { syscall(82, a.as_ptr(), b.as_ptr()) };
}
pub fn create(content: &[u8]) {
    unlink(LOG);
    let fd = sys_open(LOG, 0o102);
    assert!(fd >= 0, "the scratch directory is not writable");
    unsafe { syscall(SYS_WRITE, fd, content.as_ptr(), content.len()) };
    know(fd, content.to_vec());
    unsafe { syscall(SYS_CLOSE, fd) };
}
/// The record of the file behind `fd`.
fn know(fd: i64, prior: Vec<u8>) -> usize {
    let i = ino(fd);
    if let Some(k) = io().inodes.iter().position(|x| x.ino == i) { return k }
    // a descriptor of its own keeps the file, and its number, from being reused
    let mut path = format!("/proc/self/fd/{}", fd);
    let keep = sys_open(&path, 0);
    path.clear();
    assert!(keep >= 0, "can't open a log again");
    io().inodes.push(Inode { ino: i, keep, prior, writes: vec![] });
    io().inodes.len() - 1
}

pub fn begin() {
    let i = io();
    unlink(LOG);
    for n in i.inodes.drain(..) { unsafe { syscall(SYS_CLOSE, n.keep) }; }
    i.fds.clear();
    i.threads.clear();
    i.kinds.clear();
    i.rate = 0;
    i.churn = 0;
    i.broken = 0;
    i.full = 0;
    i.lasting = false;
    i.stdout_gone = 0;
    i.events = 0;
    i.budget = 0;
    i.calls = 0;
    i.on = false;
    i.capture = false;
}

// ---- decisions ------------------------------------------------------------------------------------

/// Something happens to the log while nobody looks.
fn world() {
    let i = io();
    if i.churn == 0 || !chance(i.churn, 64) { return }
    i.events += 1;
    match draw(6) {
        0 | 1 => {
            note!("  the log is removed");
            fired(C::fault_log_removed);
            ev("removed", &[]);
            unlink(LOG)
        }
        2 => {
            note!("  the log is rotated");
            fired(C::fault_log_rotated);
            ev("rotated", &[]);
            rename(LOG, &format!("{}.1", LOG))
        }
        3 => {
            note!("  the log is truncated");
            fired(C::fault_log_truncated);
            ev("truncated", &[]);
            let fd = sys_open(LOG, 2);
            if fd >= 0 {
                let k = know(fd, vec![]);
                crate::trace::check_file(k);
                unsafe { syscall(77, fd, 0u64) };
                io().inodes[k].prior.clear();
                io().inodes[k].writes.clear();
                unsafe { syscall(SYS_CLOSE, fd) };
            }
        }
        4 | 5 if i.lasting => {}
        4 => {
            i.broken = pick(&[EACCES, EROFS, ENOENT, ENOSPC, EMFILE, 21]);
            note!("  the log can't be opened from now on (error {})", i.broken);
            ev("broken", &[i.broken as u64]);
            if i.broken == EROFS || i.broken == EACCES { fired(C::fault_readonly_dir) }
        }
        _ => {
            if i.broken != 0 { note!("  the log can be opened again") }
            if i.full != 0 { note!("  the log can be written to again") }
            i.broken = 0;
            i.full = 0
        }
    }
}
fn fault(k: Fk) -> bool {
    let i = io();
    if i.capture || i.budget == 0 || !i.kinds.contains(&k) || !chance(i.rate, 64) { return false }
    i.budget -= 1;
    true
}
fn failed(c: C, e: i32, what: &str, log: bool) -> i64 {
    note!("  thread {}: {} fails with error {}", me(), what, e);
    fired(c);
    ev("io-fault", &[c as u64, e as u64]);
    if log && e != EINTR { thread().failed = true }
    thread().tries += 1;
    if thread().tries == 5000 {
        vio("no-progress", format_args!("thread {} keeps trying: {} failed with error {} and so did 5000 calls in a row", me(), what, e));
        // all is well from here on
        let i = io();
        i.broken = 0;
        i.full = 0;
        i.stdout_gone = 0;
    }
    set_errno(e);
    -1
}
fn at(why: &str) {
    if io().capture { return }
    io().calls += 1;
    sched::yield_point(why);
    world();
}

unsafe fn do_open(path: *const u8, flags: u64, mode: u64) -> i64 {
    let raw = path;
    let path = cstr(path);
    if !(active() && path.rsplit('/').next() == Some(LOG)) {
        return syscall(SYS_OPENAT, -100i64, raw, flags, mode);
    }
    at("open of the log");
    if io().broken != 0 && !io().capture { return failed(C::fault_io_open, io().broken, "opening the log", true) }
    if fault(Fk::OpenEintr) { return failed(C::fault_io_eintr, EINTR, "opening the log", true) }
    if fault(Fk::OpenFail) { return failed(C::fault_io_open, pick(&[EACCES, ENOSPC, EMFILE, EROFS, ENOENT, EIO]), "opening the log", true) }
    let fd = syscall(SYS_OPENAT, -100i64, raw, flags, mode);
    if fd >= 0 {
        let e = errno();
        let prior = if flags & 0o1000 != 0 { vec![] } else { let r = sys_open(path, 0); let v = read_all(r); syscall(SYS_CLOSE, r); v };
        let k = know(fd, prior);
        io().fds.push((fd, k));
        set_errno(e);
        if !io().capture { ev("opened", &[me() as u64, k as u64]); note!("  thread {} opens the log (file {})", me(), k) }
    }
    fd
}
fn log_of(fd: i64) -> Option<usize> { io().fds.iter().rev().find(|x| x.0 == fd).map(|x| x.1) }

fn do_write(fd: i64, buf: &[u8]) -> i64 { do_write_at(fd, buf, None) }
fn do_write_at(fd: i64, buf: &[u8], off: Option<i64>) -> i64 {
    if !active() { return raw_write(fd, buf) }
    if let Some(k) = log_of(fd) {
        at("write to the log");
        let t = thread();
        if fault(Fk::LogEintr) { return failed(C::fault_io_eintr, EINTR, "writing the log", true) }
        if io().full != 0 && !t.cut && !io().capture { return failed(C::fault_io_write_error, io().full, "writing the log", true) }
        if !t.cut && fault(Fk::LogFail) { return failed(C::fault_io_write_error, pick(&[ENOSPC, EIO]), "writing the log", true) }
        let mut n = buf.len();
        if n > 1 && fault(Fk::LogShort) {
            n = range(1, n - 1);
            t.cut = true;
            note!("  thread {}: only {} of {} bytes are written", me(), n, buf.len());
            fired(C::fault_io_write_short);
            ev("short", &[n as u64]);
        }
        let r = match off { None => raw_write(fd, &buf[..n]), Some(o) => unsafe { syscall(18, fd, buf.as_ptr(), n, o) } };
        if r > 0 {
            thread().tries = 0;
            let b = buf[..r as usize].to_vec();
            if !io().capture {
                ev("log", &[me() as u64, k as u64, r as u64]);
                note!("  thread {} writes {:?}", me(), String::from_utf8_lossy(&b));
                crate::trace::check_write(k);
            }
            thread().log.extend_from_slice(&b);
            let w = (me(), b);
            io().inodes[k].writes.push(w);
        }
        let e = errno();
        if !io().capture { sched::yield_point("written") }
        set_errno(e);
        return r;
    }
    if fd == 1 || fd == 2 {
        at("write to standard output");
        if io().stdout_gone != 0 && !io().capture { return failed(C::fault_io_stdout_closed, io().stdout_gone, "writing standard output", false) }
        if fault(Fk::OutEintr) { return failed(C::fault_io_eintr, EINTR, "writing standard output", false) }
        if fault(Fk::OutFail) { return failed(C::fault_io_write_error, pick(&[EIO, EPIPE, EBADF, ENOSPC, 11]), "writing standard output", false) }
        let mut n = buf.len();
        if n > 1 && fault(Fk::OutShort) {
            n = range(1, n - 1);
            fired(C::fault_io_write_short);
            ev("short", &[n as u64]);
        }
        thread().tries = 0;
        if fd == 1 { thread().out.extend_from_slice(&buf[..n]) }
        if !io().capture { ev("stdout", &[me() as u64, n as u64]) }
        return n as i64;
    }
    raw_write(fd, buf)
}
fn raw_write(fd: i64, buf: &[u8]) -> i64 { unsafe { syscall(SYS_WRITE, fd, buf.as_ptr(), buf.len()) } }

fn do_close(fd: i64) -> i64 {
    if active() {
        if let Some(p) = io().fds.iter().rposition(|x| x.0 == fd) {
            io().fds.remove(p);
            at("close of the log");
            let r = unsafe { syscall(SYS_CLOSE, fd) };
            if fault(Fk::Close) { return failed(C::fault_io_write_error, pick(&[EIO, EINTR, ENOSPC]), "closing the log", false) }
            return r;
        }
    }
    unsafe { syscall(SYS_CLOSE, fd) }
}

// ---- the calls themselves --------------------------------------------------------------------------

unsafe fn cstr<'a>(p: *const u8) -> &'a str { CStr::from_ptr(p as *const i8).to_str().unwrap_or("") }

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: c_int, mode: u32) -> c_int { do_open(p, flags as u64, mode as u64) as c_int }
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: c_int, mode: u32) -> c_int { do_open(p, flags as u64, mode as u64) as c_int }
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const u8, n: usize) -> isize { do_write(fd as i64, std::slice::from_raw_parts(b, n)) as isize }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const (*const u8, usize), n: c_int) -> isize {
    let mut all = vec![];
    for i in 0..n as usize { let (p, l) = *v.add(i); all.extend_from_slice(std::slice::from_raw_parts(p, l)) }
    do_write(fd as i64, &all) as isize
}

// ---- what else a tracer might do with a file: may fail as well ---------------------------------------

/// Some(-1) if the simulator lets the call fail.
fn other(what: &str, log: bool) -> Option<i64> {
    at(what);
    if fault(Fk::Other) { return Some(failed(C::fault_io_other, pick(&[EIO, EACCES, ENOENT, ENOSPC, EINTR]), what, log)) }
    None
}
unsafe fn fd_call(nr: i64, what: &str, fd: c_int, a: u64, b: u64) -> i64 {
    if active() && log_of(fd as i64).is_some() {
        if let Some(r) = other(what, true) { return r }
    }
    syscall(nr, fd as i64, a, b)
}
unsafe fn path_call(nr: i64, what: &str, p: *const u8, a: u64) -> i64 {
    if active() && (nr == 83 || cstr(p).rsplit('/').next() == Some(LOG)) {
        if let Some(r) = other(what, true) { return r }
    }
    syscall(nr, p, a)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, how: c_int) -> i64 { fd_call(8, "seek in the log", fd, off as u64, how as u64) }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { fd_call(74, "sync of the log", fd, 0, 0) as c_int }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { fd_call(75, "sync of the log", fd, 0, 0) as c_int }
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int { fd_call(73, "lock of the log", fd, how as u64, 0) as c_int }
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> c_int { path_call(83, "making a directory", p, mode as u64) as c_int }
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const u8, mode: u32) -> c_int { path_call(90, "chmod of the log", p, mode as u64) as c_int }
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if active() && other("finding the current directory", false).is_some() { return 0 as *mut u8 }
    if syscall(79, b, n) < 0 { 0 as *mut u8 } else { b }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const u8, n: usize, off: i64) -> isize {
    if active() && log_of(fd as i64).is_some() { return do_write_at(fd as i64, std::slice::from_raw_parts(b, n), Some(off)) as isize }
    syscall(18, fd as i64, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int { do_close(fd as i64) as c_int }
