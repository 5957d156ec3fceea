//! Hand-written bindings: no libc crate is available offline for this toolchain.
#![allow(non_camel_case_types)]
pub type c_int = i32;
pub type c_void = u8;

extern "C" {
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn getpid() -> c_int;
    pub fn alarm(s: u32) -> u32;
    pub fn syscall(n: i64, ...) -> i64;
    pub fn sigaction(sig: c_int, act: *const SigAction, old: *mut SigAction) -> c_int;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> c_int;
    pub fn ftruncate(fd: c_int, len: i64) -> c_int;
    pub fn __errno_location() -> *mut c_int;
    pub fn pthread_mutex_trylock(m: *mut c_void) -> c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: c_int,
    pub restorer: usize,
}

#[repr(C)]
pub struct StackT {
    pub sp: *mut c_void,
    pub flags: c_int,
    pub size: usize,
}

pub const PROT_NONE: c_int = 0;
pub const PROT_READ: c_int = 1;
pub const PROT_WRITE: c_int = 2;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_FIXED: c_int = 0x10;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const SIGILL: c_int = 4;
pub const SIGTRAP: c_int = 5;
pub const SIGABRT: c_int = 6;
pub const SIGBUS: c_int = 7;
pub const SIGFPE: c_int = 8;
pub const SIGKILL: c_int = 9;
pub const SIGSEGV: c_int = 11;
pub const SIGALRM: c_int = 14;
pub const SA_SIGINFO: c_int = 4;
pub const SA_ONSTACK: c_int = 0x0800_0000;
pub const SA_NODEFER: c_int = 0x4000_0000;
pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const EBUSY: c_int = 16;
pub const EMFILE: c_int = 24;
pub const ENOSPC: c_int = 28;
pub const EROFS: c_int = 30;
pub const EPIPE: c_int = 32;
pub const EACCES: c_int = 13;
pub const ENOENT: c_int = 2;
pub const EBADF: c_int = 9;
pub const SYS_WRITE: i64 = 1;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_MEMFD: i64 = 319;

pub fn errno() -> c_int {
    unsafe { *__errno_location() }
}
pub fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e }
}

/// An anonymous mapping shared with forked children.
pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(0 as *mut u8, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}
