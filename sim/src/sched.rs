//! The scheduler: real threads, parked and released one at a time. Whoever holds the baton runs;
//! at every yield point the scheduler draws who holds it next. Mutexes and condition variables of
//! the process are intercepted, so blocking is a scheduling decision as well. Single-stepping
//! gives a yield point at any machine instruction.
use crate::alloc;
use crate::ctx::*;
use crate::sys::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 6;

#[derive(Clone, Copy, PartialEq)]
enum St { Unused, Ready, Blocked(usize), Done }

struct Sched {
    active: bool,
    n: usize,
    st: [St; MAXT],
    rate: u64,
    switches: u64,
}
static mut S: Sched = Sched { active: false, n: 0, st: [St::Unused; MAXT], rate: 0, switches: 0 };
static TURN: [AtomicU32; MAXT + 1] = [
    AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0),
    AtomicU32::new(0), AtomicU32::new(0),
];
const MAIN: usize = MAXT;

#[thread_local]
static mut TID: usize = usize::max_value();

pub fn tid() -> usize {
    unsafe { TID }
}
pub fn in_thread() -> bool {
    unsafe { S.active && TID < MAXT }
}

fn wait_turn(i: usize) {
    loop {
        if TURN[i].compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        unsafe { syscall(SYS_FUTEX, TURN[i].as_mut_ptr_(), 0u64, 0u64, 0u64) };
    }
}
fn give(i: usize) {
    TURN[i].store(1, SeqCst);
    unsafe { syscall(SYS_FUTEX, TURN[i].as_mut_ptr_(), 1u64, 1u64) };
}
trait RawPtr { fn as_mut_ptr_(&self) -> u64; }
impl RawPtr for AtomicU32 { fn as_mut_ptr_(&self) -> u64 { self as *const AtomicU32 as u64 } }

fn ready(but: usize) -> ([usize; MAXT], usize) {
    let s = unsafe { &S };
    let mut r = [0; MAXT];
    let mut n = 0;
    for i in 0..s.n {
        if i != but && s.st[i] == St::Ready {
            r[n] = i;
            n += 1;
        }
    }
    (r, n)
}

/// What else to do at a yield point: run other pipelines, nested.
pub static mut NEST: Option<fn(&str)> = None;

/// Somewhere the running thread may be preempted.
pub fn yield_point(why: &str) {
    if let Some(f) = unsafe { NEST } {
        let m = alloc::mon();
        alloc::mon_off();
        f(why);
        if m { alloc::mon_on() }
    }
    if !in_thread() {
        return;
    }
    let me = tid();
    let m = alloc::mon();
    alloc::mon_off();
    let (r, n) = ready(me);
    if n > 0 && unsafe { S.rate } > 0 && chance(unsafe { S.rate }, 16) {
        let next = r[draw(n as u64) as usize];
        ev("switch", &[me as u64, next as u64]);
        note!("  preempt thread {} at {}, run thread {}", me, why, next);
        fired(C::fault_preempt_thread);
        unsafe { S.switches += 1 };
        switch_to(next);
    }
    if m { alloc::mon_on() }
}

/// A good place to let another thread go on.
pub fn hand_over() {
    let (r, n) = ready(tid());
    if n > 0 && chance(1, 2) {
        let next = r[draw(n as u64) as usize];
        ev("hand over", &[tid() as u64, next as u64]);
        fired(C::fault_handover);
        switch_to(next);
    }
}

/// Nothing to do for the running thread: another one has to go on.
pub fn let_others_run() {
    let (r, n) = ready(tid());
    if n == 0 {
        vio("deadlock", format_args!("thread {} has nothing to do and no other thread can run", tid()));
        die(79);
    }
    let next = r[draw(n as u64) as usize];
    ev("idle", &[tid() as u64, next as u64]);
    switch_to(next);
}

fn switch_to(next: usize) {
    let me = tid();
    // per-run state which belongs to a thread
    let armed = ctx().armed;
    give(next);
    wait_turn(me);
    ctx().armed = armed;
}

/// Block the running thread until `wake(addr)`.
fn block_on(addr: usize, what: &str) {
    let me = tid();
    let (r, n) = ready(me);
    unsafe { S.st[me] = St::Blocked(addr) };
    if n == 0 {
        vio("deadlock", format_args!("thread {} waits for a {} and no thread can run", me, what));
        die(79);
    }
    let next = r[draw(n as u64) as usize];
    ev("block", &[me as u64, next as u64]);
    switch_to(next);
}
fn wake(addr: usize, all: bool) {
    let s = unsafe { &mut S };
    for i in 0..s.n {
        if s.st[i] == St::Blocked(addr) {
            s.st[i] = St::Ready;
            if !all { return }
        }
    }
}

fn finish() {
    let me = tid();
    unsafe { S.st[me] = St::Done };
    let (r, n) = ready(me);
    ev("exit", &[me as u64]);
    if n > 0 {
        give(r[draw(n as u64) as usize]);
    } else if unsafe { S.st[..S.n].iter().any(|s| match s { St::Blocked(_) => true, _ => false }) } {
        vio("deadlock", format_args!("thread {} ended and every other thread is blocked", me));
        die(79);
    } else {
        give(MAIN);
    }
}

/// Releases the baton when the thread's other thread-locals have been destroyed.
struct Last(Cell<bool>);
impl Drop for Last {
    fn drop(&mut self) {
        if self.0.get() { finish() }
    }
}
thread_local! { static LAST: Last = Last(Cell::new(false)); }

/// Run `fs` as threads under the scheduler; `rate`/16 is the chance of a switch at a yield point.
pub fn run_threads(fs: Vec<Box<dyn FnOnce() + Send>>, rate: u64) {
    assert!(fs.len() <= MAXT);
    let n = fs.len();
    unsafe {
        S.active = true;
        S.n = n;
        S.rate = rate;
        S.switches = 0;
        for i in 0..MAXT {
            S.st[i] = if i < n { St::Ready } else { St::Unused };
        }
    }
    count_n(C::threads, n as u64);
    if n > 1 { count(C::probe_multi_thread) }
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            unsafe { TID = i };
            LAST.with(|l| l.0.set(true));
            wait_turn(i);
            ctx().armed = [None; F::COUNT as usize];
            f();
            alloc::mon_off();
        }).expect("spawn"));
    }
    let armed = ctx().armed;
    ctx().armed = [None; F::COUNT as usize];
    let first = draw(n as u64) as usize;
    ev("start", &[n as u64, first as u64]);
    give(first);
    wait_turn(MAIN);
    unsafe { S.active = false };
    for h in hs {
        let _ = h.join();
    }
    ctx().armed = armed;
}

// ---- blocking primitives of the process -------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut c_void) -> c_int {
    loop {
        let r = pthread_mutex_trylock(m);
        if r != EBUSY {
            return r;
        }
        if in_thread() {
            block_on(m as usize, "lock");
        } else {
            std::sync::atomic::spin_loop_hint();
        }
    }
}
extern "C" {
    fn dlsym(h: *mut c_void, name: *const u8) -> usize;
}
static mut REAL_UNLOCK: usize = 0;
pub fn init() {
    unsafe {
        REAL_UNLOCK = dlsym(-1isize as *mut c_void, b"pthread_mutex_unlock\0".as_ptr());
        assert!(REAL_UNLOCK != 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut c_void) -> c_int {
    if REAL_UNLOCK == 0 {
        REAL_UNLOCK = dlsym(-1isize as *mut c_void, b"pthread_mutex_unlock\0".as_ptr());
    }
    let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(REAL_UNLOCK);
    let r = f(m);
    if S.active { wake(m as usize, true) }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_cond_wait(c: *mut c_void, m: *mut c_void) -> c_int {
    if in_thread() {
        pthread_mutex_unlock(m);
        block_on(c as usize, "condition");
        return pthread_mutex_lock(m);
    }
    // outside simulated threads: a spurious wakeup is always allowed
    pthread_mutex_unlock(m);
    syscall(24); // sched_yield
    pthread_mutex_lock(m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_cond_signal(c: *mut c_void) -> c_int {
    if S.active { wake(c as usize, false) }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_cond_broadcast(c: *mut c_void) -> c_int {
    if S.active { wake(c as usize, true) }
    0
}

// ---- single-stepping --------------------------------------------------------------------------

pub struct Step {
    /// instructions left until the next interruption
    pub left: u64,
    /// interruptions still to come
    pub times: u64,
    pub gap: u64,
    pub seen: u64,
    pub on: bool,
    pub inside: bool,
    pub action: Option<fn()>,
}
#[thread_local]
static mut STEP: Step = Step { left: 0, times: 0, gap: 0, seen: 0, on: false, inside: false, action: None };

pub fn step() -> &'static mut Step {
    unsafe { &mut STEP }
}

const EFL: usize = 17; // index of REG_EFL in gregs
const TF: u64 = 0x100;

unsafe extern "C" fn on_trap(_sig: c_int, _info: *mut c_void, uc: *mut c_void) {
    // ucontext: flags(8) link(8) stack(24) then gregs
    let efl = (uc as *mut u64).add(5 + EFL);
    let s = step();
    if !s.on {
        *efl &= !TF;
        return;
    }
    if s.inside {
        *efl &= !TF;
        return;
    }
    // only instructions of the library count, and of its allocations none
    if s.times > 0 && alloc::mon() && !alloc::pool().busy {
        s.seen += 1;
        if s.left == 0 {
            s.times -= 1;
            s.left = s.gap;
            if let Some(f) = s.action {
                s.inside = true;
                alloc::mon_off();
                f();
                alloc::mon_on();
                step().inside = false;
            }
        } else {
            s.left -= 1;
        }
    }
    let s = step();
    if s.times == 0 {
        *efl &= !TF;
    }
}

pub fn install_trap() {
    unsafe {
        let sa = SigAction { handler: on_trap as usize, mask: [0; 16], flags: SA_SIGINFO | SA_NODEFER, restorer: 0 };
        assert!(sigaction(SIGTRAP, &sa, 0 as *mut SigAction) == 0);
    }
}

#[inline(never)]
fn set_tf() {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", out("rax") _) }
}
#[inline(never)]
fn clear_tf() {
    unsafe { asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq", out("rax") _) }
}

/// Run `f`, interrupting it after `first` instructions and then every `gap`, `times` times in all.
pub fn stepped<T, FN: FnOnce() -> T>(first: u64, gap: u64, times: u64, action: fn(), f: FN) -> T {
    let s = step();
    s.left = first;
    s.gap = gap;
    s.times = times;
    s.seen = 0;
    s.inside = false;
    s.action = Some(action);
    s.on = true;
    let r = f();
    step_off();
    r
}
/// The harness's own code is not stepped through.
#[inline]
pub fn pause() -> bool {
    let s = step();
    s.on && !s.inside && stop_steps()
}
#[inline(never)]
fn stop_steps() -> bool {
    clear_tf();
    true
}
#[inline(never)]
pub fn resume() {
    if step().on && !step().inside && step().times > 0 { set_tf() }
}
/// After a failure unwound through `stepped`.
pub fn step_off() {
    if step().on && !step().inside {
        clear_tf();
        step().on = false;
        count_n(C::probe_tf_steps, step().seen);
    }
}
