//! The single simulation context: choices, event log, violations, counters, armed faults.
//! Only the thread holding the scheduler's baton touches it.
use crate::sys;
use std::fmt;
use std::fmt::Write as _;
use std::panic;

pub const MAXC: usize = 1 << 15;
pub const BATCH: usize = 4096;
pub const LOGCAP: usize = 4 << 20;

macro_rules! counters {
    ($($name:ident),* $(,)*) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum C { $($name),*, COUNT }
        pub const COUNTER_NAMES: &[&str] = &[$(stringify!($name)),*];
    }
}

counters! {
    // fault kinds, counted when they actually fire
    fault_closure, fault_load, fault_store, fault_source, fault_source_short, fault_source_long,
    fault_alloc_refused, fault_junk_memory, fault_abandon_resume, fault_drop_midway,
    fault_preempt_thread, fault_preempt_instruction, fault_nested_call, fault_nested_signal,
    fault_handover, fault_misuse,
    fault_io_open, fault_io_other, fault_io_write_error, fault_io_write_short, fault_io_eintr,
    fault_io_stdout_closed, fault_log_removed, fault_log_rotated, fault_log_truncated,
    fault_thread_exit_op, fault_readonly_dir,
    // reach probes: rare conditions we want to see happening
    probe_tail_short, probe_tail_merged, probe_tail_exact, probe_early_end, probe_empty,
    probe_end_twice, probe_unpack_pack, probe_unaligned_pos, probe_clone, probe_far, probe_big, probe_nth,
    probe_skip, probe_skip_past_end, probe_retry_after_fault, probe_resume_after_closure_fault,
    probe_recollect, probe_refused, probe_short_dest, probe_readonly_input, probe_guard_low,
    probe_guard_high, probe_width_changing_map, probe_nested_map, probe_zip_mismatch,
    probe_multi_thread, probe_log_line, probe_tf_steps, probe_odd_pair, probe_peek_retry,
    probe_drop_counted, probe_finalize,
    // totals
    known_finding, ops, lib_calls, vectors, threads, nontrivial,
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct RunRes {
    pub digest: u64,
    pub steps: u32,
    pub nontrivial: u32,
}

#[repr(C)]
pub struct Shared {
    pub nchoices: usize,
    pub choices: [u64; MAXC],
    pub run_index: u64,
    pub vio: usize,
    pub vclass: [u8; 128],
    pub vclass_len: usize,
    pub vmsg: [u8; 4096],
    pub vmsg_len: usize,
    pub log_len: usize,
    pub log: [u8; LOGCAP],
    pub digest: u64,
    pub steps: u64,
    pub nresults: usize,
    pub results: [RunRes; BATCH],
    pub counters: [u64; C::COUNT as usize],
    pub finished: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum F { Closure, Load, Store, Source, COUNT }

pub struct Ctx {
    pub sh: *mut Shared,
    pub rng: u64,
    pub replay: Option<Vec<u64>>,
    pub verbose: bool,
    pub armed: [Option<u64>; F::COUNT as usize],
    pub fired: bool,
    pub nontrivial: bool,
    /// kinds of operation applied in this run
    pub opmask: u64,
    pub panic_msg: [u8; 512],
    pub panic_len: usize,
    pub ev_limit: u64,
    pub last_fault: Option<F>,
    pub last_id: usize,
    /// violation classes listed as known findings
    pub known: Vec<String>,
    /// C15 leaves histories out
    pub no_histories: bool,
}

static mut CTX: Ctx = Ctx {
    sh: 0 as *mut Shared, rng: 0, replay: None, verbose: false, armed: [None; F::COUNT as usize],
    fired: false, nontrivial: false, opmask: 0, panic_msg: [0; 512], panic_len: 0, ev_limit: 0, last_fault: None, last_id: 0, known: Vec::new(), no_histories: false,
};

#[inline]
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut CTX }
}
#[inline]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *CTX.sh }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn rng_next() -> u64 {
    let c = ctx();
    c.rng = c.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
    mix(c.rng)
}

pub struct Stop;
pub type R<T = ()> = Result<T, Stop>;

/// Reset everything that belongs to one run. `seed` drives it, unless `replay` is given.
pub fn begin_run(seed: u64, replay: Option<Vec<u64>>, verbose: bool) {
    let c = ctx();
    c.rng = mix(seed ^ 0x5151_7EED);
    c.replay = replay;
    c.verbose = verbose;
    c.armed = [None; F::COUNT as usize];
    c.fired = false;
    c.nontrivial = false;
    c.opmask = 0;
    c.ev_limit = 4_000_000;
    c.last_fault = None;
    let s = sh();
    s.nchoices = 0;
    s.digest = 0xcbf2_9ce4_8422_2325;
    s.steps = 0;
    s.vio = 0;
    s.vclass_len = 0;
    s.vmsg_len = 0;
    s.log_len = 0;
}

/// The one source of every decision: a number below `n`. 0 is the simplest choice.
pub fn draw(n: u64) -> u64 {
    debug_assert!(n > 0);
    let i = sh().nchoices;
    let v = match ctx().replay.as_ref() {
        Some(r) => r.get(i).map_or(0, |x| x % n),
        None => rng_next() % n,
    };
    if i < MAXC {
        sh().choices[i] = v;
        sh().nchoices = i + 1;
    }
    v
}
/// True with probability `num`/`den`; false is the simple choice.
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num.min(den)
}
pub fn range(lo: usize, hi: usize) -> usize {
    lo + draw((hi - lo + 1) as u64) as usize
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u64) as usize]
}

struct Buf<'a>(&'a mut [u8], &'a mut usize);
impl<'a> fmt::Write for Buf<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let room = self.0.len() - *self.1;
        let n = s.len().min(room);
        self.0[*self.1..*self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        *self.1 += n;
        Ok(())
    }
}

/// Record an event: part of the run's digest, and of the trace when replaying.
pub fn ev(name: &str, args: &[u64]) {
    let s = sh();
    s.steps += 1;
    let mut h = s.digest;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    for a in args {
        h = (h ^ a).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    s.digest = h;
    if ctx().verbose {
        let mut w = Buf(&mut s.log, &mut s.log_len);
        let _ = write!(w, "{}", name);
        for a in args {
            let _ = if *a > 0xffff { write!(w, " {:#x}", a) } else { write!(w, " {}", a) };
        }
        let _ = write!(w, "\n");
    }
    if s.steps > ctx().ev_limit {
        vio("no-progress", format_args!("more than {} events in one run", ctx().ev_limit));
        die(78);
    }
}
/// A line for the human reading a replay; never part of the digest.
pub fn note(a: fmt::Arguments) {
    if ctx().verbose {
        let s = sh();
        let mut w = Buf(&mut s.log, &mut s.log_len);
        let _ = w.write_fmt(a);
        let _ = w.write_str("\n");
    }
}
#[macro_export]
macro_rules! note { ($($a:tt)*) => { if $crate::ctx::ctx().verbose { $crate::ctx::note(format_args!($($a)*)) } } }

/// Record a violation; the first one of a run counts.
pub fn vio(class: &str, msg: fmt::Arguments) {
    let s = sh();
    if s.vio != 0 {
        return;
    }
    if ctx().known.iter().any(|k| *k == class) {
        note(format_args!("known finding {}: {}", class, msg));
        count(C::known_finding);
        return;
    }
    s.vio = 1;
    s.vclass_len = 0;
    s.vmsg_len = 0;
    let _ = Buf(&mut s.vclass, &mut s.vclass_len).write_str(class);
    let _ = Buf(&mut s.vmsg, &mut s.vmsg_len).write_fmt(msg);
    note(format_args!("VIOLATION {}: {}", class, msg));
}
pub fn failed() -> bool {
    sh().vio != 0
}
pub fn ok() -> R {
    if failed() { Err(Stop) } else { Ok(()) }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c {
            $crate::ctx::vio($class, format_args!($($a)*));
            return Err($crate::ctx::Stop);
        }
    }
}

/// Leave the simulated process at once (it is a forked child).
pub fn die(code: i32) -> ! {
    unsafe { sys::_exit(code) }
}

pub fn count(c: C) {
    sh().counters[c as usize] += 1;
}
pub fn count_n(c: C, n: u64) {
    sh().counters[c as usize] += n;
}
pub fn fired(c: C) {
    count(c);
    ctx().fired = true;
    ctx().nontrivial = true;
}

/// Arm a fault of class `f` at the `n`th such event from now (0 = the next).
pub fn arm(f: F, n: u64) {
    ctx().armed[f as usize] = Some(n);
}
pub fn disarm() {
    ctx().armed = [None; F::COUNT as usize];
}
pub fn is_armed(f: F) -> bool {
    ctx().armed[f as usize].is_some()
}
/// Report an event at which a fault of class `f` may happen; true if it does.
pub fn hit(f: F) -> bool {
    let a = &mut ctx().armed[f as usize];
    match *a {
        Some(0) => {
            *a = None;
            ctx().last_fault = Some(f);
            fired(match f {
                F::Closure => C::fault_closure,
                F::Load => C::fault_load,
                F::Store => C::fault_store,
                _ => C::fault_source,
            });
            ev("fault", &[f as u64]);
            true
        }
        Some(n) => {
            *a = Some(n - 1);
            false
        }
        None => false,
    }
}

pub struct Fault(pub u64);

/// Fail in the way user code fails: by unwinding.
pub fn throw(id: u64) -> ! {
    crate::alloc::mon_off();
    panic::resume_unwind(Box::new(Fault(id)))
}

pub enum Out<T> {
    Ok(T),
    /// the injected failure came back out
    Fault,
    /// the library (or std) panicked by itself
    Panic,
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self { Out::Ok(v) => Some(v), _ => None }
    }
    pub fn is_ok(&self) -> bool {
        match self { Out::Ok(_) => true, _ => false }
    }
    /// The value of a call which had no reason to fail.
    pub fn must(self, what: &str) -> R<T> {
        match self {
            Out::Ok(v) => Ok(v),
            Out::Fault => {
                vio("lost-fault", format_args!("{}: failed with a fault that was not armed for it", what));
                Err(Stop)
            }
            Out::Panic => {
                vio("unexpected-panic", format_args!("{}: {}", what, panic_msg()));
                Err(Stop)
            }
        }
    }
}

pub fn panic_msg() -> String {
    String::from_utf8_lossy(&ctx().panic_msg[..ctx().panic_len]).into_owned()
}

/// Call into the library (or anything that may unwind), catching failures.
#[inline]
pub fn attempt<T, FN: FnOnce() -> T>(f: FN) -> Out<T> {
    count(C::lib_calls);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    crate::alloc::mon_off();
    match r {
        Ok(v) => Out::Ok(v),
        Err(p) => if p.is::<Fault>() { Out::Fault } else { Out::Panic },
    }
}

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        crate::alloc::mon_off();
        crate::sched::step_off();
        let c = ctx();
        c.panic_len = 0;
        let mut n = 0;
        {
            let mut w = Buf(&mut c.panic_msg, &mut n);
            let p = i.payload();
            if let Some(s) = p.downcast_ref::<&str>() {
                let _ = w.write_str(s);
            } else if let Some(s) = p.downcast_ref::<String>() {
                let _ = w.write_str(s);
            }
            if let Some(l) = i.location() {
                let _ = write!(w, " at {}:{}", l.file(), l.line());
            }
        }
        c.panic_len = n;
        if c.verbose {
            note(format_args!("panic: {}", panic_msg()));
        }
    }));
}
