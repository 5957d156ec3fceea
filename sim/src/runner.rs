//! Runs scenarios in forked children, so that a crash is one more outcome.
use crate::alloc;
use crate::ctx::*;
use crate::mem;
use crate::scen;
use crate::sched;
use crate::sys::*;
use std::fs;
use std::io::Write;

pub fn init() {
    let p = map_shared(std::mem::size_of::<Shared>()) as *mut Shared;
    ctx().sh = p;
    sched::init();
    alloc::init();
    mem::init();
    install_hook();
}

#[thread_local]
static mut ALT: usize = 0;
/// Crashes are handled on a stack of their own.
pub fn alt_stack() {
    unsafe {
        if ALT == 0 {
            ALT = mmap(0 as *mut u8, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0) as usize;
        }
        let ss = StackT { sp: ALT as *mut u8, flags: 0, size: 1 << 17 };
        sigaltstack(&ss, 0 as *mut StackT);
    }
}

unsafe extern "C" fn on_crash(sig: c_int, info: *mut c_void, uc: *mut c_void) {
    alloc::mon_off();
    let addr = *(info.add(16) as *const usize);
    let err = *(uc as *const u64).add(5 + 19);
    let write = err & 2 == 2;
    let verb = if write { "write" } else { "read" };
    match sig {
        SIGSEGV | SIGBUS => {
            if let Some((arena, off, ro)) = mem::locate(addr) {
                if write && ro && off >= 0 && off < mem::mapped(arena) as isize {
                    vio("wrote-read-only", format_args!("a write to a collection that is only read (buffer {}, byte {} of its pages)", arena, off));
                } else {
                    vio(if write { "stray-write" } else { "stray-read" }, format_args!("a {} outside the collection: buffer {}, byte {} of its {} mapped ones", verb, arena, off, mem::mapped(arena)));
                }
            } else if alloc::in_pool(addr) {
                vio(if write { "stray-heap-write" } else { "stray-heap-read" }, format_args!("a {} behind (or before) an allocation", verb));
            } else {
                vio("crash", format_args!("a {} at {}", verb, if addr < 65536 { "a null pointer" } else { "an unmapped address" }));
            }
        }
        SIGALRM => vio("hang", format_args!("a run did not end within {} s", LIMIT)),
        SIGABRT | SIGILL if alloc::pool().refused > 0 => vio("allocated", format_args!("the process was ended because an allocation was refused")),
        SIGABRT => vio("abort", format_args!("the process was aborted: {}", panic_msg())),
        _ => vio("crash", format_args!("signal {}", sig)),
    }
    die(70)
}
const LIMIT: u32 = 20;

fn handlers() {
    alt_stack();
    unsafe {
        for s in [SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM].iter() {
            let sa = SigAction { handler: on_crash as usize, mask: [0; 16], flags: SA_SIGINFO | SA_ONSTACK | SA_NODEFER, restorer: 0 };
            sigaction(*s, &sa, 0 as *mut SigAction);
        }
    }
    sched::install_trap();
}

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
pub fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    mix(mix(seed ^ hash(prop)) ^ index)
}

fn one(f: fn() -> R, seed: u64, replay: Option<Vec<u64>>, verbose: bool) {
    begin_run(seed, replay, verbose);
    scen::begin(0);
    // junk patterns are a choice as well
    alloc::begin_run(draw(1 << 16));
    unsafe { alarm(LIMIT) };
    let _ = f();
    alloc::mon_off();
    unsafe { alarm(0) };
}

/// Run `f` in a child; what became of it is in the shared memory.
fn child<G: FnOnce()>(f: G) -> i32 {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, SIGKILL as u64, 0, 0, 0);
            handlers();
            let null = b"/dev/null\0";
            let fd = syscall(SYS_OPENAT, -100i64, null.as_ptr(), 1u64, 0u64);
            syscall(33, fd, 2u64);
            f();
            sh().finished = 1;
            _exit(0)
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}
fn shared_reset() {
    let s = sh();
    s.finished = 0;
    s.nresults = 0;
    s.vio = 0;
    s.nchoices = 0;
}
fn class() -> String { let s = sh(); String::from_utf8_lossy(&s.vclass[..s.vclass_len]).into_owned() }
fn message() -> String { let s = sh(); String::from_utf8_lossy(&s.vmsg[..s.vmsg_len]).into_owned() }

/// A child which neither finished nor said why.
fn unexplained(st: i32) {
    if sh().finished == 0 && sh().vio == 0 {
        vio("crash", format_args!("the simulated process ended with status {:#x}", st));
    }
}

pub struct Outcome { pub class: Option<String>, pub msg: String, pub digest: u64, pub choices: Vec<u64>, pub log: String }

pub fn replay(prop: &str, choices: Vec<u64>, verbose: bool) -> Outcome {
    let f = scen::scenario(prop).expect("no such property");
    shared_reset();
    let st = child(|| one(f, 0, Some(choices.clone()), verbose));
    unexplained(st);
    let s = sh();
    Outcome {
        class: if s.vio != 0 { Some(class()) } else { None },
        msg: message(),
        digest: s.digest,
        choices: s.choices[..s.nchoices].to_vec(),
        log: String::from_utf8_lossy(&s.log[..s.log_len]).into_owned(),
    }
}

/// The trace of one seeded run.
pub fn sample(prop: &str, seed: u64, index: u64) -> String {
    let f = scen::scenario(prop).expect("no such property");
    shared_reset();
    child(|| one(f, run_seed(prop, seed, index), None, true));
    String::from_utf8_lossy(&sh().log[..sh().log_len]).into_owned()
}

/// Make a failing list of choices smaller while it fails in the same way.
pub fn shrink(prop: &str, mut best: Vec<u64>, class: &str, seconds: u64) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let late = || t0.elapsed().as_secs() >= seconds;
    let fails = |c: &Vec<u64>| -> Option<Vec<u64>> {
        let o = replay(prop, c.clone(), false);
        if o.class.as_ref().map_or(false, |x| x == class) { Some(o.choices) } else { None }
    };
    let trim = |mut c: Vec<u64>| { while c.last() == Some(&0) { c.pop(); } c };
    if let Some(c) = fails(&best) { best = trim(c) }
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().map(|x| *x as u128).sum::<u128>()) < (b.len(), b.iter().map(|x| *x as u128).sum());
    loop {
        let before = best.clone();
        for &size in [64usize, 32, 16, 8, 4, 3, 2, 1].iter() {
            let mut i = best.len();
            while i > 0 && !late() {
                i = i.saturating_sub(size.max(1));
                if i + size > best.len() { continue }
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Some(n) = fails(&c) {
                    let n = trim(n);
                    if better(&n, &best) { best = n; if i > best.len() { i = best.len() } continue }
                }
                let mut c = best.clone();
                if c[i..i + size].iter().any(|x| *x != 0) {
                    for x in &mut c[i..i + size] { *x = 0 }
                    if let Some(n) = fails(&c) {
                        let n = trim(n);
                        if better(&n, &best) { best = n; if i > best.len() { i = best.len() } }
                    }
                }
            }
        }
        for i in 0..best.len() {
            if late() || i >= best.len() { break }
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi && !late() && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match fails(&c) {
                    Some(n) => { let n = trim(n); if better(&n, &best) { best = n; hi = mid } else { break } }
                    None => lo = mid + 1,
                }
            }
        }
        if best == before || late() { return best }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `count` runs from `from` on; the report goes to `out`, the digests next to it.
pub fn batch(prop: &str, seed: u64, from: u64, count: u64, size: u64, out: &str) {
    let f = scen::scenario(prop).expect("no such property");
    let mut digests: Vec<u8> = vec![];
    let (mut runs, mut steps, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut viol = String::from("null");
    let mut i = from;
    let t0 = std::time::Instant::now();
    while i < from + count {
        let n = size.min(BATCH as u64).min(from + count - i);
        shared_reset();
        let st = child(|| {
            for k in i..i + n {
                sh().run_index = k;
                one(f, run_seed(prop, seed, k), None, false);
                if failed() { return }
                let s = sh();
                s.results[s.nresults] = RunRes { digest: s.digest, steps: s.steps as u32, nontrivial: ctx().nontrivial as u32 };
                s.nresults += 1;
            }
        });
        unexplained(st);
        let s = sh();
        for r in &s.results[..s.nresults] {
            runs += 1;
            steps += r.steps as u64;
            nontrivial += r.nontrivial as u64;
            digests.extend_from_slice(&(r.digest & !(1 << 63) | (r.nontrivial as u64) << 63).to_le_bytes());
        }
        if s.vio != 0 {
            let c: Vec<String> = s.choices[..s.nchoices].iter().map(|x| x.to_string()).collect();
            viol = format!("{{\"index\": {}, \"class\": {}, \"message\": {}, \"choices\": [{}]}}", s.run_index, json(&class()), json(&message()), c.join(","));
            break;
        }
        i += n;
    }
    let cs: Vec<String> = COUNTER_NAMES.iter().enumerate().map(|(i, n)| format!("\"{}\": {}", n, sh().counters[i])).collect();
    let txt = format!("{{\"runs\": {}, \"steps\": {}, \"nontrivial\": {}, \"seconds\": {:.3}, \"violation\": {}, \"counters\": {{{}}}}}\n",
        runs, steps, nontrivial, t0.elapsed().as_millis() as f64 / 1000.0, viol, cs.join(", "));
    fs::write(format!("{}.digests", out), digests).expect("write digests");
    fs::write(out, txt).expect("write report");
}

/// Distinct digests, and distinct ones of non-trivial runs, in files written by `batch`.
pub fn distinct(files: &[String]) -> (usize, usize) {
    let mut all: Vec<u64> = vec![];
    for f in files {
        for b in fs::read(f).expect("read digests").chunks(8) {
            let mut x = [0; 8];
            x.copy_from_slice(b);
            all.push(u64::from_le_bytes(x));
        }
    }
    all.sort();
    all.dedup();
    (all.len(), all.iter().filter(|x| **x >> 63 == 1).count())
}
