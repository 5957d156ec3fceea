//! C15 and C16: traced operations on several threads while their output fails.
use crate::ctx::*;
use crate::io::{self, *};
use crate::ops;
use crate::sched;
use crate::scen;
use crate::sys::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;

#[derive(Clone, Default)]
struct Prog {
    ops: Vec<(usize, usize)>,
    /// run by a thread-local's destructor
    exit: Vec<(usize, usize)>,
    /// that thread-local outlives the tracer's
    outlives: bool,
    /// which history this thread drives as well
    history: Option<usize>,
}

struct State {
    progs: Vec<Prog>,
    /// results are compared with the untraced build
    compare: bool,
    /// lines are accounted for
    lines: bool,
    /// per thread: message, and whether it must have been logged
    due: Vec<Vec<(String, bool)>>,
    known: HashSet<String>,
}
static mut STATE: Option<State> = None;
fn state() -> &'static mut State { unsafe { STATE.as_mut().unwrap() } }

/// What an operation reports on a thread of its own when all is well.
static mut DUE: Vec<Option<Vec<String>>> = Vec::new();
fn lines(b: &[u8]) -> Vec<String> { String::from_utf8_lossy(b).split('\n').filter(|l| !l.is_empty()).map(|l| l.to_string()).collect() }
fn due(k: usize, d: usize) -> R<Vec<String>> {
    let n = k * ops::DATA + d;
    unsafe { if DUE.is_empty() { DUE = vec![None; ops::ops().len() * ops::DATA] } }
    if let Some(v) = unsafe { &DUE[n] } { return Ok(v.clone()) }
    io::begin();
    io().capture = true;
    let r = std::thread::Builder::new().stack_size(4 << 20).spawn(move || { ops::result(k, d); ops::result(k, d) }).expect("spawn").join();
    let l = lines(&thread().log);
    let o = lines(&thread().out);
    let whole = thread().log.is_empty() || thread().log.ends_with(b"\n");
    io().capture = false;
    ensure!(r.is_ok(), "traced-panic", "{} ended its thread", ops::ops()[k].name);
    let file: Vec<String> = io().inodes.first().map_or(vec![], |i| lines(&read_all(i.keep)));
    io::begin();
    if state().lines {
        ensure!(whole && l == file && l.len() == l.iter().collect::<HashSet<_>>().len(), "log-differs", "{} alone: wrote {:?}, the log holds {:?}", ops::ops()[k].name, l, file);
        ensure!(l == o, "missing-message", "{} alone: printed {:?} but logged {:?}", ops::ops()[k].name, o, l);
    }
    unsafe { DUE[n] = Some(l.clone()) }
    Ok(l)
}

fn perform(k: usize, d: usize, exiting: bool) {
    let t = sched::tid();
    ev("traced", &[t as u64, k as u64, d as u64]);
    note!("thread {}: {} on data {}{}", t, ops::ops()[k].name, d, if exiting { ", while it exits" } else { "" });
    count(C::ops);
    ctx().opmask |= 1 << (k % 64);
    if ctx().opmask.count_ones() > 1 { ctx().nontrivial = true }
    if exiting { fired(C::fault_thread_exit_op) }
    {
        let th = thread();
        th.op += 1;
        th.failed = false;
        th.cut = false;
        th.events = io().events;
    }
    let r = ops::result(k, d);
    if state().compare && r != ops::expected(k, d) {
        vio("changed-result", format_args!("{} on data {} returned {:x} on thread {}, and {:x} without tracing ({:x} is a refusal)", ops::ops()[k].name, d, r, t, ops::expected(k, d), ops::REFUSED));
    }
    if state().lines {
        let ok = !thread().failed && !exiting;
        let v = unsafe { DUE[k * ops::DATA + d].clone().unwrap() };
        let mine = &mut state().due[t];
        for m in v { if !mine.iter().any(|x| x.0 == m) { mine.push((m, ok)) } }
    }
    sched::yield_point("between operations");
}

struct Exit(RefCell<Vec<(usize, usize)>>);
impl Drop for Exit {
    fn drop(&mut self) {
        for (k, d) in self.0.borrow().iter() { perform(*k, *d, true) }
    }
}
thread_local! { static EXIT: Exit = Exit(RefCell::new(vec![])); }

fn body() {
    let t = sched::tid();
    let p = state().progs[t].clone();
    let set = |p: &Prog| if !p.exit.is_empty() { EXIT.with(|e| *e.0.borrow_mut() = p.exit.clone()) };
    if p.outlives { set(&p) }
    let half = if p.history.is_some() { p.ops.len() / 2 } else { p.ops.len() };
    for (k, d) in &p.ops[..half] { perform(*k, *d, false) }
    if let Some(h) = p.history {
        note!("thread {}: a history", t);
        let _ = scen::TRACEABLE[h]();
    }
    for (k, d) in &p.ops[half..] { perform(*k, *d, false) }
    if !p.outlives { set(&p) }
}

/// Nothing but whole messages follows what the file held before.
pub fn check_file(k: usize) {
    if !state().lines { return }
    let n = &io().inodes[k];
    let c = read_all(n.keep);
    if !c.starts_with(&n.prior) {
        return vio("prior-content-changed", format_args!("what the log held before has changed: {:?} is now {:?}", String::from_utf8_lossy(&n.prior), String::from_utf8_lossy(&c)));
    }
    let c = &c[n.prior.len()..];
    let mut want: Vec<u8> = vec![];
    for w in &n.writes { want.extend_from_slice(&w.1) }
    if c != &want[..] {
        return vio("log-differs", format_args!("the log holds {:?}, {:?} was written to it", String::from_utf8_lossy(c), String::from_utf8_lossy(&want)));
    }
    if c.is_empty() { return }
    if c.last() != Some(&b'\n') {
        return vio("damaged-line", format_args!("the log ends in the middle of a line: {:?}", String::from_utf8_lossy(c)));
    }
    for l in String::from_utf8_lossy(&c[..c.len() - 1]).split('\n') {
        if !state().known.contains(l) { return vio("damaged-line", format_args!("a line of the log is no message: {:?} in {:?}", l, String::from_utf8_lossy(c))) }
        count(C::probe_log_line);
    }
}

/// A write to a log which was not the log any more when the operation started.
pub fn check_write(k: usize) {
    if !state().lines || thread().events != io().events { return }
    if current() != Some(io().inodes[k].ino) {
        vio("stale-log", format_args!("thread {} wrote to a file which was removed or rotated away before", sched::tid()));
    }
}

fn pool(small: bool) -> Vec<(usize, usize)> {
    // few different operations, so threads report the same messages
    let n = if small { range(1, 6) } else { range(4, 24) };
    (0..n).map(|_| (draw(ops::ops().len() as u64) as usize, draw(ops::DATA as u64) as usize)).collect()
}
fn programs(histories: bool, small: bool) -> Vec<Prog> {
    let pool = pool(small);
    let n = range(1, 4);
    let mut used = false;
    (0..n).map(|_| {
        let mut p = Prog::default();
        for _ in 0..range(1, 8) { p.ops.push(pick(&pool)) }
        if chance(1, 4) { for _ in 0..range(1, 3) { p.exit.push(pick(&pool)) } p.outlives = chance(1, 2) }
        if histories && !used && chance(1, 3) { used = true; p.history = Some(draw(scen::TRACEABLE.len() as u64) as usize) }
        p
    }).collect()
}
fn go(progs: usize) -> R {
    io().on = true;
    let rate = pick(&[4u64, 10, 15, 0]);
    sched::run_threads((0..progs).map(|_| Box::new(body) as Box<dyn FnOnce() + Send>).collect(), rate);
    io().on = false;
    // what standard output still buffers must not show up in the next run
    io().capture = true;
    let _ = std::io::stdout().flush();
    io().capture = false;
    io().calls = 0;
    ok()
}

fn new_state(compare: bool) -> R {
    unsafe { STATE = Some(State { progs: vec![], compare, lines: !compare, due: vec![], known: HashSet::new() }) }
    io::begin();
    Ok(())
}

pub fn c15() -> R {
    new_state(true)?;
    state().progs = programs(!ctx().no_histories, false);
    let n = state().progs.len();
    if chance(1, 2) { io::create(b"an earlier line\n") }
    let i = io();
    i.rate = pick(&[6u64, 20, 0, 48]);
    i.budget = draw(24) + 1;
    i.churn = pick(&[0u64, 4, 12]);
    let all = [Fk::OpenFail, Fk::OpenEintr, Fk::LogFail, Fk::LogEintr, Fk::LogShort, Fk::OutFail, Fk::OutEintr, Fk::OutShort, Fk::Close, Fk::Other];
    let mask = draw(1024);
    i.kinds = all.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, f)| *f).collect();
    i.broken = pick(&[0, 0, 0, ENOENT, EACCES, ENOSPC, 21, EMFILE, 23, 11]);
    i.full = pick(&[0, 0, 0, ENOSPC, EIO, 11, 122]);
    i.lasting = chance(1, 2);
    i.stdout_gone = pick(&[0, 0, 0, EBADF, EPIPE, EIO, ENOSPC, 11]);
    ev("world", &[n as u64, i.rate, i.budget, i.churn, mask, i.broken as u64, i.full as u64, i.lasting as u64, i.stdout_gone as u64]);
    note!("{} threads; log errors {} and {}{}, standard output error {}, faults {:?}", n, i.broken, i.full, if i.lasting { " for good" } else { "" }, i.stdout_gone, i.kinds);
    go(n)?;
    io::begin();
    Ok(())
}

pub fn c16() -> R {
    new_state(false)?;
    let progs = programs(false, true);
    let n = progs.len();
    let mut known = HashSet::new();
    for p in &progs { for (k, d) in p.ops.iter().chain(&p.exit) { for m in due(*k, *d)? { known.insert(m); } } }
    let mut some: Vec<String> = known.iter().cloned().collect();
    some.sort();
    {
        let s = state();
        s.progs = progs;
        s.known = known;
        s.due = vec![vec![]; n];
    }
    // an earlier process may have left a log, even one with the same messages
    match draw(4) {
        0 => {}
        1 => io::create(b""),
        2 => io::create(b"something else\n"),
        _ => { let mut c = String::new(); for m in &some { if chance(1, 2) { c += m; c += "\n" } } io::create(c.as_bytes()) }
    }
    let i = io();
    i.rate = pick(&[0u64, 6, 20]);
    i.budget = draw(12) + 1;
    i.churn = pick(&[0u64, 4, 12]);
    let mut all = vec![Fk::OpenEintr, Fk::LogEintr, Fk::OutEintr, Fk::OpenFail, Fk::LogFail, Fk::OutFail, Fk::OutShort, Fk::Close, Fk::Other];
    // a write that stops half-way can't keep others out, so only without others
    if n == 1 && i.churn == 0 { all.push(Fk::LogShort) }
    let mask = draw(1 << all.len());
    i.kinds = all.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, f)| *f).collect();
    ev("world", &[n as u64, i.rate, i.budget, i.churn, mask]);
    note!("{} threads, faults {:?}", n, i.kinds);
    go(n)?;
    for k in 0..io().inodes.len() { check_file(k) }
    ok()?;
    for t in 0..n {
        let log = io().threads.get(t).map_or(&[][..], |t| &t.log[..]);
        let mine = lines(log);
        for (a, m) in mine.iter().enumerate() {
            ensure!(!mine[..a].contains(m), "repeated-message", "thread {} logged {:?} more than once", t, m);
            ensure!(state().due[t].iter().any(|x| x.0 == *m), "foreign-message", "thread {} logged {:?}, which none of its operations reports", t, m);
        }
        for (m, must) in &state().due[t] {
            ensure!(!*must || mine.contains(m), "missing-message", "thread {} never logged {:?}, although the log was writable when it was due", t, m);
        }
    }
    io::begin();
    Ok(())
}
