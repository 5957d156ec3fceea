//! Pipelines which run alone first, and then nested in one another, interleaved on several threads,
//! interrupted at any instruction, and handed from thread to thread between any two operations.
use crate::alloc::{self, pool};
use crate::closures::{self, clos, new_clo_salted};
use crate::ctx::*;
use crate::elem::*;
use crate::history::{self, draw_len};
use crate::make::*;
use crate::mem::{self, Region};
use crate::pull::*;
use crate::sched;
use crate::subject::{default_lanes, values, It};

#[derive(Clone, Copy, PartialEq, Debug)]
enum What { Plain(Kind), Lane(Kind, How), Zip(usize), Pairs(Kind) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Do {
    Next, End, Advance, Scalars, Clone, Std, Collect, CollectAll, Fill, FillAll, Reduce, DoEach, ForEach, Unroll, Map, Recast,
    Counts, Finalize, Load,
}
use Do::*;

/// One operation, drawn in advance.
#[derive(Clone, Debug)]
struct Step {
    op: Do,
    a: usize,
    b: usize,
    salt: u64,
    /// the closure's call that fails
    fails: Option<u64>,
    /// interrupt it at these instructions (when it does not run alone)
    steps: Option<(u64, u64, u64)>,
}

#[derive(Clone)]
struct Spec {
    what: What,
    elem: usize,
    parts: Vec<Part>,
    items: Vec<u64>,
    def: Lanes,
    lanes: usize,
    /// its own buffers: for mutation, and for results
    own: Option<(Region, Vec<u64>)>,
    dest: Option<(Region, usize)>,
    steps: Vec<Step>,
}

struct Pipe {
    spec: Spec,
    id: usize,
    it: Option<It>,
    maps: Vec<usize>,
    bits: u32,
    at: usize,
    log: Vec<u64>,
    last_thread: usize,
}

const MAXP: usize = 6;
static mut PIPES: [Option<Box<Pipe>>; MAXP] = [None, None, None, None, None, None];
static mut N: usize = 0;
static mut BUDGET: u64 = 0;
#[thread_local]
static mut DEPTH: usize = 0;

fn def_of(e: usize) -> Lanes { default_lanes(e, draw(64)) }

fn draw_steps(stepping: bool, w: usize, total: usize, zipped: bool, what: What) -> Vec<Step> {
    let mut v = vec![];
    let n = 1 + draw(7);
    for _ in 0..n {
        let op = if zipped { pick(&[Next, Next, End, Advance, Std, Reduce, DoEach, Map, Counts, Finalize]) }
                 else { pick(&[Next, Next, End, Advance, Scalars, Clone, Std, Collect, CollectAll, Fill, FillAll, Reduce, DoEach, ForEach, Unroll, Map, Recast, Counts, Finalize, Load]) };
        if op == ForEach && what != What::Plain(Kind::Mut) { continue }
        let a = match op {
            Advance => match draw(3) { 0 => draw(4) as usize, 1 => w, _ => draw(2 * w as u64) as usize },
            Scalars => draw(w as u64 + 2) as usize,
            Std => draw(STDS.len() as u64) as usize,
            Unroll => pick(&[2usize, 3, 1, 4, 8]),
            Load => draw(total as u64 + 1) as usize,
            _ => 0,
        };
        let fails = if [Collect, CollectAll, Fill, Reduce, DoEach, ForEach, Next, Map].contains(&op) && chance(1, 8) { Some(draw(4)) } else { None };
        let steps = if stepping && chance(1, 2) {
            let first = match draw(8) { 0 | 1 => draw(30), 2 | 3 => draw(120), 4 | 5 | 6 => draw(500), _ => draw(2500) };
            Some((first, match draw(2) { 0 => draw(8), _ => draw(200) }, 1 + draw(4)))
        } else { None };
        v.push(Step { op, a, b: range(0, 3), salt: draw(1 << 16) + 1, fails, steps });
    }
    v
}

impl Pipe {
    fn new(spec: Spec, id: usize) -> Pipe {
        let bits = bits_of(spec.elem);
        if let Some((r, v)) = &spec.own {
            for (i, x) in v.iter().enumerate() { put(spec.elem, r, i, *x) }
        }
        Pipe { spec, id, it: None, maps: vec![], bits, at: 0, log: vec![], last_thread: usize::max_value() }
    }
    fn done(&self) -> bool { self.at >= self.spec.steps.len() + 2 }

    fn make(&self) -> It {
        let s = &self.spec;
        let p = &s.parts[0];
        match s.what {
            What::Plain(Kind::Mut) => It::P(make_mut(s.elem, &s.own.as_ref().unwrap().0, &s.def, self.id & 1 == 1)),
            What::Plain(Kind::Vec) => It::P(make_vec(s.elem, &p.region, &s.def)),
            What::Plain(Kind::Sim) => It::P(make_sim(s.elem, &p.region, &s.def, p.id)),
            What::Plain(Kind::Adapter) => It::P(make_adapter(s.elem, s.items.clone(), &s.def, self.id)),
            What::Plain(_) => It::P(make_ref(s.elem, &p.region, &s.def, self.id & 1 == 1)),
            What::Lane(k, how) => It::P(make_lanes(s.elem, k, &p.region, how, &vec![s.def; s.lanes], p.id, (0, 1)).swap_remove(p.lane)),
            What::Zip(class) => It::Z(make_zip(class, &s.parts)),
            What::Pairs(k) => It::Z(pairs(s.elem, k, &p.region, &s.def, p.start, p.id)),
        }
    }
    fn out(&mut self, tag: u64, xs: &[u64]) {
        self.log.push(tag << 32 | xs.len() as u64);
        self.log.extend_from_slice(xs);
    }
    fn lanes(&mut self, tag: u64, v: &[Lanes]) {
        self.log.push(tag << 32 | v.len() as u64 | 1 << 63);
        for l in v { self.log.extend_from_slice(l.s()) }
    }

    /// The next operation. Not `alone`: with its interruptions.
    fn advance(&mut self, alone: bool) {
        let me = sched::tid();
        if !alone && self.last_thread != usize::max_value() && self.last_thread != me && self.at > 0 {
            fired(C::fault_handover);
            note!("  pipeline {} goes on in thread {}", self.id, me);
        }
        self.last_thread = me;
        let k = self.at;
        self.at += 1;
        let n = self.spec.steps.len();
        if k == 0 {
            let r = attempt(|| self.make());
            match r {
                Out::Ok(i) => self.it = Some(i),
                _ => self.out(91, &[]),
            }
            return;
        }
        if k == n + 1 {
            // whatever is left, then nothing
            for _ in 0..200 {
                let r = attempt(|| match self.it.as_mut() {
                    Some(It::P(i)) => i.end().map(|(l, n)| (vec![l], n)),
                    Some(It::Z(i)) => i.end(),
                    _ => None,
                });
                match r {
                    Out::Ok(Some((l, n))) => { self.lanes(99, &l); self.log.push(n as u64) }
                    Out::Ok(None) => break,
                    _ => self.out(92, &[]),
                }
            }
            let it = self.it.take();
            let r = attempt(move || drop(it));
            if !r.is_ok() { self.out(93, &[]) }
            return;
        }
        let st = self.spec.steps[k - 1].clone();
        let stepping = if alone || sched::step().on { None } else { st.steps };
        note!("  thread {}: pipeline {} {:?}({}, {}){}", me as isize, self.id, st.op, st.a, st.b, if stepping.is_some() { " under interruptions" } else { "" });
        let term = match st.op { Reduce | DoEach | ForEach => Some(new_clo_salted(self.bits, self.bits, st.salt)), _ => None };
        if let Some(n) = st.fails {
            if let Some(c) = term.or(self.maps.last().cloned()) { clos()[c].fail_in = Some(n) }
        }
        if st.op == Map || st.op == Recast {
            if self.maps.len() >= 2 { return }
            if let Some(it) = self.it.take() {
                let (ob, zip) = match &it { It::P(i) => (if st.op == Recast { i.recast_bits() } else { self.bits }, false), _ => (self.bits, true) };
                let clo = new_clo_salted(self.bits, ob, st.salt);
                let r = attempt(|| match it {
                    It::P(i) => if st.op == Recast { i.map_recast(clo) } else { i.map(clo) },
                    It::Z(i) => i.map(clo),
                    _ => unreachable!(),
                });
                let _ = zip;
                if let Out::Ok(p) = r {
                    self.it = Some(It::P(p));
                    self.maps.push(clo);
                    self.bits = ob;
                } else { self.out(94, &[]) }
            }
            return;
        }
        let mut it = match self.it.take() { Some(i) => i, None => return };
        let r = {
            let (spec, id) = (&self.spec, self.id);
            let bits = self.bits;
            let mut body = || run_op(&mut it, spec, &st, term, id, bits);
            attempt(|| match stepping {
                None => body(),
                Some((first, gap, times)) => sched::stepped(first, gap, times, interrupted, body),
            })
        };
        sched::step_off();
        match r {
            Out::Ok(None) => {}
            Out::Ok(Some((l, x))) => { self.lanes(st.op as u64, &l); self.out(st.op as u64, &x) }
            Out::Fault => self.out(95, &[]),
            Out::Panic => self.out(96, &[]),
        }
        for c in &self.maps { clos()[*c].fail_in = None }
        if let Some(c) = term {
            // every call it got
            let calls: Vec<u64> = clos()[c].calls.iter().flat_map(|v| v.iter().cloned()).collect();
            self.out(97, &calls);
        }
        if st.op == ForEach {
            let (r, v) = self.spec.own.clone().unwrap();
            let now: Vec<u64> = (0..v.len()).map(|i| get(self.spec.elem, &r, i)).collect();
            self.out(98, &now);
        }
        if it_gone(&it) { self.it = None } else { self.it = Some(it) }
    }
}
fn it_gone(i: &It) -> bool { match i { It::Gone => true, _ => false } }

#[inline(never)]
fn run_op(it: &mut It, spec: &Spec, st: &Step, term: Option<usize>, id: usize, bits: u32) -> Option<(Vec<Lanes>, Vec<u64>)> {
    let _ = id;
    let none: Vec<Lanes> = vec![];
    Some(match it {
        It::P(i) => match st.op {
            Next => i.next().map_or((none, vec![]), |l| (vec![l], vec![])),
            End => i.end().map_or((none, vec![]), |(l, n)| (vec![l], vec![n as u64])),
            Advance => { let n = st.a.min(i.slen().saturating_sub(i.pos())); i.advance(n); (none, vec![]) }
            Finalize => { i.finalize(); (none, vec![]) }
            Counts => (none, vec![i.pos() as u64, i.slen() as u64, i.vpos() as u64, i.vlen() as u64, i.len() as u64]),
            Scalars => (none, i.scalars(st.a, st.a & 1 == 1).map_or(vec![], |mut s| { s.got.push(s.failed as u64); s.got.push(s.refused as u64); s.got })),
            Clone => match i.try_clone() {
                Some(mut c) => {
                    let mut v = vec![];
                    for _ in 0..3 { if let Some(l) = c.next() { v.push(l) } }
                    if let Some((l, _)) = c.end() { v.push(l) }
                    (v, vec![])
                }
                None => return None,
            },
            Std => (i.std(STDS[st.a], st.b), vec![]),
            Collect => (none, i.collect(false)),
            CollectAll => (none, i.collect(true)),
            Fill | FillAll => match spec.dest {
                Some((r, room)) => {
                    let e = match bits { 8 => 1, 16 => 3, 32 => 0, _ => 7 };
                    let n = room * 8 / bits as usize;
                    let ok = i.fill(&r, st.op == FillAll);
                    let mut v: Vec<u64> = (0..n).map(|k| get(e, &r, k)).collect();
                    v.push(ok as u64);
                    (none, v)
                }
                None => return None,
            },
            Reduce => { let a = i.reduce(term.unwrap(), Acc::new()); (none, vec![a.sum]) }
            DoEach => { i.do_each(term.unwrap()); (none, vec![]) }
            ForEach => { i.for_each(term.unwrap()); (none, vec![]) }
            Unroll => {
                let v = i.unroll(st.a, st.b);
                let mut l = vec![];
                let mut n = vec![];
                for c in v { n.push(c.as_ref().map_or(0, |c| c.len() as u64)); l.extend(c.unwrap_or(vec![])) }
                (l, n)
            }
            Load => match i.load_scalar(st.a, true) { Some(x) => (none, vec![x]), None => return None },
            Map | Recast => unreachable!(),
        },
        It::Z(i) => match st.op {
            Next => (i.next().unwrap_or(none), vec![]),
            End => i.end().map_or((none, vec![]), |(l, n)| (l, vec![n as u64])),
            Advance => { let n = st.a.min(i.slen().saturating_sub(i.pos())); i.advance(n); (none, vec![]) }
            Finalize => { i.finalize(); (none, vec![]) }
            Counts => (none, vec![i.pos() as u64, i.slen() as u64, i.vpos() as u64, i.vlen() as u64, i.len() as u64]),
            Std => (i.std(STDS[st.a], st.b).into_iter().flatten().collect(), vec![]),
            Reduce => { let a = i.reduce(term.unwrap(), Acc::new()); (none, vec![a.sum]) }
            DoEach => { i.do_each(term.unwrap()); (none, vec![]) }
            _ => return None,
        },
        It::Gone => return None,
    })
}

fn idle() -> Vec<usize> {
    unsafe { (0..N).filter(|i| PIPES[*i].as_ref().map_or(false, |p| !p.done())).collect() }
}
/// Take a pipeline nobody is using, and run `n` operations of it.
fn run_some(i: usize, n: u64) {
    let mut p = unsafe { PIPES[i].take().expect("idle") };
    for _ in 0..n {
        if p.done() || failed() { break }
        p.advance(false);
    }
    unsafe { PIPES[i] = Some(p) }
}
fn nest(c: C, why: &str) {
    unsafe {
        if DEPTH >= 3 || BUDGET == 0 || !chance(1, 4) { return }
        let v = idle();
        if v.is_empty() { return }
        BUDGET -= 1;
        let i = pick(&v);
        let n = 1 + draw(4);
        fired(c);
        ev("nested", &[i as u64, n]);
        note!("  nested in {}: pipeline {}", why, i);
        DEPTH += 1;
        run_some(i, n);
        DEPTH -= 1;
    }
}
fn at_yield(why: &str) { nest(C::fault_nested_call, why) }
/// In the middle of any instruction of the library.
fn interrupted() {
    fired(C::fault_preempt_instruction);
    ev("interrupt", &[]);
    if chance(1, 2) { nest(C::fault_nested_signal, "a signal handler") }
    sched::yield_point("an instruction");
}
/// A thread: runs whichever pipeline is free.
fn worker() {
    loop {
        let v = idle();
        if v.is_empty() {
            if unsafe { (0..N).all(|i| PIPES[i].as_ref().map_or(false, |p| p.done())) } || failed() { return }
            sched::let_others_run();
            continue;
        }
        run_some(pick(&v), 1);
        sched::yield_point("between operations");
    }
}

pub fn c09() -> R {
    let mut world = history::World::new();
    // inputs which pipelines share
    let nin = range(1, 3);
    let mut inputs: Vec<(usize, usize)> = vec![];
    for _ in 0..nin {
        let e = draw(NELEM as u64) as usize;
        let len = draw_len(width_of(e)) + if chance(1, 3) { 2 * width_of(e) } else { 0 };
        inputs.push((world.buffer(e, len, true), e));
    }
    let n = range(2, 5);
    let stepping = chance(1, 2);
    let mut specs: Vec<Spec> = vec![];
    for _ in 0..n {
        let (b, e) = pick(&inputs);
        let len = world.data[b].2.len();
        let w = width_of(e);
        let mut spec = Spec { what: What::Plain(Kind::Ref), elem: e, parts: vec![], items: vec![], def: def_of(e), lanes: 0, own: None, dest: None, steps: vec![] };
        let part = |w: &mut history::World, kind, lane, count, start| Part { kind, region: w.data[b].0, def: def_of(e), id: w.id(), lane, count, start };
        let mut total = len;
        match draw(9) {
            0 => spec.parts.push(part(&mut world, Kind::Ref, 0, 1, 0)),
            1 => { spec.what = What::Plain(Kind::Sim); spec.parts.push(part(&mut world, Kind::Sim, 0, 1, 0)) }
            2 => {
                spec.what = What::Plain(Kind::Mut);
                let vals = values(e, draw(1 << 20), len);
                let (place, skew) = mem::draw_place();
                let r = region(e, len, place, skew, false);
                spec.own = Some((r, vals));
                spec.parts.push(part(&mut world, Kind::Ref, 0, 1, 0));
            }
            3 => { spec.what = What::Plain(Kind::Vec); spec.parts.push(part(&mut world, Kind::Ref, 0, 1, 0)) }
            4 => {
                spec.what = What::Plain(Kind::Adapter);
                spec.items = values(e, draw(1 << 20), len);
                spec.parts.push(part(&mut world, Kind::Ref, 0, 1, 0));
            }
            5 | 6 => {
                let k = pick(&[Kind::Lane, Kind::SimLane, Kind::IterLane]);
                let how = pick(&[How::Fixed, How::Vec, How::Into]);
                let c = if how == How::Fixed { pick(&[2usize, 3, 4]) } else { range(1, 5) };
                spec.what = What::Lane(k, how);
                spec.lanes = c;
                let lane = draw(c as u64) as usize;
                spec.parts.push(part(&mut world, k, lane, c, 0));
                total = len / c;
            }
            7 => {
                let class = match bits_of(e) { 8 => 1, 16 => 2, 32 => 0, _ => 3 };
                let elems = zip_elems(class, 2);
                let start = range(0, len);
                for e in elems {
                    // any element type of that size may be read from the buffer
                    let kind = pick(&[Kind::Ref, Kind::Sim]);
                    let id = world.id();
                    spec.parts.push(Part { kind, region: world.data[b].0, def: def_of(e), id, lane: 0, count: 1, start });
                }
                spec.elem = zip_elems(class, 2)[0];
                spec.what = What::Zip(class);
            }
            _ => {
                let e2 = match e { 9 => { spec.parts.push(part(&mut world, Kind::Ref, 0, 1, 0)); 9 } x => x };
                if e2 != 9 {
                    let k = pick(&[Kind::Ref, Kind::Sim]);
                    let start = range(0, len);
                    spec.what = What::Pairs(k);
                    spec.parts.push(part(&mut world, k, 0, 1, start));
                    total = (len - start) / 2;
                }
            }
        }
        let zipped = match spec.what { What::Zip(_) | What::Pairs(_) => true, _ => false };
        spec.steps = draw_steps(stepping, w, total, zipped, spec.what);
        if spec.steps.iter().any(|s| s.op == Fill || s.op == FillAll) && chance(7, 8) {
            // room for everything, padding included, in bytes of the widest element
            let bytes = (len + 2 * w) * bits_of(e) as usize / 8;
            let room = (bytes + 63) / 64 * 8;
            spec.dest = Some((region(7, room, mem::Place::High, 0, false), room));
        }
        specs.push(spec);
    }
    // alone
    let mut alone: Vec<Vec<u64>> = vec![];
    for (i, s) in specs.iter().enumerate() {
        clear_dest(s);
        let mut p = Pipe::new(s.clone(), i);
        note!("pipeline {} ({:?} of {}) alone", i, s.what, name_of(s.elem));
        while !p.done() { p.advance(true) }
        ok()?;
        alone.push(std::mem::replace(&mut p.log, vec![]));
        count_n(C::ops, p.spec.steps.len() as u64);
    }
    ensure!(closures::live_toks() == 0, "captured-state", "{} captured states were left behind", closures::live_toks());
    world.check_data()?;
    // together
    note!("--- now together");
    for (i, s) in specs.iter().enumerate() {
        clear_dest(s);
        unsafe { PIPES[i] = Some(Box::new(Pipe::new(s.clone(), i))) }
    }
    unsafe {
        N = n;
        BUDGET = pick(&[0u64, 4, 16, 40]);
        sched::NEST = if BUDGET > 0 { Some(at_yield) } else { None };
    }
    let threads = range(1, 4);
    let rate = pick(&[2u64, 8, 14, 0]);
    ev("threads", &[threads as u64, rate]);
    sched::run_threads((0..threads).map(|_| Box::new(worker) as Box<dyn FnOnce() + Send>).collect(), rate);
    unsafe { sched::NEST = None }
    let mut logs = vec![];
    for i in 0..n {
        let p = unsafe { PIPES[i].take() };
        ensure!(p.is_some(), "lost-pipeline", "pipeline {} never came back", i);
        let p = p.unwrap();
        logs.push(p.log.clone());
        attempt(move || drop(p)).must("drop")?;
    }
    ok()?;
    for i in 0..n {
        ev("pipeline", &logs[i]);
        for k in 0..alone[i].len().max(logs[i].len()) {
            let (a, b) = (alone[i].get(k), logs[i].get(k));
            if a != b {
                note!("alone:    {:x?}", alone[i]);
                note!("together: {:x?}", logs[i]);
                ensure!(false, "interference", "pipeline {} ({:?}) produced {:x?} instead of {:x?} as item {} of its results", i, specs[i].what, b, a, k);
            }
        }
        if let Some((r, _)) = specs[i].dest { if let Some(o) = r.spilled() { ensure!(false, "spill", "byte {} relative to the results of pipeline {} was written", o, i) } }
        if let Some((r, _)) = &specs[i].own { if let Some(o) = r.spilled() { ensure!(false, "spill", "byte {} relative to the data of pipeline {} was written", o, i) } }
    }
    world.finish()
}
fn clear_dest(s: &Spec) {
    if let Some((r, room)) = s.dest { for i in 0..room { put(7, &r, i, 0x5555_5555) } }
}
