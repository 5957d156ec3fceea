//! One scenario per property.
use crate::alloc::{self, pool};
use crate::closures::{self, clos};
use crate::ctx::*;
use crate::elem::*;
use crate::history::{self, Cfg, Op, What, World};
use crate::make::*;
use crate::mem::{self, Place, Region};
use crate::model::*;
use crate::pull::*;
use crate::simarray;
use crate::subject::*;
use Op::*;

const BASE: Cfg = Cfg { what: &[], ops: &[], faults: &[], max_ops: 12, counts: false, allocs: false, premap: 0, misuse: false, rate: 2 };
const PLAIN: &[What] = &[What::Plain(Kind::Ref), What::Plain(Kind::Sim), What::Plain(Kind::Mut), What::Plain(Kind::Vec)];
const ALL: &[What] = &[What::Plain(Kind::Ref), What::Plain(Kind::Sim), What::Plain(Kind::Mut), What::Plain(Kind::Vec),
                       What::Plain(Kind::Adapter), What::Lanes, What::Zip, What::Pairs, What::PairsOf];

pub fn begin(salt: u64) {
    alloc::begin_run(salt);
    mem::begin_run();
    closures::begin_run();
    crate::pull::begin_run();
    crate::make::begin_run();
    unsafe {
        crate::subject::MAPS = 0;
        crate::sched::NEST = None;
        simarray::ACCESSES = 0;
    }
}

fn c01() -> R {
    history::run(&Cfg { what: PLAIN, ops: &[Next, Next, End, Advance, Scalars, Clone, Resume, SetPos, Std, Finalize, Drop, Load, LoadScalar, Map, Collect, DoEach],
                        faults: &[F::Load], ..BASE })
}

fn c02() -> R {
    let cfg = Cfg { what: &[], ops: &[ForEach, ForEach, Next, End, Advance, Scalars, Resume, SetPos, Std, Finalize], faults: &[F::Closure, F::Load, F::Store], max_ops: 7, rate: 4, ..BASE };
    let mut w = World::new();
    let kind = pick(&[Kind::Mut, Kind::Sim]);
    w.plain(kind, draw(NELEM as u64) as usize, true)?;
    // a second collection next to it must stay as it is
    if chance(1, 3) { w.plain(Kind::Mut, draw(NELEM as u64) as usize, true)?; }
    history::history(&mut w, &cfg)?;
    if chance(1, 2) {
        for _ in 0..2 { if !w.subs[0].gone() { w.step(&Cfg { faults: &[], ..cfg }, ForEach, 0)? } }
    }
    w.finish()
}

fn c03() -> R {
    if chance(1, 4) { return mismatch() }
    history::run(&Cfg { what: &[What::Zip], ops: &[Next, Next, End, Advance, Finalize, Std, DoEach, Reduce, Map, Collect, Unroll, Defaults], faults: &[F::Load, F::Load, F::Closure], max_ops: 10, ..BASE })
}

/// Iterators which can't be walked in lockstep.
fn mismatch() -> R {
    let mut w = World::new();
    let widths = chance(1, 3);
    let (which, elems) = if widths {
        let k = draw(4) as usize;
        (k, widths_elems(k).to_vec())
    } else {
        let class = pick(&[0usize, 0, 1, 2, 3]);
        let arity = if class == 0 { range(2, MAX_ARITY) } else { range(2, 3) };
        (class, zip_elems(class, arity))
    };
    let wd = width_of(elems[0]);
    let len = history::draw_len(wd) + 1;
    let start = if chance(1, 2) { range(0, len) } else { 0 };
    let odd = draw(elems.len() as u64) as usize;
    let how = draw(6);
    let far = 1usize << pick(&[32usize, 16, 8, 31, 33, 48]);
    let other = match draw(4) { 0 => 1, 1 => wd, 2 => len, _ => range(1, 2 * wd) };
    let mut parts = vec![];
    let mut same = true;
    for (i, &e) in elems.iter().enumerate() {
        let (mut l, mut s, mut far_by) = (len, start, 0);
        if how == 5 { far_by = far }
        if i == odd && !widths {
            match how {
                0 => l = len + other,
                1 => l = len.saturating_sub(other),
                2 => s = if start > 0 { start - 1 } else { start + 1 },
                // longer, or later, by a lot
                4 => far_by = far,
                5 => s = start + far,
                // the same number of elements is left, but at another index
                _ => { l = len + other; s = start + other }
            }
            same = l == len && s == start && how < 4;
        }
        let kinds: &[Kind] = if far_by > 0 { &[Kind::Sim, Kind::SimLane] } else if i == odd || !widths { &[Kind::Sim, Kind::SimLane, Kind::Ref] } else { &[Kind::Sim] };
        let (mut p, _) = w.parts(&[e], l, s, kinds, far_by);
        parts.append(&mut p);
    }
    if same && !widths { return Ok(()) }
    fired(C::fault_misuse);
    count(C::probe_zip_mismatch);
    let reads = unsafe { simarray::ACCESSES };
    ev("mismatch", &[which as u64, len as u64, start as u64, odd as u64, how]);
    note!("zip of {} iterators, number {} differs ({})", elems.len(), odd, if widths { "width" } else { ["longer", "shorter", "start", "longer and later", "far longer", "far later"][how as usize] });
    let r = attempt(|| if widths { make_zip_widths(which, &parts) } else { make_zip(which, &parts) });
    ensure!(unsafe { simarray::ACCESSES } == reads, "read-before-refusal", "a collection was read before the zip was refused");
    match r {
        Out::Ok(_) => ensure!(false, "accepted-mismatch", "iterators which can't be walked in lockstep were zipped (number {} of {} differs)", odd, elems.len()),
        Out::Panic => count(C::probe_refused),
        Out::Fault => ensure!(false, "lost-fault", "zip failed with a fault that was not armed"),
    }
    ctx().nontrivial = true;
    w.finish()
}

fn c04() -> R {
    history::run(&Cfg { what: ALL, ops: &[Collect, CollectAll, Collect, CollectAll, Next, End, Advance, Map, Recast, Std], faults: &[F::Closure, F::Load, F::Source], max_ops: 6, premap: 2, rate: 3, ..BASE })
}
fn c05() -> R {
    history::run(&Cfg { what: ALL, ops: &[Fill, FillAll, Fill, FillAll, Next, End, Advance, Map, Recast, Std], faults: &[F::Closure, F::Load, F::Source], max_ops: 5, premap: 2, rate: 3, ..BASE })
}

fn c07() -> R {
    history::run(&Cfg { what: ALL, ops: &[Next, End, Advance, Finalize, Std, Collect, Fill, Reduce, DoEach, Reduce, DoEach, Unroll, Map, Recast, Drop], faults: &[F::Closure, F::Closure, F::Load, F::Source], max_ops: 8, premap: 2, rate: 4, ..BASE })
}

fn c08() -> R {
    history::run(&Cfg { what: ALL, ops: &[Next, End, Advance, Finalize, Std, Clone, Scalars, Collect, CollectAll, Fill, FillAll, Reduce, DoEach, ForEach, Unroll, UnrollInfo, Map, Recast, Drop, Resume],
                        faults: &[F::Closure, F::Load, F::Source], max_ops: 8, premap: 2, allocs: true, ..BASE })
}

fn c10() -> R {
    if chance(1, 12) {
        // a wrong number of defaults
        let mut w = World::new();
        let e = draw(NELEM as u64) as usize;
        let b = w.buffer(e, range(0, 40), true);
        let r = w.data[b].0;
        let n = range(0, 9);
        let d = (n + range(1, 4)) - if chance(1, 2) { 4.min(n) } else { 0 };
        if n == d { return Ok(()) }
        fired(C::fault_misuse);
        let into = chance(1, 2);
        let x = attempt(|| stride_wrong(e, &r, n, d, into));
        ensure!(!x.is_ok(), "accepted-mismatch", "stride({}) with {} defaults was accepted", n, d);
        count(C::probe_refused);
        return w.finish();
    }
    history::run(&Cfg { what: &[What::Lanes], ops: &[Next, Next, End, Advance, Finalize, Scalars, Clone, Drop, Std, Load, LoadScalar, Map, Collect, Reduce, Unroll, Defaults], faults: &[F::Load], max_ops: 16, ..BASE })
}
fn c11() -> R {
    history::run(&Cfg { what: &[What::Pairs, What::PairsOf], ops: &[Next, Next, End, Advance, Finalize, Std, DoEach, Reduce, Map, Collect, Defaults], faults: &[F::Load, F::Load, F::Source, F::Closure], max_ops: 8, ..BASE })
}
fn c12() -> R {
    if chance(1, 16) { return too_many() }
    history::run(&Cfg { what: ALL, ops: &[Unroll, Unroll, Unroll, UnrollHeld, UnrollInfo, Next, End, Advance, Map, Collect], faults: &[], max_ops: 8, premap: 1, ..BASE })
}
fn too_many() -> R {
    let mut w = World::new();
    w.setup(pick(ALL))?;
    let k = 0;
    if w.subs[k].zipped() { return Ok(()) }
    let amt = pick(&[9usize, 10, 16, 255, usize::max_value()]);
    fired(C::fault_misuse);
    let s = &mut w.subs[k];
    let r = attempt(|| s.p().unwrap().unroll(amt, 1));
    ensure!(!r.is_ok(), "accepted-unroll", "unroll({}) was accepted", amt);
    count(C::probe_refused);
    w.subs[k].counts()?;
    w.finish()
}
fn c13() -> R {
    if chance(1, 3) { return lying() }
    history::run(&Cfg { what: &[What::Plain(Kind::Adapter)], ops: &[Next, Next, End, Advance, Finalize, Std, Clone, Collect, Fill, Reduce, Unroll, Map, Defaults], faults: &[F::Source], max_ops: 10, rate: 3, ..BASE })
}
fn c14() -> R {
    history::run(&Cfg { what: ALL, ops: &[Next, Next, End, Advance, Finalize, Scalars, Clone, Drop, Resume, Std, Collect, Reduce, DoEach, Unroll, Map, Recast], faults: &[F::Load, F::Closure, F::Source], counts: true, misuse: false, premap: 1, ..BASE })
}

/// A stream whose length is not what it said.
pub fn lying() -> R {
    let mut w = World::new();
    let e = draw(NELEM as u64) as usize;
    let wd = width_of(e);
    let len = history::draw_len(wd);
    let items = values(e, draw(1 << 20), len);
    let def = default_lanes(e, draw(64));
    let ends_at = if chance(1, 2) { len } else { range(0, len) };
    let wavering = chance(1, 4);
    let lie: isize = match draw(6) {
        0 => 0,
        1 => 1 + draw(wd as u64 * 3) as isize,
        2 => -(1 + draw(wd as u64 + 2) as isize),
        3 => -(len as isize),
        4 => wd as isize,
        _ => isize::max_value(),
    };
    if ends_at < len { fired(C::fault_source_short) }
    if lie > 0 { fired(C::fault_source_long) }
    if lie < 0 { fired(C::fault_source_short) }
    ctx().nontrivial = true;
    let huge = lie == isize::max_value();
    ev("liar", &[e as u64, len as u64, ends_at as u64, lie as u64, wavering as u64]);
    note!("a stream of {} items of {} ({} per vector) which ends after {} and says {:+}{}", len, name_of(e), wd, ends_at, lie, if wavering { ", or anything" } else { "" });
    let mut it = attempt(|| make_liar(e, items.clone(), &def, 0, ends_at, lie, wavering)).must("SIMDAdapter")?;
    if chance(1, 3) {
        let clo = closures::new_clo_salted(bits_of(e), bits_of(e), 1);
        // an identity closure would hide nothing: the harness undoes it
        let _ = clo;
    }
    let mut at = 0; // items before this one may not appear any more
    for _ in 0..draw(10) {
        let faulty = chance(1, 6);
        if faulty { arm(F::Source, draw(2 * wd as u64)) }
        let op = draw(7);
        ev("op", &[op]);
        // what was delivered, in order
        let got: Option<Vec<u64>> = match op {
            0 => attempt(|| it.next()).ok().map(|v| v.map_or(vec![], |l| l.s().to_vec())),
            1 => match attempt(|| it.end()).ok() {
                Some(Some((l, n))) => {
                    ensure!(n < wd, "wrong-unfilled", "end() reports {} of {} lanes unfilled", n, wd);
                    ensure!(l.s()[..n] == def.s()[..n], "wrong-vector", "end(): {:?} is not padded with the default", l);
                    Some(l.s()[n..].to_vec())
                }
                Some(None) => Some(vec![]),
                None => None,
            },
            2 => { let n = draw(2 * wd as u64) as usize; attempt(|| it.advance(n)).ok().map(|_| vec![]) }
            3 if !huge => attempt(|| it.collect(false)).ok(),
            4 => {
                let room = draw(4 * wd as u64) as usize;
                let r = region(e, room, Place::High, 0, false);
                for i in 0..room { put(e, &r, i, 0) }
                let ok = attempt(|| it.fill(&r, false)).is_ok();
                if let Some(o) = r.spilled() { ensure!(false, "spill", "scalar_fill() wrote byte {} of a buffer of {}", o, r.bytes) }
                let b: Vec<u64> = (0..room).map(|i| get(e, &r, i)).collect();
                // results are a prefix; what follows is the buffer's old contents
                let n = b.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
                let _ = ok;
                if items.contains(&0) { None } else { Some(b[..n].to_vec()) }
            }
            5 => {
                let clo = closures::new_clo(bits_of(e), bits_of(e));
                let _ = attempt(|| it.do_each(clo));
                let mut v = vec![];
                let calls = clos()[clo].calls.clone();
                for (i, c) in calls.iter().enumerate() {
                    // padding can only be in the last one
                    let n = if i + 1 == calls.len() { c.iter().zip(def.s()).take_while(|(a, b)| a == b).count() } else { 0 };
                    v.extend_from_slice(&c[n..]);
                }
                if calls.last().map_or(false, |c| c.iter().any(|x| def.s().contains(x))) { None } else { Some(v) }
            }
            _ => { let _ = attempt(|| (it.len(), it.slen(), it.pos(), it.vlen())); Some(vec![]) }
        };
        disarm();
        count(C::ops);
        let t = taken(0);
        ensure!(t <= ends_at, "taken", "{} items were taken from a stream of {}", t, ends_at);
        if let Some(got) = got {
            ev("got", &got);
            note!("  op {} delivered {:x?}", op, got);
            for g in &got {
                let k = (at..t).find(|k| items[*k] == *g);
                ensure!(k.is_some(), "invented-item", "{:x} was delivered, which is not among the items {}..{} taken since ({:x?})", g, at, t, got);
                let k = k.unwrap();
                at = k + 1;
            }
        } else { note!("  op {} was refused", op) }
        // anything taken and not delivered by now is gone
        at = t;
    }
    attempt(move || std::mem::drop(it)).must("drop")?;
    w.finish()
}

fn c06() -> R {
    match draw(8) {
        0 => mismatch(),
        1 => lying(),
        2 => if chance(1, 4) { too_many() } else { crate::direct::direct() },
        _ => history::run(&Cfg { what: ALL, ops: &[Next, End, End, Advance, Advance, Finalize, Scalars, Clone, Resume, SetPos, Std, Collect, CollectAll, Fill, FillAll, Reduce, DoEach, ForEach, Unroll, Map, Recast, Load, LoadScalar, Load, LoadScalar],
            faults: &[F::Closure, F::Load, F::Source], misuse: true, premap: 1, rate: 1, ..BASE }),
    }
}

/// Histories which don't account for memory: the traced build runs them as well.
pub const TRACEABLE: &[fn() -> R] = &[c01, c03, c10, c11, c14, c04, c05, c07, c12, c13, c02, c06];

/// What C15 has one thread do, without tracing: a violation found here as well isn't tracing's fault.
fn untraced() -> R { TRACEABLE[draw(TRACEABLE.len() as u64) as usize]() }

pub fn scenario(prop: &str) -> Option<fn() -> R> {
    Some(match prop {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08,
        "C15" => crate::trace::c15, "C15-untraced" => untraced, "C16" => crate::trace::c16,
        "C09" => crate::conc::c09, "C10" => c10, "C11" => c11, "C12" => c12, "C13" => c13, "C14" => c14,
        _ => return crate::known::scenario(prop),
    })
}
