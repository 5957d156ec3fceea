//! Random histories over random iterators, checked step by step against the model.
use crate::alloc::{self, pool};
use crate::closures::{self, clos};
use crate::ctx::*;
use crate::elem::*;
use crate::make::*;
use crate::mem::{self, Place, Region};
use crate::model::*;
use crate::pull::*;
use crate::sched;
use crate::subject::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Next, End, Advance, Finalize, Scalars, Clone, Resume, SetPos, Std, Collect, CollectAll, Fill, FillAll, Reduce,
    DoEach, ForEach, Unroll, UnrollInfo, UnrollHeld, Map, Recast, Drop, Load, LoadScalar, Defaults,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What { Plain(Kind), Lanes, Zip, Pairs, PairsOf }

#[derive(Clone, Copy)]
pub struct Cfg {
    pub what: &'static [What],
    /// operations; repeated ones are likelier
    pub ops: &'static [Op],
    pub faults: &'static [F],
    pub max_ops: usize,
    pub counts: bool,
    /// account for every allocation
    pub allocs: bool,
    /// maps applied before the history starts
    pub premap: usize,
    /// also skip past the end, read out of range, ...
    pub misuse: bool,
    /// chance/8 that an operation gets a fault
    pub rate: u64,
}

pub struct World {
    pub subs: Vec<Subj>,
    /// (region, element type, what it must hold)
    pub data: Vec<(Region, usize, Vec<u64>)>,
    pub ids: u64,
    /// memory is accounted for while iterators are made, too
    pub allocs: bool,
}

pub fn draw_len(w: usize) -> usize { draw_length(w, 0) }
/// A length in elements; up to `most` vectors, once in a while.
pub fn draw_length(w: usize, most: usize) -> usize {
    let mut v = pick(&[1usize, 2, 0, 3, 4, 1, 2, 5]);
    if most > 6 && chance(1, 100) { v = if most >= MOST && mem::room(mem::DATA + 1) && chance(1, 16) { range(most, GIANT) } else { range(6, most) } }
    let x = match draw(5) { 0 => draw(w as u64) as usize, 1 => 0, 2 => 1 % w, 3 => w - 1, _ => draw(w as u64) as usize };
    v * w + x
}

/// The most vectors which fit into a buffer, with all that may have to be added.
const MOST: usize = 400;
/// And into one of the few big ones.
const GIANT: usize = 4400;

/// How many elements lie before those of the model: often none, or so many that counting goes
/// past what fewer bits can hold. Always full vectors, and `n` times as many can still be counted.
pub fn draw_shift(w: usize, n: usize) -> usize {
    if !chance(1, 6) { return 0 }
    let at = pick(&[32usize, 16, 8, 31, 15, 7, 33, 24, 48, 52, 53, 63, 0]);
    let at = if at == 0 { draw(1 << 62) as usize } else { (1 << at) / if chance(1, 2) { n } else { 1 } };
    (at / w * w).saturating_sub(draw(7) as usize * w).min((1 << 63) / n / w * w)
}
/// A component of an iterator as it is made up: element type, lane, number of lanes.
pub type Origin = (usize, usize, usize);

impl World {
    pub fn new() -> World { World { subs: vec![], data: vec![], ids: 0, allocs: false } }

    /// Make an iterator. Making one allocates nothing, but for the vector it may be returned in.
    fn fresh<T>(&self, what: &str, vector: bool, f: impl FnOnce() -> T) -> R<T> {
        let (a0, l0) = (pool().allocs, pool().live);
        if self.allocs {
            pool().peak = l0;
            pool().refuse = !vector && chance(1, 2);
        }
        let r = attempt(f);
        if self.allocs {
            pool().refuse = false;
            let p = pool();
            if vector {
                ensure!(p.peak <= l0 + 1, "allocated", "{} held {} buffers at once", what, p.peak - l0);
            } else {
                ensure!(p.allocs == a0, "allocated", "{} allocated memory {} times", what, p.allocs - a0);
            }
        }
        r.must(what)
    }
    /// A buffer filled with a fresh data set.
    pub fn buffer(&mut self, elem: usize, len: usize, ro: bool) -> usize {
        let (place, skew) = mem::draw_place();
        let r = region(elem, len, place, skew, ro);
        let vals = values(elem, draw(1 << 20), len);
        for (i, v) in vals.iter().enumerate() { put(elem, &r, i, *v) }
        self.data.push((r, elem, vals));
        self.data.len() - 1
    }
    pub fn id(&mut self) -> u64 { self.ids += 1; self.ids }

    /// Nothing but what was asked for has changed.
    pub fn check_data(&self) -> R {
        for (k, (r, e, vals)) in self.data.iter().enumerate() {
            if let Some(o) = r.spilled() {
                ensure!(false, "spill", "byte {} relative to buffer {} of {} bytes was written", o, k, r.bytes);
            }
            for (i, v) in vals.iter().enumerate() {
                let g = get(*e, r, i);
                ensure!(g == *v, "changed-data", "element {} of buffer {} changed from {:x} to {:x}", i, k, v, g);
            }
        }
        Ok(())
    }

    pub fn plain(&mut self, kind: Kind, elem: usize, mutable: bool) -> R<usize> {
        let w = width_of(elem);
        let len = draw_length(w, MOST);
        let def = default_lanes(elem, draw(64));
        let mut shift = 0;
        let name = format!("{}#{}", name_of(elem), self.subs.len());
        let s = if kind == Kind::Adapter {
            let items = values(elem, draw(1 << 20), len);
            let id = new_src();
            let m = Model::new(vec![items.clone()], vec![def.s().to_vec()], w);
            let it = self.fresh("SIMDAdapter", false, || make_adapter(elem, items, &def, id))?;
            let mut s = Subj::new(It::P(it), m, elem, kind, None);
            s.adapter = Some(id);
            s.stream = s.m.items[0].clone();
            s
        } else {
            let b = self.buffer(elem, len, kind == Kind::Ref || (kind == Kind::Sim && !mutable));
            let mut r = self.data[b].0;
            if kind == Kind::Sim { shift = draw_shift(w, 1); r.shift = shift }
            let m = Model::new(vec![self.data[b].2.clone()], vec![def.s().to_vec()], w);
            let id = self.id();
            let by_ref = [Kind::Ref, Kind::Mut].contains(&kind) && chance(1, 3);
            let it = self.fresh("simd_iter()", kind == Kind::Vec, || match kind {
                Kind::Ref => make_ref(elem, &r, &def, by_ref),
                Kind::Mut => make_mut(elem, &r, &def, by_ref),
                Kind::Vec => make_vec(elem, &r, &def),
                _ => make_sim(elem, &r, &def, id),
            })?;
            Subj::new(It::P(it), m, elem, kind, Some(r))
        };
        ev("subject", &[kind as u64, elem as u64, len as u64]);
        note!("{}: {:?} of {} elements, {} per vector", name, kind, len, w);
        let k = self.push(s, name)?;
        self.subs[k].far(0, shift, &[(elem, 0, 1)])?;
        Ok(k)
    }
    fn push(&mut self, mut s: Subj, name: String) -> R<usize> {
        s.name = name;
        self.subs.push(s);
        Ok(self.subs.len() - 1)
    }

    /// Lanes of a strided collection; returns how many became subjects.
    pub fn lanes(&mut self, kind: Kind, elem: usize, keep: usize) -> R<usize> {
        let w = width_of(elem);
        let how = pick(&[How::Fixed, How::Vec, How::Into]);
        let mut n = if how == How::Fixed { pick(&[2usize, 3, 4, 9]) } else { pick(&[2usize, 3, 5, 7, 1, 8, 11]) };
        let mut per = draw_length(w, MOST / n);
        let size = bits_of(elem) as usize / 8;
        if how != How::Fixed && chance(1, 50) {
            n = if how == How::Into { pick(&[255usize, 256, 257, 300, 64]) } else { pick(&[16usize, 33, 64, 100]) };
            per = range(0, 12000 / n / size);
        }
        // (lane, number of lanes) of what is taken apart
        let outer = if kind == Kind::Nested { let m = range(2, 4); (draw(m as u64) as usize, m) } else { (0, 1) };
        per = per.min(14000 / (n + 1) / outer.1 / size);
        let shift = if [Kind::SimLane, Kind::Nested, Kind::OfLane].contains(&kind) { draw_shift(w, n * outer.1) } else { 0 };
        let extra = if n > 1 { draw(n as u64) as usize } else { 0 };
        let beyond = if outer.1 > 1 { draw(outer.1 as u64) as usize } else { 0 };
        let b = self.buffer(elem, (per * n + extra) * outer.1 + beyond, true);
        let mut r = self.data[b].0;
        r.shift = n * outer.1 * shift;
        let vals: Vec<u64> = (0..per * n + extra).map(|i| self.data[b].2[outer.0 + outer.1 * i]).collect();
        let salt = draw(64);
        let defs: Vec<Lanes> = (0..n).map(|k| default_lanes(elem, salt * 16 + k as u64)).collect();
        let id = self.id();
        let all = self.fresh("stride()", how == How::Vec, || make_lanes(elem, kind, &r, how, &defs, id, outer))?;
        ensure!(all.len() == n, "wrong-count", "stride({}) made {} lanes", n, all.len());
        ev("lanes", &[kind as u64, elem as u64, n as u64, per as u64, extra as u64, how as u64]);
        note!("stride by {} ({:?}) over {:?} of {} elements of {}, {} per vector", n, how, kind, vals.len(), name_of(elem), w);
        let mut left: Vec<(usize, Box<dyn Pull>)> = all.into_iter().enumerate().collect();
        let mut made = 0;
        while made < keep && !left.is_empty() {
            let (k, it) = left.remove(draw(left.len() as u64) as usize);
            let items: Vec<u64> = (0..vals.len() / n).map(|i| vals[k + n * i]).collect();
            let m = Model::new(vec![items], vec![defs[k].s().to_vec()], w);
            let name = format!("lane{}of{}#{}", k, n, self.subs.len());
            let s = Subj::new(It::P(it), m, elem, kind, Some(r));
            let i = self.push(s, name)?;
            self.subs[i].far(0, shift, &[(elem, outer.0 + outer.1 * k, outer.1 * n)])?;
            made += 1;
        }
        Ok(made)
    }

    /// The parts of a zip of `len` elements; returns their model.
    /// With `shift`, there are that many elements more, and `start` counts from there.
    pub fn parts(&mut self, elems: &[usize], len: usize, start: usize, kinds: &[Kind], shift: usize) -> (Vec<Part>, Model) {
        let w = width_of(elems[0]);
        let mut parts = vec![];
        let mut m = Model::new(vec![], vec![], w);
        for &e in elems {
            let kind = pick(kinds);
            let (count, lane) = match kind {
                Kind::Lane | Kind::SimLane => { let c = range(2, 4); (c, draw(c as u64) as usize) }
                _ => (1, 0),
            };
            let extra = if count > 1 { draw(count as u64) as usize } else { 0 };
            let b = self.buffer(e, len * count + extra, true);
            let vals = &self.data[b].2;
            m.items.push((0..len).map(|i| vals[lane + count * i]).collect());
            let mut region = self.data[b].0;
            region.shift = shift * count;
            let def = default_lanes(e, draw(64));
            m.def.push(def.s().to_vec());
            let id = self.id();
            parts.push(Part { kind, region, def, id, lane, count, start });
        }
        m.pos = start;
        (parts, m)
    }
    pub fn zip(&mut self, class: usize, kinds: &[Kind]) -> R<usize> {
        let max = if class == 0 { MAX_ARITY } else { 3 };
        let arity = match draw(4) { 0 => 2, 1 => 3, _ => range(2, max) };
        let elems = zip_elems(class, arity);
        let w = width_of(elems[0]);
        let len = draw_length(w, MOST / 5);
        let mut start = if chance(1, 3) { range(0, len) } else { 0 };
        let direct = class == 0 && arity == 2 && chance(1, 2);
        let shift = if direct { 0 } else { draw_shift(w, 4) };
        if shift > 0 && start > 0 { start = draw(shift as u64) as usize }
        let (parts, mut m) = self.parts(&elems, len, start, if direct { &[Kind::Ref, Kind::Lane] } else if shift > 0 { &[Kind::Sim, Kind::SimLane] } else { kinds }, shift);
        if shift > 0 { m.pos = 0 }
        let it = self.fresh("zip()", false, || if direct { make_zip_direct(&parts) } else { make_zip(class, &parts) })?;
        ev("zip", &[class as u64, arity as u64, len as u64, start as u64]);
        note!("zip of {} x {} elements from {}: {:?}", arity, len, start, parts.iter().map(|p| p.kind).collect::<Vec<_>>());
        let s = Subj::new(It::Z(it), m, elems[0], Kind::Ref, None);
        let name = format!("zip{}#{}", arity, self.subs.len());
        let k = self.push(s, name)?;
        let from: Vec<Origin> = parts.iter().zip(elems.iter()).map(|(p, e)| (*e, p.lane, p.count)).collect();
        self.subs[k].far(start, shift, &from)?;
        Ok(k)
    }
    /// Adjacent pairs over the library's own iterators.
    pub fn pairs(&mut self, kind: Kind) -> R<usize> {
        let elem = draw(NPAIR as u64) as usize;
        let w = width_of(elem);
        let len = draw_length(w, MOST) + if chance(1, 2) { w } else { 0 };
        let start = if chance(1, 3) { range(0, len) } else { 0 };
        let b = self.buffer(elem, len, true);
        let mut r = self.data[b].0;
        if kind == Kind::Sim { r.shift = draw_shift(w, 1) }
        let def = default_lanes(elem, draw(64));
        let id = self.id();
        let it = self.fresh("stride_zip()", false, || pairs(elem, kind, &r, &def, r.shift + start, id))?;
        let m = pair_model(&self.data[b].2[start..], def.s(), w);
        if (len - start) % 2 == 1 { count(C::probe_odd_pair) }
        ev("pairs", &[elem as u64, len as u64, start as u64]);
        note!("pairs of {} elements of {} from {}", len, name_of(elem), start);
        let mut s = Subj::new(It::Z(it), m, elem, kind, Some(r));
        s.pairs = true;
        let name = format!("pairs#{}", self.subs.len());
        self.push(s, name)
    }
    /// Adjacent pairs over any other iterator.
    pub fn pairs_of(&mut self, k: usize) -> R {
        let s = &mut self.subs[k];
        if !s.plain || s.zipped() || s.elem >= NPAIR { return Ok(()) }
        let w = s.m.w;
        let from = s.m.pos.min(s.m.len());
        let m = pair_model(&s.m.items[0][from..], &s.m.def[0], w);
        let it = match std::mem::replace(&mut s.it, It::Gone) { It::P(i) => i, _ => unreachable!() };
        let elem = s.elem;
        let it = self.fresh("stride_zip()", false, || pairs_dyn(elem, it))?;
        let s = &mut self.subs[k];
        s.it = It::Z(it);
        s.m = m;
        s.pairs = true;
        s.base = from;
        s.shift = 0;
        s.plain = false;
        note!("  {} is now iterated in pairs", s.name);
        Ok(())
    }

    pub fn setup(&mut self, what: What) -> R {
        match what {
            What::Plain(k) => {
                let e = draw(NELEM as u64) as usize;
                self.plain(k, e, k == Kind::Mut)?;
            }
            What::Lanes => {
                let e = draw(NELEM as u64) as usize;
                let k = pick(&[Kind::Lane, Kind::SimLane, Kind::IterLane, Kind::SimLane, Kind::Lane, Kind::Nested, Kind::OfLane]);
                let keep = range(1, 4);
                self.lanes(k, e, keep)?;
            }
            What::Zip => { let c = pick(&[0usize, 0, 1, 2, 3]); self.zip(c, &[Kind::Ref, Kind::Sim, Kind::Lane, Kind::SimLane])?; }
            What::Pairs => { let k = pick(&[Kind::Ref, Kind::Sim]); self.pairs(k)?; }
            What::PairsOf => {
                match draw(3) {
                    0 => { let k = pick(&[Kind::Sim, Kind::Mut]); let e = draw(NPAIR as u64) as usize; self.plain(k, e, false)?; }
                    1 => { let e = draw(NPAIR as u64) as usize; self.plain(Kind::Adapter, e, false)?; }
                    _ => { let e = draw(NPAIR as u64) as usize; self.lanes(Kind::SimLane, e, 1)?; }
                }
                let k = self.subs.len() - 1;
                if chance(1, 2) { let n = range(0, self.subs[k].m.len()); self.subs[k].advance(n)? }
                self.pairs_of(k)?;
            }
        }
        Ok(())
    }

    /// Would this operation make sense for this subject?
    pub fn fits(&self, k: usize, op: Op) -> bool {
        let s = &self.subs[k];
        let z = s.zipped();
        match op {
            Scalars => s.plain && !z && s.kind != Kind::Adapter,
            Load | LoadScalar => s.plain && !z && s.kind != Kind::Adapter,
            Clone => s.plain && !z && s.kind != Kind::Mut && self.subs.len() < 5 && more_srcs(),
            Resume | SetPos => s.plain && !z && [Kind::Ref, Kind::Mut, Kind::Vec, Kind::Sim, Kind::OfLane].contains(&s.kind),
            Collect | CollectAll | Fill | FillAll | Unroll | UnrollInfo | UnrollHeld => !z,
            ForEach => s.plain && !z && (s.kind == Kind::Mut || (s.kind == Kind::Sim && !s.region.unwrap().ro)),
            Map => s.maps.len() < 2,
            Recast => !z && s.maps.len() < 2,
            _ => true,
        }
    }

    fn arm_some(&self, cfg: &Cfg, bulk: bool, w: usize) {
        if cfg.faults.is_empty() || !chance(cfg.rate, 8) { return }
        let f = pick(cfg.faults);
        let n = if bulk { match draw(3) { 0 => draw(4), 1 => draw(w as u64 + 2), _ => draw(5 * w as u64 + 2) } }
                else { match draw(2) { 0 => draw(3), _ => draw(w as u64 + 1) } };
        note!("  (the next {:?} after {} others will fail)", f, n);
        arm(f, n);
    }

    pub fn step(&mut self, cfg: &Cfg, op: Op, k: usize) -> R {
        let bulk = [Std, Collect, CollectAll, Fill, FillAll, Reduce, DoEach, ForEach, Unroll].contains(&op);
        let quietly = [Clone, Map, Recast, UnrollInfo, UnrollHeld, Drop, Resume, SetPos, Defaults].contains(&op);
        let w = self.subs[k].m.w;
        let (sk, spos, slen) = { let s = &self.subs[k]; (s.kind, s.m.pos, s.m.len()) };
        ev("op", &[op as u64, k as u64, spos as u64]);
        count(C::ops);
        ctx().opmask |= 1 << op as u64;
        if ctx().opmask.count_ones() > 1 { ctx().nontrivial = true }
        if !quietly { self.arm_some(cfg, bulk, w) }
        let may_alloc = [Collect, CollectAll].contains(&op) || (op == Clone && sk == Kind::Vec) || op == Drop;
        let (a0, l0) = (pool().allocs, pool().live);
        unsafe {
            if DEPTH == 0 { MUTATING = op == ForEach }
            BUSY[DEPTH] = k;
            DEPTH += 1;
        }
        if cfg.allocs {
            pool().peak = pool().live;
            pool().refuse = !may_alloc && chance(1, 2);
        }
        let r = self.apply(cfg, op, k, w, spos, slen);
        unsafe { DEPTH -= 1 }
        disarm();
        if cfg.allocs {
            pool().refuse = false;
            r?;
            let p = pool();
            if !may_alloc {
                ensure!(p.allocs == a0, "allocated", "{:?} allocated memory {} times", op, p.allocs - a0);
            } else if op != Drop && op != Clone {
                ensure!(p.live == l0, "leak", "{:?} left {} allocations behind", op, p.live as i64 - l0 as i64);
                ensure!(p.peak <= l0 + 1, "allocated", "{:?} held {} buffers at once", op, p.peak - l0);
            }
        } else {
            r?;
        }
        if k < self.subs.len() && !self.subs[k].gone() && !self.subs[k].wild { self.subs[k].check_taken()? }
        if cfg.counts && k < self.subs.len() && !self.subs[k].gone() && !self.subs[k].wild {
            self.subs[k].counts()?;
        }
        ok()
    }

    fn apply(&mut self, cfg: &Cfg, op: Op, k: usize, w: usize, spos: usize, slen: usize) -> R {
        let rem = slen.saturating_sub(spos);
        match op {
            Next => { self.subs[k].single(false)?; }
            End => { self.subs[k].single(true)?; }
            Advance => {
                let mut n = match draw(5) {
                    0 => draw(4) as usize,
                    1 => w,
                    2 => draw(2 * w as u64) as usize,
                    3 => rem,
                    _ => if cfg.misuse { pick(&[rem + 1, rem + w, usize::max_value(), usize::max_value() - w, usize::max_value() / 2 + 1, 1 << 32, 1 << 16, 1 << 8]) } else { rem / 2 },
                };
                if !cfg.misuse { n = n.min(rem) }
                // after a failed pull, pairs hold a vector which a short skip would lose (a known finding)
                let s = &mut self.subs[k];
                if s.pairs && s.after_fault && n < w { return Ok(()) }
                s.advance(n)?
            }
            Finalize => {
                let s = &mut self.subs[k];
                if s.pairs && s.after_fault && rem < w / 2 { return Ok(()) }
                s.finalize()?
            }
            Scalars => { let n = match draw(3) { 0 => draw(4), 1 => draw(w as u64 + 2), _ => draw(rem as u64 + 2) } as usize; self.subs[k].scalars(n)? }
            Clone => if let Some(mut c) = self.subs[k].try_clone()? {
                c.name = format!("{}'", self.subs[k].name);
                note!("  {} cloned as #{}", self.subs[k].name, self.subs.len());
                self.subs.push(c);
            },
            Resume => self.subs[k].resume()?,
            SetPos => {
                let p = if cfg.misuse && chance(1, 4) { pick(&[slen + 1, usize::max_value(), usize::max_value() - w + 1, slen + w, 1 << 32, 1 << 16]) } else { range(0, slen) };
                if p > slen { fired(C::fault_misuse) }
                self.subs[k].set_pos(p);
            }
            Std => { let a = pick(&STDS); let n = draw(5) as usize; self.subs[k].std(a, n)? }
            Collect => self.subs[k].collect(false)?,
            CollectAll => self.subs[k].collect(true)?,
            Fill | FillAll => self.fill(cfg, k, op == FillAll)?,
            Reduce => self.subs[k].reduce()?,
            DoEach => self.subs[k].do_each()?,
            ForEach => self.for_each(k)?,
            Unroll => { let a = pick(&[2usize, 1, 3, 4, 8, 7, 5, 0]); let n = range(1, 4); self.subs[k].unroll(a, n)? }
            UnrollInfo => {
                let a = range(1, 8);
                let s = &mut self.subs[k];
                let r = attempt(|| s.p().unwrap().unroll_info(a)).must("unroll()")?;
                ensure!(r.0 == a, "chunk-len", "unroll({}) reports chunks of {}", a, r.0);
                ensure!(r.1 == (s.m.pos + s.shift) / s.m.w / a, "chunk-pos", "unroll({}) reports chunk {} at position {}", a, r.1, s.m.pos);
            }
            UnrollHeld => self.held(k)?,
            Map => self.subs[k].map(false)?,
            Recast => self.subs[k].map(true)?,
            Drop => if self.subs.len() > 1 {
                count(C::fault_drop_midway);
                let s = self.subs.remove(k);
                note!("  {} dropped", s.name);
                attempt(move || drop(s)).must("drop")?
            },
            Load | LoadScalar => self.random_read(cfg, k, op == Load)?,
            Defaults => self.defaults(k)?,
        }
        Ok(())
    }

    pub fn fill(&mut self, cfg: &Cfg, k: usize, all: bool) -> R {
        let s = &self.subs[k];
        let e = s.out_elem();
        let ow = s.out_width();
        let rest = s.m.rest();
        let lanes = rest.len() * ow;
        let mut gap = rest.last().map_or(0, |v| v.1);
        for &id in &s.maps { let c = &clos()[id]; gap = map_empty(gap, c.isz, c.osz) }
        let need = lanes - if all { 0 } else { gap };
        let room = match draw(6) {
            0 => need,
            1 => need + 1 + draw(ow as u64) as usize,
            2 => need + ow + draw(2 * ow as u64) as usize,
            3 => need,
            4 => need.saturating_sub(1 + draw(ow as u64) as usize),
            _ => draw(need as u64 + 1) as usize,
        };
        // a refusal allocates its panic
        let room = if cfg.allocs { room.max(need) } else { room };
        if !mem::room(room * s.bits as usize / 8) { return Ok(()) }
        let b = self.buffer(e, room, false);
        ev("room", &[room as u64, need as u64]);
        let (r, _, mut shadow) = self.data.pop().unwrap();
        let res = self.subs[k].fill(all, &r, e, &mut shadow);
        self.data.push((r, e, shadow));
        let _ = b;
        res
    }
    pub fn for_each(&mut self, k: usize) -> R {
        let reg = self.subs[k].region.unwrap();
        let d = self.data.iter().position(|d| d.0.arena == reg.arena).unwrap();
        let mut shadow = std::mem::replace(&mut self.data[d].2, vec![]);
        let r = self.subs[k].for_each(&mut shadow);
        for s in self.subs.iter_mut() {
            if s.region.map_or(false, |x| x.arena == reg.arena) { s.m.items[0] = shadow.clone() }
        }
        self.data[d].2 = shadow;
        r
    }
    /// A chunk must keep its contents while the next one is pulled.
    fn held(&mut self, k: usize) -> R {
        let amt = range(1, 4);
        let s = &mut self.subs[k];
        let w = s.m.w;
        let full = s.m.rem() / w;
        let a = full.min(amt);
        let b = (full - a).min(amt);
        let rest: Vec<Vecs> = s.m.rest().into_iter().take(a + b).collect();
        let got = attempt(|| s.p().unwrap().unroll_held(amt)).must("unroll()")?;
        let want: Vec<Lanes> = rest.iter().map(|v| s.chain1(v, None).0[0]).collect();
        s.m.pos = s.m.pos_after(a + b);
        match got {
            None => ensure!(a == 0, "missing-chunk", "unroll({}): no chunk, {} vectors are left", amt, full),
            Some((before, after)) => {
                ensure!(before[..] == want[..a], "wrong-chunk", "unroll({}): {} instead of {}", amt, sh_(&before), sh_(&want[..a]));
                // the chunk's memory is reused by the next pull: the listed finding
                let mut reused = before.clone();
                reused[..b.min(a)].copy_from_slice(&want[a..a + b.min(a)]);
                if after[..] != before[..] {
                    if after == reused {
                        vio("held-chunk-reused", format_args!("unroll({}): a chunk of {} vectors was overwritten by the next pull", amt, a));
                        return ok();
                    }
                    ensure!(false, "held-chunk-corrupted", "unroll({}): {} became {}", amt, sh_(&before), sh_(&after));
                }
            }
        }
        s.check_calls(None, "unroll()")
    }
    /// Reading at an offset, in range or not.
    fn random_read(&mut self, cfg: &Cfg, k: usize, vector: bool) -> R {
        let s = &mut self.subs[k];
        let (w, len, shift) = (s.m.w, s.m.len(), s.shift);
        let n = if vector { w } else { 1 };
        let off = match draw(4) {
            0 => draw(len as u64 + 1) as usize,
            1 => len.saturating_sub(n),
            2 => draw(w as u64) as usize,
            _ => if cfg.misuse { pick(&[len + 1 - n.min(len + 1), len, len + 1, len + w, usize::max_value(), usize::max_value() - w + 1, usize::max_value() / 2 + 1, usize::max_value() / 3 + 1, usize::max_value() / 4 + 1, usize::max_value() / 5, usize::max_value() / 9 + 1, 1 << 32, 1 << 31, 1 << 16, 1 << 8]).saturating_add(if chance(1, 2) { draw(len as u64 + 1) as usize } else { 0 }) } else { 0 },
        };
        let fits = off <= len && len - off >= n;
        // a lane may be read beyond its last complete group, where its source goes on
        let lane = [Kind::Lane, Kind::SimLane, Kind::IterLane, Kind::Nested, Kind::OfLane].contains(&s.kind);
        let checked = !fits || chance(1, 2);
        if !fits { fired(C::fault_misuse) }
        if !fits && !cfg.misuse { return Ok(()) }
        let r = attempt(|| {
            let p = s.p().unwrap();
            let off = off.saturating_add(shift);
            if vector { p.load(off, checked).unwrap().s().to_vec() } else { vec![p.load_scalar(off, checked).unwrap()] }
        });
        note!("  {}.load{}({}) {}", s.name, if vector { "" } else { "_scalar" }, off, if r.is_ok() { "" } else { "failed" });
        match r {
            Out::Ok(got) => {
                ev("read", &got);
                if fits {
                    let want = s.m.items[0][off..off + n].to_vec();
                    s.same("load()", &got, &want)?;
                } else {
                    ensure!(lane && off <= len + 1, "accepted-out-of-range", "{}: read {} elements at {} of {}", s.name, n, off, len);
                }
            }
            Out::Fault => {}
            Out::Panic => {
                ensure!(!fits, "unexpected-panic", "{} load({}): {}", s.name, off, panic_msg());
                count(C::probe_refused)
            }
        }
        Ok(())
    }
    fn defaults(&mut self, k: usize) -> R {
        let s = &self.subs[k];
        if !s.maps.is_empty() { return Ok(()) }
        let got = match &s.it { It::P(i) => vec![i.default_lanes()], It::Z(i) => i.default_lanes(), _ => return Ok(()) };
        for (g, w) in got.iter().zip(s.m.def.iter()) {
            ensure!(g.s() == &w[..], "wrong-default", "{}: reports default {:x?} instead of {:x?}", s.name, g, w);
        }
        Ok(())
    }

    /// Let every iterator go; nothing may be left behind.
    pub fn finish(&mut self) -> R {
        disarm();
        let subs = std::mem::replace(&mut self.subs, vec![]);
        attempt(move || drop(subs)).must("drop")?;
        ensure!(closures::live_toks() == 0, "captured-state", "{} captured states were not dropped exactly once", closures::live_toks());
        ensure!(live_accs() == 0, "accumulator", "{} accumulators were not dropped exactly once", live_accs());
        ensure!(pool().live == 0, "leak", "{} allocations were never released", pool().live);
        self.check_data()
    }
}
fn sh_(v: &[Lanes]) -> String { format!("{:x?}", v) }

pub fn pair_model(src: &[u64], def: &[u64], w: usize) -> Model {
    let n = src.len() / 2;
    Model::new(vec![(0..n).map(|i| src[2 * i]).collect(), (0..n).map(|i| src[2 * i + 1]).collect()], vec![def.to_vec(), def.to_vec()], w)
}

/// Make iterators, run a random history over them, then drain and drop them.
pub fn run(cfg: &Cfg) -> R {
    let mut w = World::new();
    w.allocs = cfg.allocs;
    w.setup(pick(cfg.what))?;
    if chance(1, 3) && w.subs.len() < 3 { w.setup(pick(cfg.what))? }
    for k in 0..w.subs.len() {
        for _ in 0..draw(cfg.premap as u64 + 1) {
            let op = if cfg.ops.contains(&Recast) && chance(1, 3) { Recast } else { Map };
            if w.fits(k, op) { w.step(cfg, op, k)? }
        }
    }
    let _g = if w.subs.len() > 1 && chance(1, 4) { Some(nesting(&mut w, cfg)) } else { None };
    history(&mut w, cfg)?;
    drain(&mut w, cfg)?;
    w.finish()
}

pub fn history(w: &mut World, cfg: &Cfg) -> R {
    if chance(1, 64) && !sched::in_thread() { return handed_over(w, cfg) }
    for _ in 0..cfg.max_ops {
        if !one(w, cfg)? { break }
    }
    Ok(())
}
fn one(w: &mut World, cfg: &Cfg) -> R<bool> {
    let o = draw(cfg.ops.len() as u64 + 1) as usize;
    if o == 0 { return Ok(false) }
    let op = cfg.ops[o - 1];
    let k = if w.subs.len() > 1 { draw(w.subs.len() as u64) as usize } else { 0 };
    if w.subs[k].gone() { return Ok(true) }
    if w.subs[k].wild && ![Next, End, Drop].contains(&op) { return Ok(true) }
    if !w.fits(k, op) { return Ok(true) }
    if w.subs[k].wild { wild(&mut w.subs[k], op)?; return Ok(true) }
    w.step(cfg, op, k)?;
    Ok(true)
}

/// The same history, by several threads: between two operations another one may go on.
fn handed_over(w: &mut World, cfg: &Cfg) -> R {
    let n = range(2, 3);
    let nested = unsafe { NESTS };
    let shared = (w as *mut World as usize, cfg as *const Cfg as usize);
    static mut LEFT: usize = 0;
    static mut BAD: bool = false;
    unsafe {
        LEFT = cfg.max_ops + n;
        BAD = false;
    }
    let threads = (0..n).map(|i| Box::new(move || {
        let (w, cfg) = unsafe { (&mut *(shared.0 as *mut World), &*(shared.1 as *const Cfg)) };
        let _g = if nested { Some(nesting(w, cfg)) } else { None };
        while unsafe { LEFT > 0 && !BAD } {
            unsafe { LEFT -= 1 }
            note!("thread {} goes on", i);
            match one(w, cfg) {
                Ok(true) => {}
                Ok(false) => break,
                Err(_) => unsafe { BAD = true },
            }
            sched::hand_over();
        }
    }) as Box<dyn FnOnce() + Send>).collect();
    sched::run_threads(threads, 0);
    if unsafe { BAD } { Err(Stop) } else { Ok(()) }
}

// ---- re-entrancy: while one iterator waits for its collection, stream or closure, another is used
#[thread_local] static mut NESTS: bool = false;
#[thread_local] static mut WORLD: *mut World = 0 as *mut World;
#[thread_local] static mut CFG: *const Cfg = 0 as *const Cfg;
/// The iterators in use, one inside the other.
#[thread_local] static mut BUSY: [usize; 3] = [0; 3];
#[thread_local] static mut DEPTH: usize = 0;
/// Mutation in place: whoever looks at that collection now sees some of it.
#[thread_local] static mut MUTATING: bool = false;

pub struct Nesting(bool);
impl std::ops::Drop for Nesting {
    fn drop(&mut self) { unsafe { NESTS = self.0 } }
}
pub fn nesting(w: &mut World, cfg: &Cfg) -> Nesting {
    unsafe {
        let old = NESTS;
        NESTS = true;
        WORLD = w;
        CFG = cfg;
        DEPTH = 0;
        MUTATING = false;
        Nesting(old)
    }
}
/// The user's code runs, called by the library.
pub fn user_code(why: &str) {
    if unsafe { NESTS && DEPTH > 0 && DEPTH < 3 && !MUTATING } && chance(1, 4) { unsafe { nested(why) } }
    sched::yield_point(why)
}
unsafe fn nested(why: &str) {
    let (w, cfg) = (&mut *WORLD, &*CFG);
    let op = pick(&[Next, Next, End, Advance, Scalars]);
    let j = draw(w.subs.len() as u64) as usize;
    if BUSY[..DEPTH].contains(&j) || !cfg.ops.contains(&op) || w.subs[j].gone() || w.subs[j].wild || !w.fits(j, op) { return }
    let c = ctx();
    let kept = (c.armed, c.last_fault, c.last_id, pool().refuse, pool().peak);
    fired(C::fault_nested_call);
    note!("  [at {}:", why);
    c.armed = [None; F::COUNT as usize];
    let _ = w.step(cfg, op, j);
    note!("  ]");
    let c = ctx();
    c.armed = kept.0;
    c.last_fault = kept.1;
    c.last_id = kept.2;
    pool().refuse = kept.3;
    pool().peak = pool().peak.max(kept.4);
}
/// Only safety can be asked of an iterator whose position is unknown.
fn wild(s: &mut Subj, op: Op) -> R {
    let _ = attempt(|| match (&mut s.it, op) {
        (It::P(i), Next) => { i.next(); }
        (It::P(i), End) => { i.end(); }
        (It::Z(i), Next) => { i.next(); }
        (It::Z(i), End) => { i.end(); }
        _ => {}
    });
    Ok(())
}
/// What is left after the history is all delivered, and nothing more.
pub fn drain(w: &mut World, cfg: &Cfg) -> R {
    for k in 0..w.subs.len() {
        if w.subs[k].gone() || w.subs[k].wild { continue }
        let mut left = w.subs[k].m.rest().len() + 4;
        // many of them at once
        if left > 100 { w.step(cfg, DoEach, k)?; left = w.subs[k].m.rest().len() + 4 }
        while w.subs[k].m.rem() >= w.subs[k].m.w && left > 0 {
            w.step(cfg, Next, k)?;
            left -= 1;
        }
        for _ in 0..3 {
            if left > 0 { w.step(cfg, End, k)? }
        }
        if w.subs[k].m.rem() == 0 {
            w.step(&Cfg { faults: &[], ..*cfg }, Next, k)?;
            w.step(&Cfg { faults: &[], ..*cfg }, End, k)?;
        }
    }
    Ok(())
}
