//! One SIMD iterator under test together with its reference model.
use crate::alloc::{self, pool};
use crate::closures::{apply, clos, flat, new_clo};
use crate::ctx::*;
use crate::elem::*;
use crate::history::Origin;
use crate::make::*;
use crate::mem::Region;
use crate::model::*;
use crate::pull::*;

pub enum It { P(Box<dyn Pull>), Z(Box<dyn ZPull>), Gone }
macro_rules! on { ($s:expr, $i:ident => $e:expr) => { match &$s.it { It::P($i) => $e, It::Z($i) => $e, It::Gone => unreachable!() } } }
macro_rules! onm { ($s:expr, $i:ident => $e:expr) => { match &mut $s.it { It::P($i) => $e, It::Z($i) => $e, It::Gone => unreachable!() } } }

pub struct Subj {
    pub it: It,
    pub m: Model,
    pub elem: usize,
    /// bits of the source's lanes, and of the outputs
    pub isz: u32,
    pub bits: u32,
    pub maps: Vec<usize>,
    pub kind: Kind,
    pub name: String,
    pub region: Option<Region>,
    /// has not been mapped: the kind's own abilities are there
    pub plain: bool,
    pub pairs: bool,
    pub adapter: Option<usize>,
    /// misuse made its future unpredictable (but not unsafe)
    pub wild: bool,
    /// a pull failed and nothing was delivered since
    pub after_fault: bool,
    /// items a failing stream took with it
    pub lost: usize,
    /// what the stream holds without them, and where the model starts in it
    pub stream: Vec<u64>,
    pub base: usize,
    /// elements in front of those of the model, all passed (see `World::far`)
    pub shift: usize,
}

/// The element at index `k` of the data set `salt`: distinct within a data set as far as possible.
pub fn value(elem: usize, salt: u64, k: usize) -> u64 {
    let b = bits_of(elem);
    if b == 8 {
        return (k as u64).wrapping_mul(2 * (salt & 63) + 1).wrapping_add(salt >> 6) & 0xff;
    }
    let mut v = mix(salt ^ (k as u64) << 20) & mask(b);
    if elem == 6 { v &= !(1 << 30) }
    if elem == 9 { v &= !(1 << 62) }
    v
}
pub fn values(elem: usize, salt: u64, n: usize) -> Vec<u64> { (0..n).map(|k| value(elem, salt, k)).collect() }
pub fn default_lanes(elem: usize, salt: u64) -> Lanes {
    Lanes::from(&values(elem, salt ^ 0xDEF0, width_of(elem)))
}

pub struct Bulk {
    pub done: bool,
    /// outputs of the vectors which made it through
    pub outs: Vec<(Lanes, usize)>,
    /// vectors consumed (including the failed one), and what they were
    pub used: usize,
    pub rest: Vec<Vecs>,
    pub from: usize,
}

fn show(v: &[Lanes]) -> String { format!("{:x?}", v) }

impl Subj {
    pub fn new(it: It, m: Model, elem: usize, kind: Kind, region: Option<Region>) -> Subj {
        let b = bits_of(elem);
        let s = Subj { it, m, elem, isz: b, bits: b, maps: vec![], kind, name: String::new(), region, plain: true,
                       pairs: false, adapter: None, wild: false, after_fault: false, lost: 0, stream: vec![], base: 0, shift: 0 };
        s
    }
    pub fn p(&mut self) -> Option<&mut Box<dyn Pull>> {
        match &mut self.it { It::P(p) => Some(p), _ => None }
    }
    pub fn pos(&self) -> usize { on!(self, i => i.pos()).wrapping_sub(self.shift) }
    pub fn slen(&self) -> usize { on!(self, i => i.slen()).wrapping_sub(self.shift) }
    pub fn zipped(&self) -> bool { match self.it { It::Z(_) => true, _ => false } }

    /// Move on to the elements of the model, past `shift` which are made up; it stands at `cur` of them.
    pub fn far(&mut self, mut cur: usize, shift: usize, from: &[Origin]) -> R {
        if shift == 0 { return ok() }
        note!("  {} has {} more elements in front of these, and is at {}", self.name, shift, cur);
        count(C::probe_far);
        ev("far", &[cur as u64, shift as u64]);
        let w = self.m.w;
        let total = shift + self.m.len();
        for _ in 0..range(1, 4) {
            let (pos, slen, vpos, vlen, len, hint) = on!(self, i => (i.pos(), i.slen(), i.vpos(), i.vlen(), i.len(), i.size_hint()));
            ensure!((pos, slen) == (cur, total), "position", "{}: at {} of {} instead of {} of {}", self.name, pos, slen, cur, total);
            ensure!((vpos, vlen) == (cur / w, total / w), "vector-position", "{}: at {} of {}, that is vector {} of {}?", self.name, cur, total, vpos, vlen);
            ensure!(len == (total - cur) / w && hint.0 <= len && hint.1.map_or(true, |h| h >= len), "promised", "{}: promises {} full vectors ({:?}), at {} of {}", self.name, len, hint, cur, total);
            let before = cur;
            if cur + w <= shift && chance(1, 2) {
                let got = attempt(|| match &mut self.it { It::P(i) => i.next().map(|l| vec![l]), It::Z(i) => i.next(), _ => unreachable!() }).must("next()")?;
                let want: Vec<Lanes> = from.iter().map(|(e, lane, n)| Lanes::from(&(0..w).map(|i| crate::simarray::made_up(bits_of(*e), lane + n * (cur + i))).collect::<Vec<_>>())).collect();
                ensure!(got.is_some(), "missing-vector", "{}: nothing at {} of {}", self.name, cur, total);
                let got = got.unwrap();
                ensure!(got == want, "wrong-vector", "{}: {} instead of {} at {} of {}", self.name, show(&got), show(&want), cur, total);
                cur += w;
            } else {
                let n = if chance(1, 2) { (shift - cur) / 2 } else { draw((shift - cur) as u64 + 1) as usize };
                attempt(|| onm!(self, i => i.advance(n))).must("advance()")?;
                cur += n;
            }
            let pos = on!(self, i => i.pos());
            ensure!(pos == cur, "position", "{}: got from {} to {} instead of {}", self.name, before, pos, cur);
        }
        attempt(|| onm!(self, i => i.advance(shift - cur))).must("advance()")?;
        let pos = on!(self, i => i.pos());
        ensure!(pos == shift, "position", "{}: got from {} to {} instead of {}", self.name, cur, pos, shift);
        self.shift = shift;
        ok()
    }

    /// Send one vector of the model through the closures; stops after the closure that fails.
    pub fn chain(&self, comps: &[Lanes], n: usize, term: Option<usize>, fails: Option<usize>) -> Option<(Vec<Lanes>, usize)> {
        let mut cur: Vec<Lanes> = comps.to_vec();
        let mut n = n;
        for &id in self.maps.iter().chain(term.iter()) {
            let c = &mut clos()[id];
            let k = c.expect.len() as u64;
            c.expect.push(flat(&cur));
            if fails == Some(id) {
                return None;
            }
            n = map_empty(n, c.isz, c.osz);
            cur = vec![apply(c.salt, k, c.isz, c.osz, &cur)];
        }
        Some((cur, n))
    }
    pub fn chain1(&self, v: &Vecs, term: Option<usize>) -> (Vec<Lanes>, usize) { self.chain(&v.0, v.1, term, None).unwrap() }

    /// Every closure was called with exactly what it should have been called with.
    pub fn check_calls(&self, term: Option<usize>, what: &str) -> R {
        for &id in self.maps.iter().chain(term.iter()) {
            let c = &mut clos()[id];
            ensure!(c.calls.len() == c.expect.len(), "closure-calls", "{} {}: closure {} was called {} times instead of {}", self.name, what, id, c.calls.len(), c.expect.len());
            let seen = c.seen;
            c.seen = c.calls.len();
            for (k, (a, b)) in c.calls.iter().zip(c.expect.iter()).enumerate().skip(seen) {
                ensure!(a == b, "closure-input", "{} {}: call {} of closure {} got {:x?} instead of {:x?}", self.name, what, k, id, a, b);
            }
        }
        Ok(())
    }
    /// Take over whatever the closures saw (after misuse).
    fn adopt_calls(&self, term: Option<usize>) {
        for &id in self.maps.iter().chain(term.iter()) {
            let c = &mut clos()[id];
            c.expect = c.calls.clone();
        }
    }

    /// After a stream failed in the middle of a vector: the items it had handed out are gone.
    fn sync_source(&mut self) -> R {
        if let Some(id) = self.adapter {
            let p = self.pos();
            ensure!(p == self.m.pos, "position", "{}: a failed pull moved the position from {} to {}", self.name, self.m.pos, p);
            let due = self.base + self.per() * p;
            let t = taken(id) - self.lost;
            ensure!(t >= due && t - due < self.per() * self.m.w, "taken", "{}: {} items were taken from the stream, {} were delivered, skipped or lost", self.name, t, due);
            // the first of two vectors is kept
            let kept = if t - due >= self.m.w { self.m.w } else { 0 };
            let new = t - due - kept;
            self.stream.drain(due + kept..due + kept + new);
            self.lost += new;
            note!("  the stream lost {} items with its failure", new);
            self.rebuild();
            let l = self.slen();
            ensure!(l == self.m.len(), "length", "{}: a failed stream which lost {} items reports a length of {} instead of {}", self.name, new, l, self.m.len());
        }
        Ok(())
    }
    fn per(&self) -> usize { if self.pairs { 2 } else { 1 } }
    fn rebuild(&mut self) {
        if self.adapter.is_some() {
            let k = self.per();
            let n = (self.stream.len() - self.base) / k;
            for c in 0..k {
                self.m.items[c] = (0..n).map(|i| self.stream[self.base + i * k + c]).collect();
            }
        }
    }

    pub fn single(&mut self, end: bool) -> R<Option<usize>> {
        let what = if end { "end()" } else { "next()" };
        let before = self.m.pos;
        let exp = if end { self.m.end() } else { self.m.next() };
        let r = attempt(|| match (&mut self.it, end) {
            (It::P(i), false) => i.next().map(|l| (vec![l], 0)),
            (It::P(i), true) => i.end().map(|(l, n)| (vec![l], n)),
            (It::Z(i), false) => i.next().map(|l| (l, 0)),
            (It::Z(i), true) => i.end(),
            _ => unreachable!(),
        });
        match r {
            Out::Ok(got) => {
                if let Some(v) = &got { for l in &v.0 { ev("out", l.s()) } }
                let want = exp.map(|v| self.chain1(&v, None));
                note!("  {}.{} = {:x?}", self.name, what, got);
                match (&got, &want) {
                    (None, None) => {}
                    (None, Some(w)) => ensure!(false, "missing-vector", "{} {}: nothing instead of {}", self.name, what, show(&w.0)),
                    (Some(g), None) => ensure!(false, "extra-vector", "{} {}: {} when nothing was left for it", self.name, what, show(&g.0)),
                    (Some(g), Some(w)) => {
                        ensure!(g.0 == w.0, "wrong-vector", "{} {}: {} instead of {}", self.name, what, show(&g.0), show(&w.0));
                        ensure!(g.1 == w.1, "wrong-unfilled", "{} {}: {} unfilled lanes reported instead of {}", self.name, what, g.1, w.1);
                    }
                }
                if let Some(v) = &got {
                    count(C::vectors);
                    self.after_fault = false;
                    if end {
                        count(if v.1 == 0 { if self.m.rem() > 0 { C::probe_early_end } else { C::probe_tail_exact } }
                              else if self.m.len() < self.m.w { C::probe_tail_short } else { C::probe_tail_merged });
                    }
                } else { count(C::probe_empty) }
                self.check_calls(None, what)?;
                return Ok(got.map(|g| g.1));
            }
            Out::Fault => {
                note!("  {}.{} failed: {:?}", self.name, what, ctx().last_fault);
                match ctx().last_fault {
                    Some(F::Closure) => {
                        ensure!(exp.is_some(), "extra-vector", "{} {}: a closure ran although nothing was left", self.name, what);
                        let v = exp.unwrap();
                        self.chain(&v.0, v.1, None, Some(ctx().last_id));
                        count(C::probe_resume_after_closure_fault);
                    }
                    Some(F::Source) => { self.m.pos = before; self.sync_source()? }
                    _ => { self.m.pos = before; count(C::probe_retry_after_fault) }
                }
                self.after_fault = true;
                self.check_calls(None, what)?;
            }
            Out::Panic => ensure!(false, "unexpected-panic", "{} {}: {}", self.name, what, panic_msg()),
        }
        Ok(None)
    }

    /// Run an operation which consumes everything that is left. `term` is its closure.
    pub fn bulk<T>(&mut self, what: &str, term: Option<usize>, only_full: bool, f: impl FnOnce(&mut It) -> T) -> R<(Bulk, Option<T>)> {
        let mut rest = self.m.rest();
        if only_full { if rest.last().map_or(false, |v| v.1 > 0) { rest.pop(); } }
        let from = self.m.pos;
        let r = attempt(|| f(&mut self.it));
        let mut b = Bulk { done: false, outs: vec![], used: 0, rest, from };
        match r {
            Out::Ok(x) => {
                note!("  {}.{}: {} vectors", self.name, what, b.rest.len());
                b.done = true;
                b.used = b.rest.len();
                for v in &b.rest {
                    let (o, n) = self.chain1(v, term);
                    b.outs.push((o[0], n));
                    count(C::vectors);
                }
                self.m.pos = self.m.pos_after(b.used);
                if b.used > 0 { self.after_fault = false }
                self.check_calls(term, what)?;
                Ok((b, Some(x)))
            }
            Out::Fault => {
                note!("  {}.{} failed: {:?}", self.name, what, ctx().last_fault);
                self.after_fault = true;
                let closure = match ctx().last_fault { Some(F::Closure) => Some(ctx().last_id), _ => None };
                let store = ctx().last_fault == Some(F::Store);
                b.used = if closure.is_some() || store {
                    let c = &clos()[closure.or(term).expect("a closure")];
                    c.calls.len() - c.expect.len()
                } else {
                    let p = self.pos();
                    let mut n = 0;
                    while n < b.rest.len() && self.m.pos_after(n) < p { n += 1 }
                    ensure!(self.m.pos_after(n) == p, "position", "{} {}: failed at position {}, which is not between vectors (from {})", self.name, what, p, from);
                    n
                };
                ensure!(b.used <= b.rest.len(), "closure-calls", "{} {}: {} closure calls for {} vectors", self.name, what, b.used, b.rest.len());
                for (i, v) in b.rest.iter().take(b.used).enumerate() {
                    let fails = if i + 1 == b.used { closure } else { None };
                    if let Some((o, n)) = self.chain(&v.0, v.1, term, fails) { b.outs.push((o[0], n)) }
                }
                self.m.pos = self.m.pos_after(b.used);
                if ctx().last_fault == Some(F::Source) { self.sync_source()? }
                if b.used > 0 { count(C::probe_resume_after_closure_fault) }
                self.check_calls(term, what)?;
                Ok((b, None))
            }
            Out::Panic => {
                vio("unexpected-panic", format_args!("{} {}: {}", self.name, what, panic_msg()));
                Err(Stop)
            }
        }
    }

    pub fn collect(&mut self, all: bool) -> R {
        let what = if all { "scalar_collect_all()" } else { "scalar_collect()" };
        if self.m.rem() == 0 { count(C::probe_recollect) }
        let (b, r) = self.bulk(what, None, false, |i| match i { It::P(i) => i.collect(all), _ => unreachable!() })?;
        if let Some(got) = r {
            let want = flatten(&b.outs, all);
            ev("collected", &got);
            self.same(what, &got, &want)?;
        }
        Ok(())
    }
    pub fn same(&self, what: &str, got: &[u64], want: &[u64]) -> R {
        ensure!(got.len() == want.len(), "wrong-count", "{} {}: {} elements instead of {}: {:x?} instead of {:x?}", self.name, what, got.len(), want.len(), got, want);
        for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
            ensure!(g == w, "wrong-element", "{} {}: element {} is {:x} instead of {:x}: {:x?} instead of {:x?}", self.name, what, i, g, w, got, want);
        }
        Ok(())
    }

    /// Fill a buffer of exactly enough room, more, or less.
    pub fn fill(&mut self, all: bool, dest: &Region, delem: usize, shadow: &mut Vec<u64>) -> R {
        let what = if all { "scalar_fill_all()" } else { "scalar_fill()" };
        let room = shadow.len();
        let exp: usize = {
            // outputs, without running the closures
            let mut t = 0;
            for v in self.m.rest() {
                let (mut n, mut w) = (v.1, self.m.w);
                for &id in &self.maps {
                    let c = &clos()[id];
                    n = map_empty(n, c.isz, c.osz);
                    w = w * c.isz as usize / c.osz as usize;
                }
                t += w - if all { 0 } else { n };
            }
            t
        };
        if exp > room {
            // must be refused
            count(C::probe_short_dest);
            fired(C::fault_misuse);
            let r = attempt(|| match &mut self.it { It::P(i) => i.fill(dest, all), _ => unreachable!() });
            note!("  {}.{} into {} of {} elements: refused {}", self.name, what, room, exp, !r.is_ok());
            match r {
                Out::Ok(_) => ensure!(false, "accepted-short-buffer", "{} {}: {} elements put into room for {}", self.name, what, exp, room),
                Out::Panic => count(C::probe_refused),
                Out::Fault => {}
            }
            if let Some(o) = dest.spilled() {
                ensure!(false, "spill", "{} {}: wrote byte {} of a buffer of {}", self.name, what, o, dest.bytes);
            }
            for i in 0..room { shadow[i] = get(delem, dest, i) }
            self.adopt_calls(None);
            self.wild = true;
            return Ok(());
        }
        let (b, r) = self.bulk(what, None, false, |i| match i { It::P(i) => i.fill(dest, all), _ => unreachable!() })?;
        if let Some(same) = r {
            ensure!(same, "wrong-buffer", "{} {}: returned another buffer than it was given", self.name, what);
        }
        let out = flatten(&b.outs, all);
        shadow[..out.len()].copy_from_slice(&out);
        self.same_buffer(what, dest, delem, shadow, out.len())
    }
    pub fn same_buffer(&self, what: &str, r: &Region, elem: usize, shadow: &[u64], filled: usize) -> R {
        for (i, w) in shadow.iter().enumerate() {
            let g = get(elem, r, i);
            if i < filled {
                ensure!(g == *w, "wrong-element", "{} {}: element {} of the buffer is {:x} instead of {:x}", self.name, what, i, g, w);
            } else {
                ensure!(g == *w, "touched-rest", "{} {}: element {} was changed from {:x} to {:x}, behind the {} results", self.name, what, i, w, g, filled);
            }
        }
        if let Some(o) = r.spilled() {
            ensure!(false, "spill", "{} {}: wrote byte {} relative to a buffer of {}", self.name, what, o, r.bytes);
        }
        Ok(())
    }

    pub fn do_each(&mut self) -> R {
        let t = new_clo(self.bits, self.bits);
        self.bulk("simd_do_each()", Some(t), false, |i| match i { It::P(i) => i.do_each(t), It::Z(i) => i.do_each(t), _ => unreachable!() })?;
        self.tokens("simd_do_each()")
    }
    pub fn reduce(&mut self) -> R {
        let t = new_clo(self.bits, self.bits);
        let (b, r) = self.bulk("simd_reduce()", Some(t), false, |i| { let a = Acc::new(); match i { It::P(i) => i.reduce(t, a), It::Z(i) => i.reduce(t, a), _ => unreachable!() } })?;
        if let Some(acc) = r {
            let mut want = Acc::new();
            for (o, _) in &b.outs { want.add(o) }
            ev("sum", &[acc.sum]);
            ensure!(acc.sum == want.sum, "wrong-sum", "{} simd_reduce(): the accumulator did not see every vector in order", self.name);
        }
        ensure!(live_accs() == 0, "accumulator", "{} simd_reduce(): {} accumulators were not dropped", self.name, live_accs());
        self.tokens("simd_reduce()")
    }
    /// The operation's own closure is gone; the maps' are still there.
    fn tokens(&self, what: &str) -> R {
        let live = crate::closures::live_toks();
        let maps = unsafe { MAPS };
        ensure!(live == maps, "captured-state", "{} {}: {} closures are alive, {} should be", self.name, what, live, maps);
        Ok(())
    }

    pub fn for_each(&mut self, shadow: &mut Vec<u64>) -> R {
        let t = new_clo(self.bits, self.bits);
        let (b, r) = self.bulk("simd_for_each()", Some(t), false, |i| match i { It::P(i) => i.for_each(t), _ => unreachable!() })?;
        let reg = self.region.unwrap();
        let mut at = b.from;
        let w = self.m.w;
        for k in 0..b.used {
            let n = b.rest[k].1;
            let amt = w - n;
            let last = k + 1 == b.used && r.is_none();
            let free = last && (ctx().last_fault == Some(F::Store) || (ctx().last_fault == Some(F::Load) && n > 0));
            for i in 0..amt {
                let g = get(self.elem, &reg, at + i);
                let old = shadow[at + i];
                let new = b.outs.get(k).map(|o| o.0.v[n + i]);
                let fine = if free { Some(g) == new || g == old } else { g == new.unwrap_or(old) };
                ensure!(fine, "wrong-element", "{} simd_for_each(): element {} is {:x}, it was {:x} and its result is {:x?}", self.name, at + i, g, old, new);
                shadow[at + i] = g;
            }
            at += amt;
        }
        self.same_buffer("simd_for_each()", &reg, self.elem, shadow, 0)?;
        self.tokens("simd_for_each()")
    }

    pub fn std(&mut self, which: Std, k: usize) -> R {
        let w = self.m.w;
        let full = self.m.rem() / w;
        // (vectors consumed, indices of the ones returned)
        let upto = |n: usize| (0..n.min(full)).collect::<Vec<_>>();
        let (used, give): (usize, Vec<usize>) = match which {
            Std::Take | Std::Enumerate => (k.min(full), upto(k)),
            Std::Nth | Std::Skip | Std::Find => ((k + 1).min(full), if k < full { vec![k] } else { vec![] }),
            Std::StepBy => if full == 0 { (0, vec![]) } else if k + 1 < full { (k + 2, vec![0, k + 1]) } else { (full, vec![0]) },
            Std::Fold => (full, upto(full)),
            Std::Last => (full, if full > 0 { vec![full - 1] } else { vec![] }),
            Std::Count => (full, vec![]),
            Std::Peek => (2.min(full).min(1), if full > 0 { vec![0, 0] } else { vec![] }),
        };
        if which == Std::Nth || which == Std::Skip { count(C::probe_nth) }
        let what = format!("{:?}({})", which, k);
        let lim = used;
        let before = self.m.clone();
        // only what the adaptor will pull
        let mut cut = self.m.clone();
        let stop = (self.m.pos + lim * w).min(self.m.len()).max(self.m.pos);
        for c in cut.items.iter_mut() { c.truncate(stop.max(cut.pos.min(c.len()))) }
        std::mem::swap(&mut self.m, &mut cut);
        let r = self.bulk(&what, None, true, |i| match i {
            It::P(i) => i.std(which, k).into_iter().map(|l| vec![l]).collect::<Vec<_>>(),
            It::Z(i) => i.std(which, k),
            _ => unreachable!(),
        });
        let at = self.m.pos;
        self.m = before;
        self.m.pos = at;
        self.rebuild();
        let (b, got) = r?;
        if let Some(got) = got {
            if which == Std::Count {
                let n = unsafe { LAST_COUNT };
                ensure!(n == full, "wrong-count", "{} count(): {} vectors instead of {}", self.name, n, full);
            }
            ensure!(got.len() == give.len(), "wrong-count", "{} {}: {} vectors instead of {}", self.name, what, got.len(), give.len());
            for (g, ix) in got.iter().zip(give.iter()) {
                let want = if self.maps.is_empty() { b.rest[*ix].0.clone() } else { vec![b.outs[*ix].0] };
                ensure!(*g == want, "wrong-vector", "{} {}: {} instead of {}", self.name, what, show(g), show(&want));
                for l in g { ev("out", l.s()) }
            }
        }
        Ok(())
    }

    pub fn unroll(&mut self, amt: usize, k: usize) -> R {
        let w = self.m.w;
        let full = self.m.rem() / w;
        let used = if amt == 0 { 0 } else { full.min(amt * k) };
        let what = format!("unroll({}) x {}", amt, k);
        let before = self.m.clone();
        let mut cut = self.m.clone();
        let stop = (self.m.pos + used * w).min(self.m.len()).max(self.m.pos);
        for c in cut.items.iter_mut() { c.truncate(stop.max(cut.pos.min(c.len()))) }
        std::mem::swap(&mut self.m, &mut cut);
        let r = self.bulk(&what, None, true, |i| match i { It::P(i) => i.unroll(amt, k), _ => unreachable!() });
        let at = self.m.pos;
        self.m = before;
        self.m.pos = at;
        self.rebuild();
        let (b, got) = r?;
        if let Some(got) = got {
            let mut ix = 0;
            for (c, g) in got.iter().enumerate() {
                let n = amt.min(used - ix);
                match g {
                    None => ensure!(n == 0, "missing-chunk", "{} {}: chunk {} is missing, {} vectors are left", self.name, what, c, used - ix),
                    Some(g) => {
                        ensure!(g.len() > 0, "empty-chunk", "{} {}: chunk {} is empty", self.name, what, c);
                        ensure!(g.len() == n, "wrong-chunk-size", "{} {}: chunk {} has {} vectors instead of {}", self.name, what, c, g.len(), n);
                        for (i, l) in g.iter().enumerate() {
                            let want = if self.maps.is_empty() { b.rest[ix + i].0[0] } else { b.outs[ix + i].0 };
                            ensure!(*l == want, "wrong-chunk", "{} {}: vector {} of chunk {} is {:x?} instead of {:x?}", self.name, what, i, c, l, want);
                            ev("out", l.s());
                        }
                        ix += n;
                    }
                }
            }
        }
        Ok(())
    }

    pub fn advance(&mut self, n: usize) -> R {
        let before = self.m.pos;
        let past = n > self.m.rem();
        if past { fired(C::fault_misuse); count(C::probe_skip_past_end) }
        count(C::probe_skip);
        let r = attempt(|| onm!(self, i => i.advance(n)));
        note!("  {}.advance({}) at {} of {}", self.name, n, before, self.m.len());
        match r {
            Out::Ok(()) => self.m.skip(n),
            Out::Fault => {
                let p = self.pos();
                ensure!(p >= before && p - before <= n, "position", "{} advance({}): moved from {} to {}", self.name, n, before, p);
                self.m.pos = p;
                // half a pair may have been skipped
                if self.pairs { self.wild = true }
                return Ok(());
            }
            Out::Panic => ensure!(false, "unexpected-panic", "{} advance({}): {}", self.name, n, panic_msg()),
        }
        if self.m.pos > self.m.len() {
            // how far behind the end is the library's business
            let p = self.pos();
            ensure!(p >= self.m.len(), "position", "{} advance({}): at {} of {} after skipping everything", self.name, n, p, self.m.len());
            self.m.pos = p;
        }
        if self.m.pos % self.m.w != 0 { count(C::probe_unaligned_pos) }
        self.check_calls(None, "advance()")
    }
    pub fn finalize(&mut self) -> R {
        count(C::probe_finalize);
        let r = attempt(|| onm!(self, i => i.finalize()));
        note!("  {}.finalize()", self.name);
        if let Out::Fault = r {
            let p = self.pos();
            ensure!(p >= self.m.pos && p <= self.m.len(), "position", "{} finalize(): moved from {} to {}", self.name, self.m.pos, p);
            self.m.pos = p;
            if self.pairs { self.wild = true }
            return Ok(());
        }
        r.must(&format!("{} finalize()", self.name))?;
        self.m.pos = self.m.pos.max(self.m.len());
        self.check_calls(None, "finalize()")
    }
    /// pull single elements, then go back to vectors
    pub fn scalars(&mut self, k: usize) -> R {
        let before = self.m.pos;
        let retry = draw(2) == 1;
        let r = match &mut self.it { It::P(i) => i.scalars(k, retry), _ => unreachable!() };
        count(C::probe_unpack_pack);
        let s = match r { None => return Ok(()), Some(s) => s };
        ensure!(!s.refused, "unexpected-panic", "{} unpack(): {}", self.name, panic_msg());
        ev("scalars", &s.got);
        note!("  {}.unpack() x {} = {:x?}{}", self.name, k, s.got, if s.failed > 0 { ", failed in between" } else { "" });
        let mut n = k.min(self.m.rem());
        if s.failed > 0 {
            count(C::probe_retry_after_fault);
            self.after_fault = true;
            // packed again at once, or asked again
            if !retry { n = n.min(s.got.len()) }
        }
        let want: Vec<u64> = self.m.items[0].iter().skip(before).take(n).cloned().collect();
        self.m.pos += n;
        self.same("unpack()", &s.got, &want)
    }
    pub fn gone(&self) -> bool { match self.it { It::Gone => true, _ => false } }
    pub fn try_clone(&self) -> R<Option<Subj>> {
        if !self.plain { return Ok(None) }
        let r = match &self.it {
            It::P(i) => attempt(|| i.try_clone()).must("clone()")?,
            _ => None,
        };
        Ok(r.map(|i| {
            count(C::probe_clone);
            let mut s = Subj::new(It::P(i), self.m.clone(), self.elem, self.kind, self.region);
            s.wild = self.wild;
            s.shift = self.shift;
            if self.adapter.is_some() {
                s.adapter = Some(last_src());
                s.lost = self.lost;
                s.stream = self.stream.clone();
                s.base = self.base;
            }
            s
        }))
    }
    /// abandon the iterator, and resume with a new one at the position it reported
    pub fn resume(&mut self) -> R {
        let p = on!(self, i => i.pos());
        let ok = attempt(|| match &mut self.it { It::P(i) => i.resume(p), _ => false }).must("resume")?;
        if ok { fired(C::fault_abandon_resume); note!("  {} resumed at {}", self.name, p) }
        Ok(())
    }
    pub fn set_pos(&mut self, p: usize) -> bool {
        let p = p.saturating_add(self.shift);
        let ok = match &mut self.it { It::P(i) => i.set_pos(p), _ => false };
        let p = p - self.shift;
        if ok { self.m.pos = p; note!("  {}.position = {}", self.name, p) }
        ok
    }
    pub fn map(&mut self, recast: bool) -> R {
        let it = std::mem::replace(&mut self.it, It::Gone);
        let live = live();
        let (obits, clo, p) = match it {
            It::P(i) => {
                let ob = if recast { i.recast_bits() } else { self.bits };
                let clo = new_clo(self.bits, ob);
                let p = attempt(|| if recast { i.map_recast(clo) } else { i.map(clo) }).must("simd_map()")?;
                (ob, clo, p)
            }
            It::Z(i) => {
                let clo = new_clo(self.bits, self.bits);
                (self.bits, clo, attempt(|| i.map(clo)).must("simd_map()")?)
            }
            It::Gone => unreachable!(),
        };
        if recast { count(C::probe_width_changing_map) }
        if !self.maps.is_empty() { count(C::probe_nested_map) }
        unsafe { MAPS += 1 };
        self.it = It::P(p);
        self.maps.push(clo);
        self.bits = obits;
        self.plain = false;
        note!("  {}.simd_map(closure {}) {} -> {} bits", self.name, clo, clos()[clo].isz, obits);
        let _ = live;
        self.check_calls(None, "simd_map()")
    }
    pub fn out_elem(&self) -> usize {
        // any element type of the right size will do to look at a buffer
        match self.bits { 8 => 1, 16 => 3, 32 => 0, _ => 7 }
    }
    /// the element type results are stored as
    pub fn out_width(&self) -> usize {
        let mut w = self.m.w;
        for &id in &self.maps {
            let c = &clos()[id];
            w = w * c.isz as usize / c.osz as usize;
        }
        w
    }

    /// A stream is not read ahead of what was delivered.
    pub fn check_taken(&self) -> R {
        if let Some(id) = self.adapter {
            let t = taken(id);
            let due = self.base + self.per() * self.m.pos + self.lost;
            // a failed pull may have put one vector of a pair away; an odd element goes with the last pair
            let slack = if !self.pairs { 0 } else if self.after_fault { self.m.w } else { 1 };
            ensure!(t >= due && t <= due + slack, "taken", "{}: {} items were taken from the stream, {} were delivered, skipped or lost", self.name, t, due);
        }
        Ok(())
    }

    /// What the iterator says about itself is true.
    pub fn counts(&self) -> R {
        let m = &self.m;
        let (vpos, vlen, len, hint) = on!(self, i => (i.vpos(), i.vlen(), i.len(), i.size_hint()));
        let (pos, slen) = (self.pos(), self.slen());
        ev("counts", &[pos as u64, slen as u64, len as u64]);
        ensure!(pos == m.pos, "position", "{}: reports position {} instead of {}", self.name, pos, m.pos);
        ensure!(slen == m.len(), "length", "{}: reports length {} instead of {}", self.name, slen, m.len());
        let at = m.pos.saturating_add(self.shift) / m.w;
        ensure!(vpos == at, "vector-position", "{}: reports vector position {} instead of {}", self.name, vpos, at);
        // zipped iterators derive it from the length in scalars as well
        let all = (m.len() + self.shift) / m.w;
        ensure!(vlen == all, "vector-length", "{}: reports {} vectors in all instead of {}", self.name, vlen, all);
        ensure!(len == m.rem() / m.w, "promised", "{}: promises {} full vectors instead of {}", self.name, len, m.rem() / m.w);
        ensure!(hint.0 <= len && hint.1.map_or(true, |h| h >= len), "size-hint", "{}: size_hint() {:?} rules out the {} vectors left", self.name, hint, len);
        Ok(())
    }
}

pub static mut MAPS: i64 = 0;
fn live() -> i64 { crate::closures::live_toks() }

impl Drop for Subj {
    fn drop(&mut self) {
        if !self.maps.is_empty() { unsafe { MAPS -= self.maps.len() as i64 } }
        self.it = It::Gone;
    }
}
