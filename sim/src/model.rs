//! The reference model of an iterator: one list per component, a shared cursor, default lanes.
use crate::elem::*;

#[derive(Clone, Debug)]
pub struct Model {
    /// per component: everything there is to deliver, and the default lanes
    pub items: Vec<Vec<u64>>,
    pub def: Vec<Vec<u64>>,
    pub w: usize,
    pub pos: usize,
}
pub type Vecs = (Vec<Lanes>, usize);

impl Model {
    pub fn new(items: Vec<Vec<u64>>, def: Vec<Vec<u64>>, w: usize) -> Model { Model { items, def, w, pos: 0 } }
    pub fn len(&self) -> usize { self.items[0].len() }
    pub fn rem(&self) -> usize { self.len().saturating_sub(self.pos) }
    pub fn next(&mut self) -> Option<Vecs> {
        if self.rem() < self.w {
            return None;
        }
        let r = self.items.iter().map(|c| Lanes::from(&c[self.pos..self.pos + self.w])).collect();
        self.pos += self.w;
        Some((r, 0))
    }
    pub fn end(&mut self) -> Option<Vecs> {
        if self.rem() == 0 {
            return None;
        }
        if let Some(l) = self.next() {
            return Some(l);
        }
        let n = self.w - self.rem();
        let mut r = vec![];
        for (c, d) in self.items.iter().zip(self.def.iter()) {
            let mut l = Lanes::empty(self.w);
            l.v[..n].copy_from_slice(&d[..n]);
            l.v[n..self.w].copy_from_slice(&c[self.pos..]);
            r.push(l);
        }
        self.pos = self.len();
        Some((r, n))
    }
    /// Everything still to come, as the library would hand it to a closure.
    pub fn rest(&self) -> Vec<Vecs> {
        let mut m = self.clone();
        let mut r = vec![];
        while let Some(l) = m.next() {
            r.push(l);
        }
        if let Some(x) = m.end() {
            r.push(x);
        }
        r
    }
    /// The cursor after `n` of `rest()`.
    pub fn pos_after(&self, n: usize) -> usize {
        if n == 0 { self.pos } else { (self.pos + n * self.w).min(self.len()) }
    }
    pub fn skip(&mut self, n: usize) {
        self.pos = self.pos.saturating_add(n);
    }
}

/// What a closure which changes lane sizes does to the count of unfilled lanes.
pub fn map_empty(n: usize, isz: u32, osz: u32) -> usize {
    n * isz as usize / osz as usize
}

/// Collected output of `outs` = (lanes, unfilled lanes).
pub fn flatten(outs: &[(Lanes, usize)], all: bool) -> Vec<u64> {
    let mut r = vec![];
    for (l, n) in outs {
        r.extend_from_slice(&l.s()[if all { 0 } else { *n }..]);
    }
    r
}
