//! Makes iterators of every kind the library offers.
use crate::alloc::{monitored, quiet};
use crate::closures::{self, Tok};
use crate::ctx::*;
use crate::elem::*;
use crate::mem::Region;
use crate::pull::*;
use crate::simarray::SimArray;
use faster::prelude::*;
use faster::vecs::{Packable, Packed};
use std::marker::PhantomData;

macro_rules! array_extras {
    () => {
        fn x_scalars(self, k: usize, retry: bool) -> (Self, Option<Scalars>) {
            let mut r = Scalars { got: Vec::with_capacity(k + 1), failed: 0, refused: false };
            let mut u = monitored(|| self.unpack());
            while r.got.len() < k {
                match attempt(|| monitored(|| u.next())) {
                    Out::Ok(Some(x)) => r.got.push(x.bits64()),
                    Out::Ok(None) => break,
                    Out::Fault => { r.failed += 1; if !retry || r.failed > 2 { break } }
                    Out::Panic => { r.refused = true; break }
                }
            }
            (monitored(|| u.pack()), Some(r))
        }
        fn x_load(&self, off: usize, c: bool) -> Option<Lanes> {
            Some(lanes_of(monitored(|| if c { self.load(off) } else { unsafe { self.load_unchecked(off) } })))
        }
        fn x_load_scalar(&self, off: usize, c: bool) -> Option<u64> {
            Some(monitored(|| if c { self.load_scalar(off) } else { unsafe { self.load_scalar_unchecked(off) } }).bits64())
        }
    }
}
macro_rules! iter_extras {
    () => {
        fn x_resume(self, pos: usize) -> (Self, bool) {
            (SIMDIter { position: pos, data: self.data, default: self.default }, true)
        }
        fn x_set_pos(&mut self, pos: usize) -> bool { self.position = pos; true }
    }
}
macro_rules! mut_extras {
    () => {
        fn x_for_each(&mut self, clo: usize) {
            let tok = Tok::new();
            monitored(|| self.simd_for_each(move |v| {
                tok.touch();
                *v = closures::call_v::<V, V>(clo, *v)
            }))
        }
    }
}

impl<S, V> Extra for SIMDIter<&'static [S]> where S: Recast + Packable<Vector = V>, V: Packed<Scalar = S> {
    fn x_map(self, clo: usize) -> Result<Box<dyn Pull>, Self> {
        let tok = Tok::new();
        let m = monitored(|| self.simd_map(move |v: V| { tok.touch(); closures::call_v::<V, V>(clo, v) }));
        Ok(S::m(m))
    }
    array_extras!(); iter_extras!();
    fn x_clone(&self) -> Option<Self> { Some(self.clone()) }
}
impl<S, V> Extra for SIMDIter<&'static mut [S]> where S: Recast + Packable<Vector = V>, V: Packed<Scalar = S> {
    array_extras!(); iter_extras!(); mut_extras!();
}
impl<S, V> Extra for SIMDIter<Vec<S>> where S: Recast + Packable<Vector = V>, V: Packed<Scalar = S> {
    array_extras!(); iter_extras!();
    fn x_clone(&self) -> Option<Self> { Some(self.clone()) }
}
impl<S, V> Extra for SIMDIter<SimArray<S>> where S: Recast + Packable<Vector = V>, V: Packed<Scalar = S> {
    fn x_map(self, clo: usize) -> Result<Box<dyn Pull>, Self> {
        let tok = Tok::new();
        let m = monitored(|| self.simd_map(move |v: V| { tok.touch(); closures::call_v::<V, V>(clo, v) }));
        Ok(S::m(m))
    }
    array_extras!(); iter_extras!(); mut_extras!();
    fn x_clone(&self) -> Option<Self> { Some(self.clone()) }
}
impl<S, V> Extra for SIMDIter<PackedStride<'static, SimArray<S>>> where S: Recast + Packable<Vector = V>, V: Packed<Scalar = S> {
    array_extras!(); iter_extras!();
    fn x_clone(&self) -> Option<Self> { Some(self.clone()) }
}
impl<A> Extra for PackedStride<'static, A> where A: SIMDArray<Vector = <<A as SIMDObject>::Scalar as Packable>::Vector> + Clone + 'static, A::Scalar: Recast {
    array_extras!();
    fn x_clone(&self) -> Option<Self> { Some(self.clone()) }
}
impl<S> Extra for SIMDAdapter<Src<S>, <S as Packable>::Vector> where S: Recast {
    fn x_clone(&self) -> Option<Self> { Some(self.clone()) }
}

/// A scalar stream made by the user: it may fail, and its length may be a lie.
pub struct Src<S> {
    pub items: Vec<u64>,
    pub at: usize,
    pub id: usize,
    /// how many items it hands out before it reports its end (normally all)
    pub ends_at: usize,
    /// what len() reports on top of the truth: a fixed lie, or a new one each time
    pub lie: isize,
    pub wavering: bool,
    pub _p: PhantomData<S>,
}
pub const SRCS: usize = 512;
pub static mut TAKEN: [usize; SRCS] = [0; SRCS];
static mut NEXT_SRC: usize = 0;
pub fn begin_run() { unsafe { NEXT_SRC = 0 } }
pub fn new_src() -> usize { unsafe { NEXT_SRC += 1; NEXT_SRC - 1 } }
pub fn last_src() -> usize { unsafe { NEXT_SRC - 1 } }
pub fn more_srcs() -> bool { unsafe { NEXT_SRC < SRCS - 64 } }
pub fn taken(id: usize) -> usize { unsafe { TAKEN[id] } }

/// A copy of a stream is a stream of its own.
impl<S> Clone for Src<S> {
    fn clone(&self) -> Self {
        quiet(|| {
            let id = new_src();
            unsafe { TAKEN[id] = TAKEN[self.id] };
            Src { items: self.items.clone(), at: self.at, id, ends_at: self.ends_at, lie: self.lie, wavering: self.wavering, _p: PhantomData }
        })
    }
}

impl<S: Elem> Iterator for Src<S> {
    type Item = S;
    fn next(&mut self) -> Option<S> {
        quiet(|| {
            ev("source", &[self.id as u64, self.at as u64]);
            crate::history::user_code("source");
            if hit(F::Source) {
                note!("  source fails at item {}", self.at);
                throw(3);
            }
            if self.at >= self.ends_at.min(self.items.len()) {
                return None;
            }
            self.at += 1;
            unsafe { TAKEN[self.id] += 1 };
            Some(S::from_bits64(self.items[self.at - 1]))
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = ExactSizeIterator::len(self);
        (n, Some(n))
    }
}
impl<S: Elem> ExactSizeIterator for Src<S> {
    fn len(&self) -> usize {
        let n = self.items.len() - self.at;
        if self.wavering {
            return quiet(|| { fired(C::fault_misuse); (n as isize + draw(40) as isize - 10).max(0) as usize });
        }
        (n as isize + self.lie).max(0) as usize
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
/// `Nested`: a lane of a lane; `OfLane`: an iterator over a lane.
pub enum Kind { Ref, Mut, Vec, Sim, Lane, SimLane, IterLane, Nested, OfLane, Adapter }

fn boxed<I, S>(i: I) -> Box<dyn Pull>
where I: Extra + SIMDIterator<Scalar = S, Vector = <S as Packable>::Vector> + 'static, S: Recast {
    S::p(i)
}

fn src<S>(items: Vec<u64>, id: usize) -> Src<S> {
    unsafe { TAKEN[id] = 0 };
    let ends_at = items.len();
    Src { items, at: 0, id, ends_at, lie: 0, wavering: false, _p: PhantomData }
}

macro_rules! typed {
    ($name:ident, ($($a:ident : $t:ty),*) -> $r:ty, $S:ident => $e:expr) => {
        pub fn $name(elem: usize, $($a : $t),*) -> $r {
            with_elem!(elem, $S => $e)
        }
    }
}

typed!(width_of, () -> usize, S => width::<S>());
typed!(bits_of, () -> u32, S => <S as Elem>::BITS);
typed!(name_of, () -> &'static str, S => <S as Elem>::NAME);
typed!(region, (len: usize, place: crate::mem::Place, skew: usize, ro: bool) -> Region, S => Region::new::<S>(len, place, skew, ro));
typed!(put, (r: &Region, i: usize, bits: u64) -> (), S => r.put::<S>(i, bits));
typed!(get, (r: &Region, i: usize) -> u64, S => r.get::<S>(i));

// through either of the ways to ask for an iterator: of the slice, or of a reference to it
typed!(make_ref, (r: &Region, def: &Lanes, by_ref: bool) -> Box<dyn Pull>, S => {
    let s: &'static &'static [S] = Box::leak(Box::new(unsafe { r.slice::<S>() }));
    boxed::<_, S>(monitored(|| if by_ref { <&'static [S] as IntoSIMDRefIterator<'static>>::simd_iter(s, vec_of(def)) }
                               else { <[S] as IntoSIMDRefIterator<'static>>::simd_iter(*s, vec_of(def)) }))
});
typed!(make_mut, (r: &Region, def: &Lanes, by_ref: bool) -> Box<dyn Pull>, S => {
    let s: &'static mut [S] = unsafe { r.slice_mut::<S>() };
    if by_ref {
        let s: &'static mut &'static mut [S] = Box::leak(Box::new(s));
        boxed::<_, S>(monitored(move || <&'static mut [S] as IntoSIMDRefMutIterator<'static>>::simd_iter_mut(s, vec_of(def))))
    } else {
        boxed::<_, S>(monitored(move || <[S] as IntoSIMDRefMutIterator<'static>>::simd_iter_mut(s, vec_of(def))))
    }
});
typed!(make_vec, (r: &Region, def: &Lanes) -> Box<dyn Pull>, S => {
    let s = unsafe { r.slice::<S>() };
    boxed::<_, S>(monitored(|| s.to_vec().into_simd_iter(vec_of(def))))
});
typed!(make_sim, (r: &Region, def: &Lanes, id: u64) -> Box<dyn Pull>, S => {
    boxed::<_, S>(SIMDIter { position: 0, data: SimArray::<S>::over(r, id), default: vec_of(def) })
});
typed!(make_adapter, (items: Vec<u64>, def: &Lanes, id: usize) -> Box<dyn Pull>, S => {
    boxed::<_, S>(SIMDAdapter { iter: src::<S>(items, id), scratch: vec_of(def), default: vec_of(def), position: 0 })
});
typed!(make_liar, (items: Vec<u64>, def: &Lanes, id: usize, ends_at: usize, lie: isize, wavering: bool) -> Box<dyn Pull>, S => {
    let mut s = src::<S>(items, id);
    s.ends_at = ends_at;
    s.lie = lie;
    s.wavering = wavering;
    boxed::<_, S>(SIMDAdapter { iter: s, scratch: vec_of(def), default: vec_of(def), position: 0 })
});

/// How lanes are asked for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How { Fixed, Vec, Into }

fn lanes_from<A, S>(a: &'static A, how: How, defs: &[Lanes]) -> Vec<Box<dyn Pull>>
where A: SIMDArray<Scalar = S, Vector = <S as Packable>::Vector> + Clone + 'static, S: Recast {
    lanes_of_array::<A, S>(a, how, defs).into_iter().map(|l| boxed::<_, S>(l)).collect()
}
fn lanes_of_array<A, S>(a: &'static A, how: How, defs: &[Lanes]) -> Vec<PackedStride<'static, A>>
where A: SIMDArray<Scalar = S, Vector = <S as Packable>::Vector> + Clone + 'static, S: Recast {
    let d: Vec<S::Vector> = defs.iter().map(|l| vec_of(l)).collect();
    let mut out: Vec<PackedStride<'static, A>> = Vec::with_capacity(16);
    if how == How::Fixed {
        match d.len() {
            2 => { let (a, b) = monitored(|| a.stride_two((d[0], d[1]))); out.push(a); out.push(b) }
            3 => { let (a, b, c) = monitored(|| a.stride_three((d[0], d[1], d[2]))); out.push(a); out.push(b); out.push(c) }
            4 => {
                let (a, b, c, e) = monitored(|| a.stride_four((d[0], d[1], d[2], d[3])));
                out.push(a); out.push(b); out.push(c); out.push(e)
            }
            9 => {
                let t = monitored(|| a.stride_nine((d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8])));
                out.push(t.0); out.push(t.1); out.push(t.2); out.push(t.3); out.push(t.4); out.push(t.5); out.push(t.6);
                out.push(t.7); out.push(t.8)
            }
            _ => unreachable!(),
        }
    } else if how == How::Vec {
        out = monitored(|| a.stride(d.len(), &d[..]));
    } else {
        let c: Fixed<PackedStride<'static, A>> = monitored(|| a.stride_into(d.len(), &d[..]));
        out.extend(c.0);
    }
    out
}
/// A collection of the user's own.
pub struct Fixed<T>(pub std::collections::VecDeque<T>);
impl<T> std::iter::FromIterator<T> for Fixed<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut v = quiet(|| std::collections::VecDeque::with_capacity(16));
        for x in i { quiet(|| v.push_back(x)) }
        Fixed(v)
    }
}

typed!(make_lanes, (kind: Kind, r: &Region, how: How, defs: &[Lanes], id: u64, outer: (usize, usize)) -> Vec<Box<dyn Pull>>, S => {
    match kind {
        Kind::Lane => lanes_from::<&'static [S], S>(Box::leak(Box::new(unsafe { r.slice::<S>() })), how, defs),
        Kind::SimLane => lanes_from::<SimArray<S>, S>(Box::leak(Box::new(SimArray::<S>::over(r, id))), how, defs),
        Kind::Nested => {
            let a: &'static SimArray<S> = Box::leak(Box::new(SimArray::<S>::over(r, id)));
            let d: <S as Packable>::Vector = vec_of(&defs[0]);
            let l = a.stride(outer.1, &vec![d; outer.1][..]).swap_remove(outer.0);
            lanes_from::<PackedStride<'static, SimArray<S>>, S>(Box::leak(Box::new(l)), how, defs)
        }
        Kind::OfLane => lanes_of_array::<SimArray<S>, S>(Box::leak(Box::new(SimArray::<S>::over(r, id))), how, defs).into_iter().map(|l| {
            let default = SIMDIterable::default(&l);
            boxed::<_, S>(SIMDIter { position: 0, data: l, default })
        }).collect(),
        _ => lanes_from::<SIMDIter<&'static [S]>, S>(Box::leak(Box::new(SIMDIter {
            position: 0, data: unsafe { r.slice::<S>() }, default: vec_of(&defs[0]) })), how, defs),
    }
});
// stride(count, defaults) with a wrong number of defaults: must be refused
typed!(stride_wrong, (r: &Region, count: usize, ndefs: usize, into: bool) -> usize, S => {
    let a: &'static &'static [S] = Box::leak(Box::new(unsafe { r.slice::<S>() }));
    let d = vec![<<S as Packable>::Vector as Packed>::default(); ndefs];
    monitored(|| if into {
        let c: Fixed<PackedStride<'static, &'static [S]>> = a.stride_into(count, &d[..]);
        c.0.len()
    } else { a.stride(count, &d[..]).len() })
});

/// Element types whose vectors can be split into pairs.
pub const NPAIR: usize = 6;
macro_rules! with_pair_elem {
    ($i:expr, $S:ident => $e:expr) => {
        match $i {
            0 => { type $S = u32; $e }
            1 => { type $S = u8; $e }
            2 => { type $S = i8; $e }
            3 => { type $S = u16; $e }
            4 => { type $S = i16; $e }
            _ => { type $S = i32; $e }
        }
    }
}
/// Pairs over any iterator, through a user-written one.
pub fn pairs_dyn(elem: usize, inner: Box<dyn Pull>) -> Box<dyn ZPull> {
    with_pair_elem!(elem, S => pairs_of::<S>(inner))
}
/// Pairs over the library's own iterators, starting at element `start`.
pub fn pairs(elem: usize, kind: Kind, r: &Region, def: &Lanes, start: usize, id: u64) -> Box<dyn ZPull> {
    with_pair_elem!(elem, S => {
        if kind == Kind::Ref {
            let mut i = SIMDIter { position: 0, data: unsafe { r.slice::<S>() }, default: vec_of::<<S as Packable>::Vector>(def) };
            i.advance(start);
            let z = monitored(|| i.stride_zip());
            Box::new(Z::<_, S>(z, PhantomData))
        } else {
            let mut i = SIMDIter { position: 0, data: SimArray::<S>::over(r, id), default: vec_of::<<S as Packable>::Vector>(def) };
            i.advance(start);
            let z = monitored(|| i.stride_zip());
            Box::new(Z::<_, S>(z, PhantomData))
        }
    })
}
// ---- zips --------------------------------------------------------------------------------------

// A component of a zip: a slice, a user's collection, or a lane of either.
#[derive(Clone)]
pub enum Any<S: Recast> {
    Ref(SIMDIter<&'static [S]>),
    Sim(SIMDIter<SimArray<S>>),
    Lane(PackedStride<'static, &'static [S]>),
    SimLane(PackedStride<'static, SimArray<S>>),
}
macro_rules! each { ($s:expr, $i:ident => $e:expr) => { match $s {
    Any::Ref($i) => $e, Any::Sim($i) => $e, Any::Lane($i) => $e, Any::SimLane($i) => $e } } }
impl<S: Recast> SIMDObject for Any<S> { type Scalar = S; type Vector = <S as Packable>::Vector; }
impl<S: Recast> SIMDSized for Any<S> { #[inline(never)] fn scalar_len(&self) -> usize { each!(self, i => i.scalar_len()) } }
impl<S: Recast> Iterator for Any<S> {
    type Item = S::Vector;
    #[inline(never)]
    fn next(&mut self) -> Option<S::Vector> { each!(self, i => i.next()) }
}
impl<S: Recast> ExactSizeIterator for Any<S> { #[inline(never)] fn len(&self) -> usize { each!(self, i => ExactSizeIterator::len(i)) } }
impl<S: Recast> SIMDIterable for Any<S> {
    #[inline(never)]
    fn scalar_pos(&self) -> usize { each!(self, i => i.scalar_pos()) }
    #[inline(never)]
    fn advance(&mut self, n: usize) { each!(self, i => i.advance(n)) }
    #[inline(never)]
    fn default(&self) -> S::Vector { each!(self, i => SIMDIterable::default(i)) }
}
impl<S: Recast> SIMDArray for Any<S> {
    #[inline(never)]
    fn load(&self, o: usize) -> S::Vector { each!(self, i => i.load(o)) }
    #[inline(never)]
    unsafe fn load_unchecked(&self, o: usize) -> S::Vector { each!(self, i => i.load_unchecked(o)) }
    #[inline(never)]
    fn load_scalar(&self, o: usize) -> S { each!(self, i => i.load_scalar(o)) }
    #[inline(never)]
    unsafe fn load_scalar_unchecked(&self, o: usize) -> S { each!(self, i => i.load_scalar_unchecked(o)) }
}

/// What a zip component is made of.
#[derive(Clone)]
pub struct Part {
    pub kind: Kind,
    pub region: Region,
    pub def: Lanes,
    pub id: u64,
    /// lane number and count, when it is a lane
    pub lane: usize,
    pub count: usize,
    /// where it stands before it is zipped
    pub start: usize,
}
#[inline(never)]
fn any<S: Recast>(p: &Part) -> Any<S> {
    let d: S::Vector = vec_of(&p.def);
    let mut a = match p.kind {
        Kind::Ref => Any::Ref(SIMDIter { position: 0, data: unsafe { p.region.slice::<S>() }, default: d }),
        Kind::Sim => Any::Sim(SIMDIter { position: 0, data: SimArray::<S>::over(&p.region, p.id), default: d }),
        Kind::Lane => {
            let s: &'static &'static [S] = Box::leak(Box::new(unsafe { p.region.slice::<S>() }));
            Any::Lane(s.stride(p.count, &vec![d; p.count][..]).swap_remove(p.lane))
        }
        _ => {
            let s: &'static SimArray<S> = Box::leak(Box::new(SimArray::<S>::over(&p.region, p.id)));
            Any::SimLane(s.stride(p.count, &vec![d; p.count][..]).swap_remove(p.lane))
        }
    };
    if p.start > 0 { a.advance(p.start) }
    a
}

macro_rules! tups { ($(($($t:ident $n:tt),*))*) => { $(
    impl<$($t: Packed),*> Tup for ($($t,)*) where $($t::Scalar: Elem),* {
        fn lanes(self) -> Vec<Lanes> { vec![$(lanes_of(self.$n)),*] }
    }
)* } }
tups! {
    (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F_ 5)
    (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6) (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6, H 7, I 8, J 9) (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6, H 7, I 8, J 9, K 10, L 11)
    (A 0, B 1, C 2, D 3, E 4, F_ 5, G 6, H 7, I 8, J 9, K 10, L 11, M_ 12)
}

macro_rules! zip_of { ($p:expr; $A:ty; $($t:ty, $n:expr);*) => {{
    let t = (any::<$A>(&$p[0]), $(any::<$t>(&$p[$n])),*);
    let z = monitored(|| IntoSIMDZip::zip(t));
    Box::new(Z::<_, $A>(z, PhantomData)) as Box<dyn ZPull>
}} }

/// Element types of the components of a zip of class `class` (lane size) and given arity.
pub fn zip_elems(class: usize, arity: usize) -> Vec<usize> {
    let c: &[usize] = match class { 0 => &[0, 5, 6], 1 => &[1, 2], 2 => &[3, 4], _ => &[7, 9, 8] };
    (0..arity).map(|i| c[i % c.len()]).collect()
}
pub const MAX_ARITY: usize = 13;
pub fn make_zip(class: usize, p: &[Part]) -> Box<dyn ZPull> {
    match (class, p.len()) {
        (0, 2) => zip_of!(p; u32; i32, 1),
        (0, 3) => zip_of!(p; u32; i32, 1; f32, 2),
        (0, 4) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3),
        (0, 5) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4),
        (0, 6) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5),
        (0, 7) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6),
        (0, 8) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6; i32, 7),
        (0, 9) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6; i32, 7; f32, 8),
        (0, 10) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6; i32, 7; f32, 8; u32, 9),
        (0, 11) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6; i32, 7; f32, 8; u32, 9; i32, 10),
        (0, 12) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6; i32, 7; f32, 8; u32, 9; i32, 10; f32, 11),
        (0, _) => zip_of!(p; u32; i32, 1; f32, 2; u32, 3; i32, 4; f32, 5; u32, 6; i32, 7; f32, 8; u32, 9; i32, 10; f32, 11; u32, 12),
        (1, 2) => zip_of!(p; u8; i8, 1),
        (1, _) => zip_of!(p; u8; i8, 1; u8, 2),
        (2, 2) => zip_of!(p; u16; i16, 1),
        (2, _) => zip_of!(p; u16; i16, 1; u16, 2),
        (_, 2) => zip_of!(p; u64; f64, 1),
        (_, _) => zip_of!(p; u64; f64, 1; i64, 2),
    }
}
/// Zips of vectors of different widths: to be refused.
pub fn make_zip_widths(which: usize, p: &[Part]) -> Box<dyn ZPull> {
    match which {
        0 => zip_of!(p; u8; u16, 1),
        1 => zip_of!(p; u32; u64, 1),
        2 => zip_of!(p; u32; i32, 1; u16, 2),
        _ => zip_of!(p; f64; i8, 1),
    }
}
pub fn widths_elems(which: usize) -> &'static [usize] {
    match which { 0 => &[1, 3], 1 => &[0, 7], 2 => &[0, 5, 3], _ => &[9, 2] }
}
/// Zips of the library's own iterators, without `Any` in between.
pub fn make_zip_direct(p: &[Part]) -> Box<dyn ZPull> {
    fn r<S: Recast>(p: &Part) -> SIMDIter<&'static [S]> {
        match any::<S>(p) { Any::Ref(i) => i, _ => unreachable!() }
    }
    fn l<S: Recast>(p: &Part) -> PackedStride<'static, &'static [S]> {
        match any::<S>(p) { Any::Lane(i) => i, _ => unreachable!() }
    }
    match (p[0].kind, p[1].kind) {
        (Kind::Ref, Kind::Ref) => { let t = (r::<u32>(&p[0]), r::<i32>(&p[1])); Box::new(Z::<_, u32>(monitored(|| IntoSIMDZip::zip(t)), PhantomData)) }
        (Kind::Lane, Kind::Ref) => { let t = (l::<u32>(&p[0]), r::<i32>(&p[1])); Box::new(Z::<_, u32>(monitored(|| IntoSIMDZip::zip(t)), PhantomData)) }
        (Kind::Ref, _) => { let t = (r::<u32>(&p[0]), l::<i32>(&p[1])); Box::new(Z::<_, u32>(monitored(|| IntoSIMDZip::zip(t)), PhantomData)) }
        (_, _) => { let t = (l::<u32>(&p[0]), l::<i32>(&p[1])); Box::new(Z::<_, u32>(monitored(|| IntoSIMDZip::zip(t)), PhantomData)) }
    }
}
