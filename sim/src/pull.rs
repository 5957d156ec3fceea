//! Type-erased SIMD iterators: the scenarios drive any iterator of the library through `Pull`.
use crate::alloc::{monitored, quiet};
use crate::closures::{self, call_v, Tok};
use crate::ctx::*;
use crate::elem::*;
use crate::mem::Region;
use faster::prelude::*;
use faster::vecs::{Packable, Packed};
use std::marker::PhantomData;

/// Standard iterator adaptors a consumer may put around `by_ref()`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Std { Take, StepBy, Skip, Fold, Last, Count, Peek, Enumerate, Nth, Find }
pub const STDS: [Std; 10] = [Std::Nth, Std::Take, Std::StepBy, Std::Skip, Std::Fold, Std::Last, Std::Count, Std::Peek, Std::Enumerate, Std::Find];

/// What came out of an unpacked iterator; it is packed again after a failure, or pulled again.
pub struct Scalars { pub got: Vec<u64>, pub failed: usize, pub refused: bool }

pub trait Pull {
    fn width(&self) -> usize;
    fn bits(&self) -> u32;
    fn next(&mut self) -> Option<Lanes>;
    fn end(&mut self) -> Option<(Lanes, usize)>;
    fn advance(&mut self, n: usize);
    fn finalize(&mut self);
    fn pos(&self) -> usize;
    fn vpos(&self) -> usize;
    fn slen(&self) -> usize;
    fn vlen(&self) -> usize;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn default_lanes(&self) -> Lanes;
    fn std(&mut self, which: Std, k: usize) -> Vec<Lanes>;
    /// hand every remaining vector to closure `clo`
    fn do_each(&mut self, clo: usize);
    /// fold every remaining vector with closure `clo`; drops of the accumulator are counted
    fn reduce(&mut self, clo: usize, acc: Acc) -> Acc;
    fn collect(&mut self, all: bool) -> Vec<u64>;
    fn fill(&mut self, dest: &Region, all: bool) -> bool;
    /// chunks of `amt` vectors, `k` pulls; None: the iterator reported its end
    fn unroll(&mut self, amt: usize, k: usize) -> Vec<Option<Vec<Lanes>>>;
    /// (chunk_len, chunk_pos)
    fn unroll_info(&mut self, amt: usize) -> (usize, usize);
    /// vectors of a chunk read again after the next chunk was pulled
    fn unroll_held(&mut self, amt: usize) -> Option<(Vec<Lanes>, Vec<Lanes>)>;
    fn try_clone(&self) -> Option<Box<dyn Pull>> { None }
    /// pull `k` single elements, then go back to vectors
    fn scalars(&mut self, _k: usize, _retry: bool) -> Option<Scalars> { None }
    fn for_each(&mut self, _clo: usize) { unreachable!() }
    /// drop this iterator, make a new one over the same data at `pos`
    fn resume(&mut self, _pos: usize) -> bool { false }
    fn load(&self, _off: usize, _checked: bool) -> Option<Lanes> { None }
    fn load_scalar(&self, _off: usize, _checked: bool) -> Option<u64> { None }
    fn set_pos(&mut self, _pos: usize) -> bool { false }
    /// map with closure `clo`
    fn map(self: Box<Self>, clo: usize) -> Box<dyn Pull>;
    /// map to lanes of another size; see `Recast`
    fn map_recast(self: Box<Self>, clo: usize) -> Box<dyn Pull>;
    fn recast_bits(&self) -> u32;
}

/// Type-erased zipped iterators.
pub trait ZPull {
    fn width(&self) -> usize;
    fn size(&self) -> usize;
    fn next(&mut self) -> Option<Vec<Lanes>>;
    fn end(&mut self) -> Option<(Vec<Lanes>, usize)>;
    fn advance(&mut self, n: usize);
    fn finalize(&mut self);
    fn pos(&self) -> usize;
    fn vpos(&self) -> usize;
    fn slen(&self) -> usize;
    fn vlen(&self) -> usize;
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn default_lanes(&self) -> Vec<Lanes>;
    fn std(&mut self, which: Std, k: usize) -> Vec<Vec<Lanes>>;
    fn do_each(&mut self, clo: usize);
    fn reduce(&mut self, clo: usize, acc: Acc) -> Acc;
    /// map to the vector type of the first component
    fn map(self: Box<Self>, clo: usize) -> Box<dyn Pull>;
}

/// An accumulator whose drops are counted.
pub struct Acc { pub sum: u64, pub live: bool }
static mut ACC_LIVE: i64 = 0;
impl Acc {
    pub fn new() -> Acc {
        unsafe { ACC_LIVE += 1 };
        Acc { sum: 0x9e37, live: true }
    }
    pub fn add(&mut self, l: &Lanes) {
        if !self.live {
            vio("accumulator", format_args!("the accumulator was used after it was dropped"));
        }
        for x in l.s() { self.sum = mix(self.sum ^ *x) }
    }
}
impl Drop for Acc {
    fn drop(&mut self) {
        quiet(|| {
            if !self.live {
                vio("accumulator", format_args!("the accumulator was dropped twice"));
            }
            self.live = false;
            count(C::probe_drop_counted);
            unsafe { ACC_LIVE -= 1 }
        })
    }
}
pub fn live_accs() -> i64 { unsafe { ACC_LIVE } }
pub fn begin_run() { unsafe { ACC_LIVE = 0 } }

/// Per element type: the one used for maps that change the lane width, and where its instances of
/// the wrappers below are compiled (several modules, so that the compiler can work in parallel).
pub trait Recast: Elem {
    type To: Recast;
    fn p<I: Extra + SIMDIterator<Scalar = Self, Vector = <Self as Packable>::Vector> + 'static>(i: I) -> Box<dyn Pull>;
    fn m<I: SIMDIterator<Scalar = Self, Vector = <Self as Packable>::Vector> + 'static>(i: I) -> Box<dyn Pull>;
}
macro_rules! recast { ($($a:ty => $b:ty, $m:ident);*) => { $(impl Recast for $a {
    type To = $b;
    fn p<I: Extra + SIMDIterator<Scalar = Self, Vector = <Self as Packable>::Vector> + 'static>(i: I) -> Box<dyn Pull> { Box::new($m::P(Some(i))) }
    fn m<I: SIMDIterator<Scalar = Self, Vector = <Self as Packable>::Vector> + 'static>(i: I) -> Box<dyn Pull> { Box::new($m::M(Some(i))) }
})* } }
recast!(u8 => u32, m0; i8 => u16, m1; u16 => u64, m2; i16 => u8, m3; u32 => u8, m4; i32 => i16, m5; f32 => f64, m6; u64 => u8, m7; i64 => i32, m3; f64 => f32, m2);

/// Extra abilities some iterators have.
pub trait Extra: Sized + 'static {
    /// map; most kinds go through a user-written iterator, to bound the number of instances
    fn x_map(self, _clo: usize) -> Result<Box<dyn Pull>, Self> { Err(self) }
    fn x_clone(&self) -> Option<Self> { None }
    fn x_scalars(self, _k: usize, _retry: bool) -> (Self, Option<Scalars>) { (self, None) }
    fn x_for_each(&mut self, _clo: usize) { unreachable!() }
    fn x_resume(self, _pos: usize) -> (Self, bool) { (self, false) }
    fn x_load(&self, _off: usize, _c: bool) -> Option<Lanes> { None }
    fn x_load_scalar(&self, _off: usize, _c: bool) -> Option<u64> { None }
    fn x_set_pos(&mut self, _pos: usize) -> bool { false }
}

pub fn to_bits<S: Elem>(v: Vec<S>) -> Vec<u64> {
    v.iter().map(|x| x.bits64()).collect()
}

/// Adaptors see the iterator as `dyn Iterator`: one instance per vector type, and whatever the
/// library overrides (next, nth, size_hint) is still called.
pub fn std_body<V: Copy, T>(i: &mut dyn Iterator<Item = V>, which: Std, k: usize, conv: fn(V) -> T) -> Vec<T> {
    let mut r = vec![];
    {
        let mut push = |v| quiet(|| r.push(conv(v)));
        monitored(|| match which {
            Std::Take => for v in i.take(k) { push(v) },
            Std::StepBy => for v in i.step_by(k + 1).take(2) { push(v) },
            Std::Skip => if let Some(v) = i.skip(k).next() { push(v) },
            Std::Fold => i.fold((), |_, v| push(v)),
            Std::Last => if let Some(v) = i.last() { push(v) },
            Std::Count => {
                let n = i.count();
                quiet(|| unsafe { LAST_COUNT = n })
            }
            Std::Peek => {
                let mut p = i.peekable();
                if let Some(v) = p.peek() {
                    let v = *v;
                    push(v)
                }
                if let Some(v) = p.next() { push(v) }
            }
            Std::Enumerate => for (_, v) in i.enumerate().take(k) { push(v) },
            Std::Nth => if let Some(v) = i.nth(k) { push(v) },
            Std::Find => {
                let mut c = 0;
                let mut i = i;
                if let Some(v) = Iterator::find(&mut i, |_| { c += 1; c > k }) { push(v) }
            }
        });
    }
    r
}
pub static mut LAST_COUNT: usize = 0;

macro_rules! pull_common {
    ($S:ident) => {
        fn width(&self) -> usize { self.i().width() }
        fn bits(&self) -> u32 { $S::BITS }
        fn next(&mut self) -> Option<Lanes> { let i = self.m(); monitored(|| i.next()).map(lanes_of) }
        fn end(&mut self) -> Option<(Lanes, usize)> { let i = self.m(); monitored(|| i.end()).map(|(v, n)| (lanes_of(v), n)) }
        fn advance(&mut self, n: usize) { let i = self.m(); monitored(|| i.advance(n)) }
        fn finalize(&mut self) { let i = self.m(); monitored(|| i.finalize()) }
        fn pos(&self) -> usize { self.i().scalar_pos() }
        fn vpos(&self) -> usize { self.i().vector_pos() }
        fn slen(&self) -> usize { self.i().scalar_len() }
        fn vlen(&self) -> usize { self.i().vector_len() }
        fn len(&self) -> usize { ExactSizeIterator::len(self.i()) }
        fn size_hint(&self) -> (usize, Option<usize>) { self.i().size_hint() }
        fn default_lanes(&self) -> Lanes { lanes_of(SIMDIterable::default(self.i())) }
        fn std(&mut self, which: Std, k: usize) -> Vec<Lanes> { std_body(self.m(), which, k, lanes_of) }
        fn do_each(&mut self, clo: usize) {
            let i = self.m();
            let tok = Tok::new();
            monitored(|| i.simd_do_each(move |v| { tok.touch(); closures::call(clo, lanes_of(v)); }))
        }
        fn reduce(&mut self, clo: usize, acc: Acc) -> Acc {
            let i = self.m();
            let tok = Tok::new();
            monitored(|| i.simd_reduce(acc, move |mut a: Acc, v| {
                tok.touch();
                let l = closures::call(clo, lanes_of(v));
                a.add(&l);
                a
            }))
        }
        fn collect(&mut self, all: bool) -> Vec<u64> {
            let i = self.m();
            to_bits::<S>(monitored(|| if all { i.scalar_collect_all() } else { i.scalar_collect() }))
        }
        fn fill(&mut self, dest: &Region, all: bool) -> bool {
            let i = self.m();
            let d = unsafe { dest.slice_mut::<S>() };
            let (p, n) = (d.as_ptr(), d.len());
            let r = monitored(|| if all { i.scalar_fill_all(d) } else { i.scalar_fill(d) });
            r.as_ptr() == p && r.len() == n
        }
        fn unroll(&mut self, amt: usize, k: usize) -> Vec<Option<Vec<Lanes>>> {
            let i = self.m();
            let mut r = vec![];
            {
                let mut push = |c: Option<&[S::Vector]>| quiet(|| r.push(c.map(|c| c.iter().map(|v| lanes_of(*v)).collect::<Vec<_>>())));
                monitored(|| {
                    let mut u = i.unroll(amt);
                    for _ in 0..k { push(u.next()) }
                });
            }
            r
        }
        fn unroll_info(&mut self, amt: usize) -> (usize, usize) {
            let i = self.m();
            monitored(|| {
                let u = i.unroll(amt);
                (u.chunk_len(), u.chunk_pos())
            })
        }
        fn unroll_held(&mut self, amt: usize) -> Option<(Vec<Lanes>, Vec<Lanes>)> {
            let i = self.m();
            let mut u = i.unroll(amt);
            let c = u.next()?;
            let before: Vec<Lanes> = c.iter().map(|v| lanes_of(*v)).collect();
            u.next();
            Some((before, c.iter().map(|v| lanes_of(unsafe { std::ptr::read_volatile(v) })).collect()))
        }
        fn recast_bits(&self) -> u32 { <S::To as Elem>::BITS }
    }
}

macro_rules! wrappers { ($($mo:ident)*) => { $(pub mod $mo {
    use super::*;
    /// An iterator of the library itself.
    pub struct P<I>(pub Option<I>);
    impl<I> P<I> {
        fn i(&self) -> &I { self.0.as_ref().unwrap() }
        fn m(&mut self) -> &mut I { self.0.as_mut().unwrap() }
    }
    
    impl<I, S> Pull for P<I>
    where I: Extra + SIMDIterator<Scalar = S, Vector = <S as Packable>::Vector> + 'static, S: Recast {
        pull_common!(S);
        fn try_clone(&self) -> Option<Box<dyn Pull>> {
            let i = self.i();
            monitored(|| i.x_clone()).map(|c| Box::new(P(Some(c))) as Box<dyn Pull>)
        }
        fn scalars(&mut self, k: usize, retry: bool) -> Option<Scalars> {
            let (i, r) = self.0.take().unwrap().x_scalars(k, retry);
            self.0 = Some(i);
            r
        }
        fn for_each(&mut self, clo: usize) { self.m().x_for_each(clo) }
        fn resume(&mut self, pos: usize) -> bool {
            let (i, r) = self.0.take().unwrap().x_resume(pos);
            self.0 = Some(i);
            r
        }
        fn load(&self, off: usize, c: bool) -> Option<Lanes> { self.i().x_load(off, c) }
        fn load_scalar(&self, off: usize, c: bool) -> Option<u64> { self.i().x_load_scalar(off, c) }
        fn set_pos(&mut self, pos: usize) -> bool { self.m().x_set_pos(pos) }
        fn map(self: Box<Self>, clo: usize) -> Box<dyn Pull> {
            match self.0.unwrap().x_map(clo) {
                Ok(m) => m,
                Err(i) => map_dyn::<S>(Dyn { inner: Box::new(P(Some(i))), _p: PhantomData }, clo),
            }
        }
        fn map_recast(self: Box<Self>, clo: usize) -> Box<dyn Pull> {
            recast_dyn::<S>(Dyn { inner: self, _p: PhantomData }, clo)
        }
    }
    
    /// A map (or another iterator without extras).
    pub struct M<I>(pub Option<I>);
    impl<I> M<I> {
        fn i(&self) -> &I { self.0.as_ref().unwrap() }
        fn m(&mut self) -> &mut I { self.0.as_mut().unwrap() }
    }
    impl<I, S> Pull for M<I>
    where I: SIMDIterator<Scalar = S, Vector = <S as Packable>::Vector> + 'static, S: Recast {
        pull_common!(S);
        fn map(self: Box<Self>, clo: usize) -> Box<dyn Pull> { map_dyn::<S>(Dyn { inner: self, _p: PhantomData }, clo) }
        fn map_recast(self: Box<Self>, clo: usize) -> Box<dyn Pull> { recast_dyn::<S>(Dyn { inner: self, _p: PhantomData }, clo) }
    }
})* } }
wrappers!(m0 m1 m2 m3 m4 m5 m6 m7);

pub fn map_dyn<S: Recast>(d: Dyn<S>, clo: usize) -> Box<dyn Pull> {
    // a nested map: a real map over a user-written iterator, which forwards to the inner one
    let tok = Tok::new();
    S::m(d.simd_map(move |v: S::Vector| { tok.touch(); call_v::<S::Vector, S::Vector>(clo, v) }))
}
pub fn recast_dyn<S: Recast>(d: Dyn<S>, clo: usize) -> Box<dyn Pull> {
    let tok = Tok::new();
    S::To::m(d.simd_map(move |v: S::Vector| { tok.touch(); call_v::<S::Vector, <S::To as Packable>::Vector>(clo, v) }))
}
pub fn pairs_of<S: Recast>(inner: Box<dyn Pull>) -> Box<dyn ZPull> where S::Vector: Destride {
    Box::new(Z::<_, S>(Dyn::<S> { inner, _p: PhantomData }.stride_zip(), PhantomData))
}

/// A user-written SIMD iterator which forwards to another one.
pub struct Dyn<S: Elem> { pub inner: Box<dyn Pull>, pub _p: PhantomData<S> }
impl<S: Elem> SIMDObject for Dyn<S> { type Scalar = S; type Vector = <S as Packable>::Vector; }
impl<S: Elem> SIMDSized for Dyn<S> {
    #[inline(never)]
    fn scalar_len(&self) -> usize { self.inner.slen() }
    #[inline(never)]
    fn vector_len(&self) -> usize { self.inner.vlen() }
}
impl<S: Elem> Iterator for Dyn<S> {
    type Item = S::Vector;
    #[inline(never)]
    fn next(&mut self) -> Option<S::Vector> { self.inner.next().map(|l| vec_of(&l)) }
}
impl<S: Elem> ExactSizeIterator for Dyn<S> { fn len(&self) -> usize { self.inner.len() } }
impl<S: Elem> SIMDIterable for Dyn<S> {
    #[inline(never)]
    fn scalar_pos(&self) -> usize { self.inner.pos() }
    #[inline(never)]
    fn vector_pos(&self) -> usize { self.inner.vpos() }
    #[inline(never)]
    fn advance(&mut self, n: usize) { self.inner.advance(n) }
    #[inline(never)]
    fn default(&self) -> S::Vector { vec_of(&self.inner.default_lanes()) }
}
impl<S: Elem> SIMDIterator for Dyn<S> {
    #[inline(never)]
    fn end(&mut self) -> Option<(S::Vector, usize)> { self.inner.end().map(|(l, n)| (vec_of(&l), n)) }
}

/// A zipped iterator of the library; `S` is the element type of its first component.
pub struct Z<I, S>(pub I, pub PhantomData<S>);
pub trait Tup { fn lanes(self) -> Vec<Lanes>; }

impl<I, S> ZPull for Z<I, S>
where I: SIMDZippedIterator + 'static, I::Vectors: Tup + Copy, S: Recast {
    fn width(&self) -> usize { self.0.width() }
    fn size(&self) -> usize { self.0.size() }
    fn next(&mut self) -> Option<Vec<Lanes>> { let i = &mut self.0; monitored(|| i.next()).map(|v| v.lanes()) }
    fn end(&mut self) -> Option<(Vec<Lanes>, usize)> { let i = &mut self.0; monitored(|| i.end()).map(|(v, n)| (v.lanes(), n)) }
    fn advance(&mut self, n: usize) { let i = &mut self.0; monitored(|| i.advance(n)) }
    fn finalize(&mut self) { let i = &mut self.0; monitored(|| i.finalize()) }
    fn pos(&self) -> usize { self.0.scalar_pos() }
    fn vpos(&self) -> usize { self.0.vector_pos() }
    fn slen(&self) -> usize { self.0.scalar_len() }
    fn vlen(&self) -> usize { self.0.vector_len() }
    fn len(&self) -> usize { ExactSizeIterator::len(&self.0) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn default_lanes(&self) -> Vec<Lanes> { SIMDZippedIterable::default(&self.0).lanes() }
    fn std(&mut self, which: Std, k: usize) -> Vec<Vec<Lanes>> { std_body(&mut self.0, which, k, Tup::lanes) }
    fn do_each(&mut self, clo: usize) {
        let i = &mut self.0;
        let tok = Tok::new();
        monitored(|| i.simd_do_each(move |v| { tok.touch(); quiet(|| { closures::callz(clo, &v.lanes()); }) }))
    }
    fn reduce(&mut self, clo: usize, acc: Acc) -> Acc {
        let i = &mut self.0;
        let tok = Tok::new();
        monitored(|| i.simd_reduce(acc, move |mut a: Acc, v| {
            tok.touch();
            quiet(|| { let l = closures::callz(clo, &v.lanes()); a.add(&l) });
            a
        }))
    }
    fn map(self: Box<Self>, clo: usize) -> Box<dyn Pull> {
        let i = self.0;
        let tok = Tok::new();
        let m = monitored(|| i.simd_map(move |v: I::Vectors| {
            tok.touch();
            quiet(|| vec_of::<<S as Packable>::Vector>(&closures::callz(clo, &v.lanes())))
        }));
        S::m(m)
    }
}
