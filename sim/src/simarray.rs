//! A collection implemented by the user: every request of the library is checked against the
//! contract, recorded, a yield point, and may fail.
use crate::alloc::quiet;
use crate::ctx::*;
use crate::elem::*;
use crate::mem::Region;
use faster::prelude::*;
use faster::vecs::Packed;

pub struct SimArray<S: Elem> {
    pub ptr: *mut S,
    pub len: usize,
    pub id: u64,
    /// this many elements in front are not stored anywhere, but made up; storage follows
    pub shift: usize,
}
unsafe impl<S: Elem> Send for SimArray<S> {}
unsafe impl<S: Elem> Sync for SimArray<S> {}
impl<S: Elem> Clone for SimArray<S> {
    fn clone(&self) -> Self { SimArray { ptr: self.ptr, len: self.len, id: self.id, shift: self.shift } }
}
impl<S: Elem> std::fmt::Debug for SimArray<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "SimArray") }
}

/// An element which is made up.
pub fn made_up(bits: u32, i: usize) -> u64 { mix(i as u64 ^ 0x5EED) & mask(bits) & !(1 << if bits == 32 { 30 } else { 62 }) }

/// How often storage was asked for anything.
pub static mut ACCESSES: u64 = 0;

impl<S: Elem> SimArray<S> {
    pub fn over(r: &Region, id: u64) -> Self {
        SimArray { ptr: r.lib() as *mut S, len: r.shift + r.len::<S>(), id, shift: r.shift }
    }
    /// Every access passes through here first.
    #[inline(never)]
    fn access(&self, what: &'static str, f: F, off: usize, n: usize, checked: bool) {
        quiet(|| {
            unsafe { ACCESSES += 1 };
            ev(what, &[self.id, off as u64]);
            let fits = off <= self.len && self.len - off >= n;
            if !fits {
                if !checked {
                    vio("out-of-range-request", format_args!("{} of {} elements at {} of a collection of {}, without a check", what, n, off, self.len));
                }
                panic!("SimArray: {} at {} out of range", what, off);
            }
            crate::history::user_code(what);
            if hit(f) {
                note!("  storage fails: {} at {}", what, off);
                throw(2);
            }
        })
    }
}

impl<S, V> SIMDObject for SimArray<S> where S: Elem + faster::vecs::Packable<Vector = V>, V: Packed<Scalar = S> {
    type Scalar = S;
    type Vector = V;
}
impl<S, V> SIMDSized for SimArray<S> where S: Elem + faster::vecs::Packable<Vector = V>, V: Packed<Scalar = S> {
    fn scalar_len(&self) -> usize { self.len }
}
impl<S, V> SIMDArray for SimArray<S> where S: Elem + faster::vecs::Packable<Vector = V>, V: Packed<Scalar = S> {
    #[inline(never)]
    fn load(&self, off: usize) -> V {
        self.access("load-checked", F::Load, off, V::WIDTH, true);
        self.raw(off)
    }
    #[inline(never)]
    unsafe fn load_unchecked(&self, off: usize) -> V {
        self.access("load", F::Load, off, V::WIDTH, false);
        self.raw(off)
    }
    #[inline(never)]
    fn load_scalar(&self, off: usize) -> S {
        self.access("load-scalar-checked", F::Load, off, 1, true);
        self.one(off)
    }
    #[inline(never)]
    unsafe fn load_scalar_unchecked(&self, off: usize) -> S {
        self.access("load-scalar", F::Load, off, 1, false);
        self.one(off)
    }
}
impl<S: Elem> SimArray<S> {
    fn raw<V: Packed<Scalar = S>>(&self, off: usize) -> V {
        let mut v = std::mem::MaybeUninit::<V>::uninit();
        unsafe {
            if off >= self.shift {
                std::ptr::copy_nonoverlapping(self.ptr.add(off - self.shift), v.as_mut_ptr() as *mut S, V::WIDTH);
            } else {
                for i in 0..V::WIDTH { (v.as_mut_ptr() as *mut S).add(i).write(self.one(off + i)) }
            }
            v.assume_init()
        }
    }
    fn one(&self, off: usize) -> S {
        if off >= self.shift { unsafe { *self.ptr.add(off - self.shift) } } else { S::from_bits64(made_up(S::BITS, off)) }
    }
    fn put_one(&mut self, off: usize, v: S) {
        if off >= self.shift {
            unsafe { *self.ptr.add(off - self.shift) = v }
        } else if v.bits64() != made_up(S::BITS, off) {
            quiet(|| vio("changed-data", format_args!("element {} was overwritten", off)))
        }
    }
}
impl<S, V> SIMDArrayMut for SimArray<S> where S: Elem + faster::vecs::Packable<Vector = V>, V: Packed<Scalar = S> {
    #[inline(never)]
    fn store(&mut self, v: V, off: usize) {
        self.access("store-checked", F::Store, off, V::WIDTH, true);
        self.put(v, off)
    }
    #[inline(never)]
    unsafe fn store_unchecked(&mut self, v: V, off: usize) {
        self.access("store", F::Store, off, V::WIDTH, false);
        self.put(v, off)
    }
    #[inline(never)]
    fn store_scalar(&mut self, v: S, off: usize) {
        self.access("store-scalar-checked", F::Store, off, 1, true);
        self.put_one(off, v)
    }
    #[inline(never)]
    unsafe fn store_scalar_unchecked(&mut self, v: S, off: usize) {
        self.access("store-scalar", F::Store, off, 1, false);
        self.put_one(off, v)
    }
}
impl<S: Elem> SimArray<S> {
    fn put<V: Packed<Scalar = S>>(&mut self, v: V, off: usize) {
        let p = &v as *const V as *const S;
        if off >= self.shift {
            unsafe { std::ptr::copy_nonoverlapping(p, self.ptr.add(off - self.shift), V::WIDTH) }
        } else {
            for i in 0..V::WIDTH { self.put_one(off + i, unsafe { p.add(i).read() }) }
        }
    }
}
