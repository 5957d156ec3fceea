//! Element types and type-erased vectors.
use faster::vecs::{Packable, Packed};

pub trait Elem: Packable + Default + PartialEq + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: u32;
    fn from_bits64(b: u64) -> Self;
    fn bits64(self) -> u64;
}

macro_rules! elem {
    ($($t:ty, $u:ty, $n:expr);*) => {
        $(impl Elem for $t {
            const NAME: &'static str = $n;
            const BITS: u32 = std::mem::size_of::<$t>() as u32 * 8;
            #[inline]
            fn from_bits64(b: u64) -> Self { unsafe { std::mem::transmute::<$u, $t>(b as $u) } }
            #[inline]
            fn bits64(self) -> u64 { unsafe { std::mem::transmute::<$t, $u>(self) as u64 } }
        })*
    }
}
elem!(u8, u8, "u8"; i8, u8, "i8"; u16, u16, "u16"; i16, u16, "i16"; u32, u32, "u32"; i32, u32, "i32";
      f32, u32, "f32"; u64, u64, "u64"; i64, u64, "i64"; f64, u64, "f64");

pub fn mask(bits: u32) -> u64 {
    if bits >= 64 { !0 } else { (1 << bits) - 1 }
}

pub const MAXW: usize = 64;

/// The lanes of a vector as bits, independent of the library's own accessors.
#[derive(Clone, Copy)]
pub struct Lanes {
    pub n: usize,
    pub v: [u64; MAXW],
}
impl PartialEq for Lanes {
    fn eq(&self, o: &Lanes) -> bool { self.n == o.n && self.v[..self.n] == o.v[..o.n] }
}
impl std::fmt::Debug for Lanes {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "[")?;
        for (i, x) in self.v[..self.n].iter().enumerate() {
            write!(f, "{}{:x}", if i > 0 { " " } else { "" }, x)?;
        }
        write!(f, "]")
    }
}
impl Lanes {
    pub fn empty(n: usize) -> Lanes { Lanes { n, v: [0; MAXW] } }
    pub fn from(xs: &[u64]) -> Lanes {
        let mut l = Lanes::empty(xs.len());
        l.v[..xs.len()].copy_from_slice(xs);
        l
    }
    pub fn s(&self) -> &[u64] { &self.v[..self.n] }
}

#[inline(never)]
pub fn lanes_of<V>(v: V) -> Lanes where V: Packed, V::Scalar: Elem {
    let mut l = Lanes::empty(V::WIDTH);
    let p = &v as *const V as *const V::Scalar;
    for i in 0..V::WIDTH {
        l.v[i] = unsafe { p.add(i).read() }.bits64();
    }
    l
}
#[inline(never)]
pub fn vec_of<V>(l: &Lanes) -> V where V: Packed, V::Scalar: Elem {
    assert_eq!(l.n, V::WIDTH);
    let mut v = std::mem::MaybeUninit::<V>::uninit();
    let p = v.as_mut_ptr() as *mut V::Scalar;
    for i in 0..V::WIDTH {
        unsafe { p.add(i).write(V::Scalar::from_bits64(l.v[i])) }
    }
    unsafe { v.assume_init() }
}
pub fn width<S: Elem>() -> usize {
    <S::Vector as Packed>::WIDTH
}

/// Number of element types; `with_elem!(i, S => expr)` runs `expr` for the `i`th.
pub const NELEM: usize = 10;
#[macro_export]
macro_rules! with_elem {
    ($i:expr, $S:ident => $e:expr) => {
        match $i {
            0 => { type $S = u32; $e }
            1 => { type $S = u8; $e }
            2 => { type $S = i8; $e }
            3 => { type $S = u16; $e }
            4 => { type $S = i16; $e }
            5 => { type $S = i32; $e }
            6 => { type $S = f32; $e }
            7 => { type $S = u64; $e }
            8 => { type $S = i64; $e }
            _ => { type $S = f64; $e }
        }
    }
}
