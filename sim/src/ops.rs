//! Traced vector operations: every operation of the crate which reports how it was carried out,
//! applied to fixed data. The untraced build prints its results as a table for the traced one.
use crate::ctx::*;
use crate::elem::*;
use crate::subject::{default_lanes, values};
use faster::prelude::*;
use faster::vecs::{Packable, Packed, Pattern};
use std::fmt::Debug;

pub const DATA: usize = 6;
/// What an operation which was refused returns.
pub const REFUSED: u64 = 0xdead;

/// Operand `k` of data set `d`.
fn arg<V>(d: usize, k: u64) -> V where V: Packed, V::Scalar: Elem {
    let bits = <V::Scalar as Elem>::BITS;
    let name = <V::Scalar as Elem>::NAME;
    let l: Vec<u64> = (0..V::WIDTH as u64).map(|i| {
        let r = mix(mix(d as u64 * 64 + k) ^ i);
        if name.starts_with('f') {
            // ordinary numbers: how NaNs and signed zeros are passed on may depend on the code around
            let x = ((r % 4000) as f64 - 2000.5) / 8.0;
            if bits == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() }
        } else if d % 2 == 0 {
            r % 11
        } else {
            r & mask(bits)
        }
    }).collect();
    vec_of::<V>(&Lanes::from(&l))
}
fn positive<V>(d: usize, k: u64) -> V where V: Packed, V::Scalar: Elem {
    let v: V = arg(d, k);
    let mut l = lanes_of(v);
    let sign = 1u64 << (<V::Scalar as Elem>::BITS - 1);
    for i in 0..l.n { l.v[i] &= !sign }
    vec_of::<V>(&l)
}
fn h<T: Debug>(t: T) -> u64 { crate::runner::hash(&format!("{:?}", t)) }

pub struct Op { pub name: &'static str, pub f: fn(usize) -> u64 }

macro_rules! ops {
    ($v:ident; $($t:ident { $($n:ident => |$d:ident| $e:expr),* $(,)* })*) => {
        $($($v.push(Op { name: concat!(stringify!($t), " ", stringify!($n)), f: |$d| { type V = $t; h($e) } });)*)*
    }
}
macro_rules! common { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    merge_halves => |d| arg::<V>(d, 1).merge_halves(arg::<V>(d, 2)),
    merge_interleaved => |d| arg::<V>(d, 1).merge_interleaved(arg::<V>(d, 2)),
    merge_partitioned => |d| arg::<V>(d, 1).merge_partitioned(arg::<V>(d, 2), (d * 3 + 1) % (V::WIDTH + d / 5 * 2)),
    halfs => |d| V::halfs(arg::<V>(d, 1).extract(0), arg::<V>(d, 1).extract(1)),
    interleave => |d| V::interleave(arg::<V>(d, 1).extract(0), arg::<V>(d, 1).extract(1)),
    partition => |d| V::partition(arg::<V>(d, 1).extract(0), arg::<V>(d, 1).extract(1), (d * 3) % (V::WIDTH + 1 + d / 5)),
    max => |d| arg::<V>(d, 1).max(arg::<V>(d, 2)),
    min => |d| arg::<V>(d, 1).min(arg::<V>(d, 2)),
    eq_mask => |d| arg::<V>(d, 1).eq_mask(arg::<V>(d, 2)),
    sum => |d| arg::<V>(d, 1).sum()
})* } } }
macro_rules! uncommon { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    merge_halves => |d| arg::<V>(d, 1).merge_halves(arg::<V>(d, 2)),
    merge_interleaved => |d| arg::<V>(d, 1).merge_interleaved(arg::<V>(d, 2)),
    merge_partitioned => |d| arg::<V>(d, 1).merge_partitioned(arg::<V>(d, 2), (d * 3 + 1) % (V::WIDTH + d / 5 * 2)),
    partition => |d| V::partition(arg::<V>(d, 1).extract(0), arg::<V>(d, 1).extract(1), (d * 3) % (V::WIDTH + 1 + d / 5)),
    eq_mask => |d| arg::<V>(d, 1).eq_mask(arg::<V>(d, 2)),
    sum => |d| arg::<V>(d, 1).sum()
})* } } }
macro_rules! ints { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    popcnt => |d| Popcnt::count_ones(&arg::<V>(d, 1)),
    zeroes => |d| Popcnt::count_zeroes(&arg::<V>(d, 1)),
    swap_bytes => |d| Reendianize::swap_bytes(&arg::<V>(d, 1))
})* } } }
macro_rules! small { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    saturating_add => |d| arg::<V>(d, 1).saturating_add(arg::<V>(d, 2)),
    saturating_sub => |d| arg::<V>(d, 1).saturating_sub(arg::<V>(d, 2)),
    sum_upcast => |d| arg::<V>(d, 1).sum_upcast()
})* } } }
macro_rules! strided { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    destride_two => |d| arg::<V>(d, 1).destride_two(arg::<V>(d, 2))
})* } } }
macro_rules! signed { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    abs => |d| arg::<V>(d, 1).abs()
})* } } }
macro_rules! floats { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    sqrt => |d| positive::<V>(d, 1).sqrt(),
    ceil => |d| arg::<V>(d, 1).ceil(),
    floor => |d| arg::<V>(d, 1).floor(),
    round => |d| Round::round(&arg::<V>(d, 1)),
    trunc => |d| arg::<V>(d, 1).trunc()
})* } } }
macro_rules! horizontal { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    hadd => |d| arg::<V>(d, 1).hadd(arg::<V>(d, 2)),
    hsub => |d| arg::<V>(d, 1).hsub(arg::<V>(d, 2))
})* } } }
macro_rules! sat_horizontal { ($v:ident; $($t:ident),*) => { ops! { $v; $($t {
    saturating_hadd => |d| arg::<V>(d, 1).saturating_hadd(arg::<V>(d, 2)),
    saturating_hsub => |d| arg::<V>(d, 1).saturating_hsub(arg::<V>(d, 2))
})* } } }

fn up<A, B>(d: usize) -> u64 where A: Packed + Upcast<B>, A::Scalar: Elem, B: Debug { h(arg::<A>(d, 1).upcast()) }
fn down<A, B>(d: usize) -> u64 where A: Packed + Downcast<B>, A::Scalar: Elem, B: Debug { h(arg::<A>(d, 1).saturating_downcast(arg::<A>(d, 2))) }

/// A partial pull of a whole iterator, and pairs: what reports through an iterator.
fn tail<S>(d: usize) -> u64 where S: Elem + crate::pull::Recast, S::Vector: Packed<Scalar = S> {
    let w = <S::Vector as Packed>::WIDTH;
    let v: Vec<S> = (0..w + 1 + d % w).map(|i| S::from_bits64(mix(i as u64) & 63)).collect();
    let mut i = SIMDIter { position: 0, data: &v[..], default: vec_of::<S::Vector>(&Lanes::from(&vec![0; w])) };
    let mut r = vec![];
    while let Some(v) = i.next() { r.push(lanes_of(v)) }
    if let Some((v, n)) = i.end() { r.push(lanes_of(v)); r.push(Lanes::from(&[n as u64])) }
    h(r)
}

fn build() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    common!(v; u8s, i8s, u16s, i16s, u32s, i32s, f32s, f64s);
    uncommon!(v; u64s, i64s);
    ints!(v; u8s, i8s, u16s, i16s, u32s, i32s, u64s, i64s);
    small!(v; u8s, i8s, u16s, i16s);
    strided!(v; u8s, i8s, u16s, i16s, u32s, i32s);
    signed!(v; i8s, i16s, i32s, i64s, f32s, f64s);
    floats!(v; f32s, f64s);
    horizontal!(v; i16s, i32s, f32s, f64s);
    sat_horizontal!(v; u8s, i8s, u16s, i16s, u32s, i32s, u64s, i64s);
    ops!(v; f32s { recip => |d| positive::<V>(d, 1).recip(), rsqrt => |d| positive::<V>(d, 1).rsqrt() });
    v.push(Op { name: "u8s upcast", f: up::<u8s, u16s> });
    v.push(Op { name: "i8s upcast", f: up::<i8s, i16s> });
    v.push(Op { name: "u16s upcast", f: up::<u16s, u32s> });
    v.push(Op { name: "i16s upcast", f: up::<i16s, i32s> });
    v.push(Op { name: "u32s upcast", f: up::<u32s, u64s> });
    v.push(Op { name: "i32s upcast", f: up::<i32s, i64s> });
    v.push(Op { name: "f32s upcast", f: up::<f32s, f64s> });
    v.push(Op { name: "i32s upcast to f64s", f: up::<i32s, f64s> });
    v.push(Op { name: "u16s downcast", f: down::<u16s, u8s> });
    v.push(Op { name: "i16s downcast", f: down::<i16s, i8s> });
    v.push(Op { name: "u32s downcast", f: down::<u32s, u16s> });
    v.push(Op { name: "i32s downcast", f: down::<i32s, i16s> });
    v.push(Op { name: "u64s downcast", f: down::<u64s, u32s> });
    v.push(Op { name: "i64s downcast", f: down::<i64s, i32s> });
    v.push(Op { name: "f64s downcast", f: down::<f64s, f32s> });
    v.push(Op { name: "u8 tail", f: tail::<u8> });
    v.push(Op { name: "i16 tail", f: tail::<i16> });
    v.push(Op { name: "u32 tail", f: tail::<u32> });
    v.push(Op { name: "f64 tail", f: tail::<f64> });
    v
}

static mut OPS: Vec<Op> = Vec::new();
pub fn ops() -> &'static Vec<Op> {
    unsafe {
        if OPS.is_empty() { OPS = build() }
        &OPS
    }
}

/// Operation `k` on data set `d`: a digest of its result, or that it was refused.
pub fn result(k: usize, d: usize) -> u64 {
    match attempt(|| (ops()[k].f)(d)) {
        Out::Ok(x) => if x == REFUSED { 0 } else { x },
        _ => REFUSED,
    }
}

pub fn print_table() {
    for k in 0..ops().len() {
        for d in 0..DATA { println!("{}\t{}\t{:016x}", ops()[k].name, d, result(k, d)) }
    }
}

static mut TABLE: Vec<u64> = Vec::new();
pub fn load_table(s: &str) {
    assert!(!s.is_empty(), "the untraced build printed no table");
    let t: Vec<u64> = s.lines().enumerate().map(|(i, l)| {
        let f: Vec<&str> = l.split('\t').collect();
        assert!(f[0] == ops()[i / DATA].name, "the table of the untraced build is another one");
        u64::from_str_radix(f[2], 16).expect("a number")
    }).collect();
    assert!(t.len() == ops().len() * DATA, "the table of the untraced build is incomplete");
    unsafe { TABLE = t }
}
/// What the untraced build returned.
pub fn expected(k: usize, d: usize) -> u64 { unsafe { TABLE[k * DATA + d] } }
