//! Vectors read from and written to collections by hand, in range or not.
use crate::alloc::monitored;
use crate::ctx::*;
use crate::elem::*;
use crate::history::World;
use crate::make::*;
use crate::mem::{self, Region};
use faster::prelude::*;
use faster::vecs::{Packable, Packed};

const WAYS: u64 = 12;
/// Whether a way addresses lanes (0), one element (1) or a vector (2), and whether it writes, and whether it needn't check.
fn what(way: u64) -> (u64, bool, bool) {
    match way {
        0 | 1 => (2, false, false),     // Packed::load, SIMDArray::load
        2 => (1, false, false),         // SIMDArray::load_scalar
        3 | 4 => (2, true, false),      // Packed::store, SIMDArrayMut::store
        5 => (1, true, false),          // SIMDArrayMut::store_scalar
        6 => (0, false, false),         // extract
        7 => (0, true, false),          // replace
        8 => (2, false, true),          // load_unchecked
        9 => (2, true, true),           // store_unchecked
        10 => (1, false, true),         // load_scalar_unchecked
        _ => (1, true, true),           // store_scalar_unchecked
    }
}

fn one<S>(way: u64, r: &Region, off: usize, v: &Lanes, x: u64) -> Lanes
where S: Elem + Packable, S::Vector: Packed<Scalar = S> {
    let s = unsafe { r.slice::<S>() };
    let x = S::from_bits64(x);
    let mut vec: S::Vector = vec_of(v);
    if !what(way).1 || way == 7 {
        match way {
            0 => lanes_of(monitored(|| <S::Vector as Packed>::load(s, off))),
            1 => lanes_of(monitored(|| SIMDArray::load(&s, off))),
            2 => Lanes::from(&[monitored(|| s.load_scalar(off)).bits64()]),
            6 => Lanes::from(&[monitored(|| vec.extract(off)).bits64()]),
            7 => lanes_of(monitored(|| Packed::replace(&mut vec, off, x))),
            8 => lanes_of(monitored(|| unsafe { SIMDArray::load_unchecked(&s, off) })),
            _ => Lanes::from(&[monitored(|| unsafe { s.load_scalar_unchecked(off) }).bits64()]),
        }
    } else {
        let mut m = unsafe { r.slice_mut::<S>() };
        monitored(|| match way {
            3 => Packed::store(vec, m, off),
            4 => SIMDArrayMut::store(&mut m, vec, off),
            5 => m.store_scalar(x, off),
            9 => unsafe { SIMDArrayMut::store_unchecked(&mut m, vec, off) },
            _ => unsafe { m.store_scalar_unchecked(x, off) },
        });
        Lanes::empty(0)
    }
}
pub fn call(elem: usize, way: u64, r: &Region, off: usize, v: &Lanes, x: u64) -> Lanes {
    with_elem!(elem, S => one::<S>(way, r, off, v, x))
}

pub fn direct() -> R {
    let mut w = World::new();
    let e = draw(NELEM as u64) as usize;
    let (wd, bits) = (width_of(e), bits_of(e));
    let len = crate::history::draw_len(wd);
    let b = w.buffer(e, len, false);
    ctx().nontrivial = true;
    for i in 0..1 + draw(12) {
        let way = draw(WAYS);
        let (unit, writes, unchecked) = what(way);
        let (n, room) = match unit { 0 => (1, wd), 1 => (1, len), _ => (wd, len) };
        let off = match draw(5) {
            0 => draw(room as u64 + 1) as usize,
            1 => room.saturating_sub(n),
            2 => (room + 1).saturating_sub(n),
            3 => pick(&[room, room + 1, room + wd, 2 * room + 1]),
            _ => pick(&[usize::max_value(), usize::max_value() - wd + 1, usize::max_value() - n + 1, usize::max_value() / 2 + 1,
                        usize::max_value() / 3 + 1, usize::max_value() / 4 + 1, usize::max_value() / 8 + 1, 1 << 32]),
        };
        let fits = off <= room && room - off >= n;
        if unchecked && !fits { continue }
        let v = Lanes::from(&(0..wd as u64).map(|k| (mix(i * 77 + k + way) | 1) & mask(bits)).collect::<Vec<_>>());
        let x = mix(i ^ 0xD1EC7) & mask(bits);
        ev("direct", &[way, off as u64, room as u64]);
        count(C::ops);
        if !fits { fired(C::fault_misuse) }
        let (reg, old) = (w.data[b].0, w.data[b].2.clone());
        let r = attempt(|| call(e, way, &reg, off, &v, x));
        note!("  way {} at {} of {} {}", way, off, room, if r.is_ok() { "" } else { "refused" });
        match r {
            Out::Ok(got) => {
                ensure!(fits, "accepted-out-of-range", "way {}: {} elements at {} of {}", way, n, off, room);
                ev("got", got.s());
                match way {
                    6 => ensure!(got.s()[0] == v.s()[off], "wrong-lane", "lane {} of {:?} reads {:?}", off, v, got),
                    7 => for k in 0..wd {
                        let want = if k == off { x } else { v.s()[k] };
                        ensure!(got.s()[k] == want, "wrong-lane", "lane {} replaced in {:?}: {:?}", off, v, got);
                    },
                    _ if !writes => ensure!(got.s() == &old[off..off + n], "wrong-elements", "way {} at {} read {:?}", way, off, got),
                    _ => {
                        if n == 1 { w.data[b].2[off] = x } else { w.data[b].2[off..off + n].copy_from_slice(v.s()) }
                    }
                }
            }
            Out::Panic => {
                ensure!(!fits, "unexpected-panic", "way {} at {} of {}: {}", way, off, room, panic_msg());
                count(C::probe_refused)
            }
            Out::Fault => ensure!(false, "lost-fault", "a fault that was not armed"),
        }
        w.check_data()?;
    }
    w.finish()
}
