//! User closures, as the library sees them: recorded, stateful, preemptible and fallible.
use crate::alloc::quiet;
use crate::ctx::*;
use crate::elem::*;
use faster::vecs::Packed;

pub struct Clo {
    /// the lanes of every call, component after component
    pub calls: Vec<Vec<u64>>,
    /// the calls the model expects
    pub expect: Vec<Vec<u64>>,
    /// this many of them have been compared
    pub seen: usize,
    pub salt: u64,
    pub isz: u32,
    pub osz: u32,
    /// calls left until it fails
    pub fail_in: Option<u64>,
    pub limit: usize,
}

static mut CLOS: Vec<Clo> = Vec::new();

pub fn clos() -> &'static mut Vec<Clo> {
    unsafe { &mut CLOS }
}
pub fn begin_run() {
    clos().clear();
    unsafe { TOKS = 0 };
}
/// Register a closure; its output depends on the input lanes and on how often it was called.
pub fn new_clo(isz: u32, osz: u32) -> usize {
    let salt = draw(1 << 16) + 1;
    new_clo_salted(isz, osz, salt)
}
pub fn new_clo_salted(isz: u32, osz: u32, salt: u64) -> usize {
    clos().push(Clo { calls: vec![], expect: vec![], seen: 0, salt, isz, osz, fail_in: None, limit: 16384 });
    clos().len() - 1
}

/// The output of call number `k` of a closure: the model and the closure share this.
pub fn apply(salt: u64, k: u64, isz: u32, osz: u32, comps: &[Lanes]) -> Lanes {
    let mut o = Lanes::empty(comps[0].n);
    for i in 0..o.n {
        let mut x = comps[0].v[i];
        for (j, c) in comps.iter().enumerate().skip(1) {
            x ^= mix(c.v[i] ^ ((j as u64) << 56));
        }
        o.v[i] = (x ^ mix(salt ^ (k << 20))) & mask(isz);
    }
    recast(&o, isz, osz)
}

/// Reinterpret lanes of `isz` bits as lanes of `osz` bits (little-endian, like the hardware).
pub fn recast(l: &Lanes, isz: u32, osz: u32) -> Lanes {
    if isz == osz {
        return *l;
    }
    let mut o = Lanes::empty(l.n * isz as usize / osz as usize);
    if isz > osz {
        let r = (isz / osz) as usize;
        for i in 0..o.n {
            o.v[i] = (l.v[i / r] >> ((i % r) as u32 * osz)) & mask(osz);
        }
    } else {
        let r = (osz / isz) as usize;
        for i in 0..l.n {
            o.v[i / r] |= l.v[i] << ((i % r) as u32 * isz);
        }
    }
    o
}

pub fn flat(comps: &[Lanes]) -> Vec<u64> {
    let mut v = Vec::with_capacity(comps.len() * comps[0].n);
    for c in comps {
        v.extend_from_slice(c.s());
    }
    v
}

/// The body of every user closure.
pub fn call(id: usize, l: Lanes) -> Lanes {
    callz(id, &[l])
}
pub fn callz(id: usize, comps: &[Lanes]) -> Lanes {
    quiet(|| {
        let c = &mut clos()[id];
        let k = c.calls.len() as u64;
        ev("closure", &[id as u64, k]);
        for l in comps {
            ev("in", l.s());
        }
        count(C::vectors);
        c.calls.push(flat(comps));
        if c.calls.len() > c.limit {
            vio("endless", format_args!("closure {} called more than {} times", id, c.limit));
            die(77);
        }
        crate::history::user_code("closure");
        match clos()[id].fail_in {
            Some(0) => {
                clos()[id].fail_in = None;
                fired(C::fault_closure);
                note!("  closure {} fails at call {}", id, k);
                throw(1)
            }
            Some(n) => clos()[id].fail_in = Some(n - 1),
            None => {}
        }
        if hit(F::Closure) {
            ctx().last_id = id;
            note!("  closure {} fails at call {}", id, k);
            throw(1);
        }
        let c = &clos()[id];
        apply(c.salt, k, c.isz, c.osz, comps)
    })
}
#[inline(never)]
pub fn call_v<V, A>(id: usize, v: V) -> A
    where V: Packed, V::Scalar: Elem, A: Packed, A::Scalar: Elem {
    vec_of::<A>(&call(id, lanes_of(v)))
}

/// State captured by a closure; its drops are counted.
pub struct Tok(u64);
static mut TOKS: i64 = 0;
impl Tok {
    pub fn new() -> Tok {
        unsafe { TOKS += 1 };
        Tok(0x5afe)
    }
    pub fn touch(&self) {
        if self.0 != 0x5afe {
            vio("captured-state", format_args!("a closure was called after its captured state was dropped"));
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        quiet(|| {
            self.touch();
            self.0 = 0xdead;
            count(C::probe_drop_counted);
            unsafe { TOKS -= 1 }
        })
    }
}
pub fn live_toks() -> i64 { unsafe { TOKS } }
