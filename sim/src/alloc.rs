//! The allocator seam. While a thread is monitored, its requests come from slots that end
//! exactly at an unmapped page, are filled with junk, counted, checked on release, and may be
//! refused.
use crate::ctx::*;
use crate::sys::*;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Seam;

#[global_allocator]
static SEAM: Seam = Seam;

const SLOTS: usize = 96;
const PAGE: usize = 4096;
const DATA: usize = 192 * PAGE;
const STEP: usize = DATA + 2 * PAGE;

#[derive(Clone, Copy)]
struct Slot {
    used: bool,
    ptr: usize,
    size: usize,
    align: usize,
}

pub struct Pool {
    base: usize,
    slots: [Slot; SLOTS],
    pub salt: u64,
    pub next: usize,
    pub allocs: u64,
    pub frees: u64,
    pub live: u64,
    pub peak: u64,
    pub busy: bool,
    pub freed_other: u64,
    pub refuse: bool,
    pub refused: u64,
    pub low: bool,
}

static mut POOL: Pool = Pool {
    base: 0, slots: [Slot { used: false, ptr: 0, size: 0, align: 0 }; SLOTS], salt: 0, next: 0, allocs: 0,
    frees: 0, live: 0, peak: 0, busy: false, freed_other: 0, refuse: false, refused: 0, low: false,
};

#[thread_local]
static mut MON: bool = false;

pub fn pool() -> &'static mut Pool {
    unsafe { &mut POOL }
}
pub fn mon_on() {
    // tracing allocates, and keeps what it allocates
    unsafe { MON = !cfg!(feature = "trace") }
}
pub fn mon_off() {
    unsafe { MON = false }
}
pub fn mon() -> bool {
    unsafe { MON }
}
/// Run harness code without its allocations being attributed to the library.
#[inline]
pub fn quiet<T, FN: FnOnce() -> T>(f: FN) -> T {
    let m = mon();
    mon_off();
    let p = crate::sched::pause();
    let r = f();
    if p { crate::sched::resume() }
    if m { mon_on() }
    r
}
/// Run a library call with its allocations monitored.
#[inline]
pub fn monitored<T, FN: FnOnce() -> T>(f: FN) -> T {
    let m = mon();
    if !m { crate::sched::resume() }
    mon_on();
    let r = f();
    if !m { mon_off(); crate::sched::pause(); }
    r
}

pub fn init() {
    unsafe {
        let b = mmap(0 as *mut u8, SLOTS * STEP, PROT_NONE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
        assert!(b as isize != -1);
        for i in 0..SLOTS {
            mprotect(b.add(i * STEP + PAGE), DATA, PROT_READ | PROT_WRITE);
        }
        POOL.base = b as usize;
    }
}

/// Forget the previous run's allocations.
pub fn begin_run(salt: u64) {
    let p = pool();
    for s in p.slots.iter_mut() {
        s.used = false;
    }
    p.salt = salt;
    p.next = 0;
    p.allocs = 0;
    p.frees = 0;
    p.live = 0;
    p.peak = 0;
    p.busy = false;
    p.refuse = false;
    p.refused = 0;
    p.low = salt & 8 == 8;
}

pub fn in_pool(p: usize) -> bool {
    let b = unsafe { POOL.base };
    p >= b && p < b + SLOTS * STEP
}

unsafe fn pool_alloc(l: Layout) -> *mut u8 {
    let p = pool();
    p.allocs += 1;
    if p.refuse {
        p.refused += 1;
        fired(C::fault_alloc_refused);
        return 0 as *mut u8;
    }
    if l.size() > DATA || l.align() > PAGE {
        return System.alloc(l);
    }
    for k in 0..SLOTS {
        let i = (p.next + k) % SLOTS;
        if !p.slots[i].used {
            p.next = (i + 1) % SLOTS;
            let start = p.base + i * STEP + PAGE;
            let addr = if p.low { start } else { (start + DATA - l.size()) & !(l.align() - 1) };
            // junk: whatever "was there before"
            let words = start as *mut u64;
            let mut x = p.salt | 1;
            let first = (addr - start) / 8;
            let last = ((addr - start + l.size() + 7) / 8).min(DATA / 8);
            for w in first..last {
                x = x.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(i as u64 + 1);
                *words.add(w) = x ^ (x >> 31);
            }
            p.slots[i] = Slot { used: true, ptr: addr, size: l.size(), align: l.align() };
            p.live += 1;
            p.peak = p.peak.max(p.live);
            count(C::fault_junk_memory);
            return addr as *mut u8;
        }
    }
    System.alloc(l)
}

unsafe fn pool_free(ptr: *mut u8, l: Layout) {
    let p = pool();
    let i = (ptr as usize - p.base) / STEP;
    let s = p.slots[i];
    p.frees += 1;
    if !s.used || s.ptr != ptr as usize {
        vio("bad-free", format_args!("memory released twice, or at an address it was not obtained at"));
        return;
    }
    if s.size != l.size() || s.align != l.align() {
        vio("bad-free-layout", format_args!("{} bytes (align {}) released as {} bytes (align {})", s.size, s.align, l.size(), l.align()));
    }
    p.live -= 1;
    p.slots[i].used = false;
    let a = ptr as *mut u8;
    for k in 0..s.size {
        *a.add(k) = 0xDD;
    }
}

unsafe impl GlobalAlloc for Seam {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if MON {
            POOL.busy = true;
            let p = pool_alloc(l);
            POOL.busy = false;
            p
        } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_pool(p as usize) {
            let b = POOL.busy;
            POOL.busy = true;
            pool_free(p, l);
            POOL.busy = b;
        } else {
            if MON { POOL.freed_other += 1 }
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MON {
            let p = self.alloc(l);
            if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()) }
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if MON || in_pool(p as usize) {
            // growing in place needs no second buffer
            POOL.live -= in_pool(p as usize) as u64;
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            POOL.live += in_pool(p as usize) as u64;
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}
