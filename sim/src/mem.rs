//! Memory handed to the library: arenas between unmapped pages, each visible twice - once as the
//! library sees it (read-only or read-write) and once, at another address, for the harness.
use crate::ctx::*;
use crate::elem::Elem;
use crate::sys::*;

pub const ARENAS: usize = 48;
const PAGE: usize = 4096;
pub const DATA: usize = 4 * PAGE;
const STEP: usize = DATA + 2 * PAGE;
const ISLE: u8 = 0xA7;
/// A few which hold more than numbers of 16 bits can count.
pub const BIGS: usize = 4;
const BIG: usize = 160 * PAGE;
const BIG_STEP: usize = BIG + 2 * PAGE;
const SPAN: usize = ARENAS * STEP + BIGS * BIG_STEP;
/// The first byte and the size of an arena, in the library's views.
fn view(arena: usize) -> (usize, usize) {
    if arena < ARENAS { (arena * STEP + PAGE, DATA) } else { (ARENAS * STEP + (arena - ARENAS) * BIG_STEP + PAGE, BIG) }
}
/// The first byte of an arena in the harness's view, and in the file.
fn at(arena: usize) -> usize { arena.min(ARENAS) * DATA + arena.saturating_sub(ARENAS) * BIG }

static mut RO: usize = 0;
static mut RW: usize = 0;
static mut SELF: usize = 0;
static mut NEXT: usize = 0;
static mut NEXT_BIG: usize = 0;
/// Is there room for a buffer of this size?
pub fn room(bytes: usize) -> bool { unsafe { NEXT < ARENAS - 2 && (bytes <= DATA || (NEXT_BIG < BIGS && bytes <= BIG)) } }

pub fn init() {
    unsafe {
        let fd = syscall(SYS_MEMFD, b"sim\0".as_ptr(), 0u64) as i32;
        assert!(fd >= 0);
        assert!(ftruncate(fd, at(ARENAS + BIGS) as i64) == 0);
        for (base, prot) in [(&mut RO, PROT_READ), (&mut RW, PROT_READ | PROT_WRITE)].iter_mut() {
            let b = mmap(0 as *mut u8, SPAN, PROT_NONE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
            assert!(b as isize != -1);
            for i in 0..ARENAS + BIGS {
                let (o, n) = view(i);
                let a = mmap(b.add(o), n, *prot, MAP_SHARED | MAP_FIXED, fd, at(i) as i64);
                assert!(a as isize != -1);
            }
            **base = b as usize;
        }
        SELF = mmap(0 as *mut u8, at(ARENAS + BIGS), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0) as usize;
        syscall(SYS_CLOSE, fd as i64);
    }
}

/// Where a faulting address lies, for the report: (arena, offset from its buffer area, read-only view).
pub fn locate(addr: usize) -> Option<(usize, isize, bool)> {
    unsafe {
        for (b, ro) in [(RO, true), (RW, false)].iter() {
            if addr >= *b && addr < *b + SPAN {
                let d = addr - *b;
                let i = if d < ARENAS * STEP { d / STEP } else { ARENAS + (d - ARENAS * STEP) / BIG_STEP };
                return Some((i, d as isize - view(i).0 as isize, *ro));
            }
        }
    }
    None
}

pub fn begin_run() {
    unsafe { NEXT = 0; NEXT_BIG = 0 }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place { High, Low, Middle }

/// A buffer of `len` elements in an arena of its own.
#[derive(Clone, Copy)]
pub struct Region {
    pub arena: usize,
    pub off: usize,
    pub bytes: usize,
    pub ro: bool,
    /// elements which a user's collection makes up in front of these
    pub shift: usize,
}

impl Region {
    pub fn new<S: Elem>(len: usize, place: Place, skew: usize, ro: bool) -> Region {
        let sz = std::mem::size_of::<S>();
        let bytes = len * sz;
        let arena = unsafe {
            if bytes <= DATA {
                NEXT += 1;
                assert!(NEXT <= ARENAS, "out of arenas");
                NEXT - 1
            } else {
                NEXT_BIG += 1;
                assert!(NEXT_BIG <= BIGS && bytes <= BIG, "out of big arenas");
                count(C::probe_big);
                ARENAS + NEXT_BIG - 1
            }
        };
        let size = view(arena).1;
        let off = match place {
            Place::High => size - bytes,
            Place::Low => 0,
            Place::Middle => ((size - bytes) / 2 / 64 * 64 + skew * sz).min(size - bytes) / sz * sz,
        };
        count(match place { Place::Low => C::probe_guard_low, Place::High => C::probe_guard_high, _ => C::ops });
        if ro { count(C::probe_readonly_input) }
        let r = Region { arena, off, bytes, ro, shift: 0 };
        let (lo, hi) = if bytes <= DATA { (0, size) } else { (off.saturating_sub(2 * PAGE), (off + bytes + 2 * PAGE).min(size)) };
        unsafe { std::ptr::write_bytes(r.harness_base().add(lo), ISLE, hi - lo) }
        r
    }
    fn harness_base(&self) -> *mut u8 {
        unsafe { (SELF + at(self.arena)) as *mut u8 }
    }
    /// As the library sees it.
    pub fn lib(&self) -> *mut u8 {
        unsafe { ((if self.ro { RO } else { RW }) + view(self.arena).0 + self.off) as *mut u8 }
    }
    /// As the harness sees it.
    pub fn own(&self) -> *mut u8 {
        unsafe { self.harness_base().add(self.off) }
    }
    pub fn put<S: Elem>(&self, i: usize, bits: u64) {
        unsafe { (self.own() as *mut S).add(i).write_unaligned(S::from_bits64(bits)) }
    }
    pub fn get<S: Elem>(&self, i: usize) -> u64 {
        unsafe { (self.own() as *mut S).add(i).read_unaligned().bits64() }
    }
    pub fn len<S: Elem>(&self) -> usize {
        self.bytes / std::mem::size_of::<S>()
    }
    /// The number of the first byte around the buffer that was changed, if any.
    pub fn spilled(&self) -> Option<isize> {
        let size = view(self.arena).1;
        let b = unsafe { std::slice::from_raw_parts(self.harness_base(), size) };
        // only look at a window around the buffer: a stray vector store cannot be further off
        let lo = self.off.saturating_sub(128);
        let hi = (self.off + self.bytes + 128).min(size);
        for i in (lo..self.off).chain(self.off + self.bytes..hi) {
            if b[i] != ISLE {
                return Some(i as isize - self.off as isize);
            }
        }
        None
    }
    pub unsafe fn slice<S: Elem>(&self) -> &'static [S] {
        std::slice::from_raw_parts(self.lib() as *const S, self.len::<S>())
    }
    pub unsafe fn slice_mut<S: Elem>(&self) -> &'static mut [S] {
        std::slice::from_raw_parts_mut(self.lib() as *mut S, self.len::<S>())
    }
}

pub fn draw_place() -> (Place, usize) {
    match draw(4) {
        0 => (Place::Middle, draw(16) as usize),
        1 => (Place::Low, 0),
        _ => (Place::High, 0),
    }
}

/// How many bytes of an arena are mapped.
pub fn mapped(arena: usize) -> usize { view(arena).1 }
