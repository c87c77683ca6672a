//! Seams below the code under test: OS randomness (HashMap seeds) and the allocator.
use crate::prng::Prng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static RAND_STATE: AtomicU64 = AtomicU64::new(0x1234);

/// Seeds every later request for OS randomness in this process.
pub fn seed_os_randomness(seed: u64) {
    RAND_STATE.store(seed, Relaxed);
}

/// Replaces libc's getrandom for the whole process: the standard library seeds its hash maps from
/// it, so hash map iteration order becomes a function of the run seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let s = RAND_STATE.fetch_add(0x9e3779b97f4a7c15, Relaxed);
    let mut p = Prng::new(s);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for b in out.iter_mut() {
        *b = p.next() as u8;
    }
    len as libc::ssize_t
}

/// Allocator wrapper which measures allocation volume: the deterministic "work" clock used to
/// bound how much a verification may consume for an input of a given size.
pub struct Meter;
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

fn on_alloc(n: usize) {
    let c = CUR.fetch_add(n as i64, Relaxed) + n as i64;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
    }
    TOTAL.fetch_add(n as u64, Relaxed);
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        CUR.fetch_sub(l.size() as i64, Relaxed);
        on_alloc(new);
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static ALLOC: Meter = Meter;

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: u64,
    pub total: u64,
}

pub fn meter<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let t0 = TOTAL.load(Relaxed);
    let r = f();
    let u = Usage {
        peak: (PEAK.load(Relaxed) - base).max(0) as u64,
        total: TOTAL.load(Relaxed) - t0,
    };
    (r, u)
}
