//! Global allocator with red zones and counters.
//!
//! Every heap block is surrounded by 64 patterned bytes on both sides, which are verified when the
//! block is released; released memory is overwritten. Under Miri the system allocator is used as is.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct RedZone;
pub static CORRUPT: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static PEAK: AtomicU64 = AtomicU64::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
const RZ: usize = 64;
const PAT: u8 = 0xB7;

fn outer(l: Layout) -> (Layout, usize) {
    let a = l.align().max(16);
    let front = RZ.max(a);
    (
        Layout::from_size_align(l.size().saturating_add(front + RZ), a).unwrap_or(l),
        front,
    )
}
fn note(size: usize) {
    COUNT.fetch_add(1, Relaxed);
    BYTES.fetch_add(size as u64, Relaxed);
    let live = LIVE.fetch_add(size as u64, Relaxed) + size as u64;
    PEAK.fetch_max(live, Relaxed);
}
unsafe fn dress(p: *mut u8, l: Layout, front: usize) -> *mut u8 {
    std::ptr::write_bytes(p.add(front - RZ), PAT, RZ);
    std::ptr::write_bytes(p.add(front + l.size()), PAT, RZ);
    p.add(front)
}
unsafe impl GlobalAlloc for RedZone {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if cfg!(miri) {
            note(l.size());
            return System.alloc(l);
        }
        if l.size() > (isize::MAX as usize) / 2 {
            return std::ptr::null_mut();
        }
        let (o, front) = outer(l);
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        note(l.size());
        // fresh memory never looks like zeros by accident
        if l.size() <= 1 << 16 {
            std::ptr::write_bytes(p.add(front), 0xA5, l.size());
        }
        dress(p, l, front)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if cfg!(miri) {
            note(l.size());
            return System.alloc_zeroed(l);
        }
        if l.size() > (isize::MAX as usize) / 2 {
            return std::ptr::null_mut();
        }
        let (o, front) = outer(l);
        let p = System.alloc_zeroed(o);
        if p.is_null() {
            return p;
        }
        note(l.size());
        dress(p, l, front)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        if cfg!(miri) {
            return System.dealloc(p, l);
        }
        let (o, front) = outer(l);
        let before = std::slice::from_raw_parts(p.sub(RZ), RZ);
        let after = std::slice::from_raw_parts(p.add(l.size()), RZ);
        if before.iter().any(|&b| b != PAT) || after.iter().any(|&b| b != PAT) {
            CORRUPT.store(true, Relaxed);
        }
        if l.size() <= 1 << 20 {
            std::ptr::write_bytes(p, 0xC5, l.size());
        }
        System.dealloc(p.sub(front), o)
    }
}

/// Allocation activity during `f`: (number of allocations, bytes allocated, peak additional live bytes).
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64, u64, u64) {
    let (c, b, live) = (COUNT.load(Relaxed), BYTES.load(Relaxed), LIVE.load(Relaxed));
    PEAK.store(live, Relaxed);
    let r = f();
    (
        r,
        COUNT.load(Relaxed) - c,
        BYTES.load(Relaxed) - b,
        PEAK.load(Relaxed).saturating_sub(live),
    )
}

/// (number of allocations, bytes allocated) so far
pub fn counters() -> (u64, u64) {
    (COUNT.load(Relaxed), BYTES.load(Relaxed))
}
