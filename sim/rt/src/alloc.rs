//! Allocator that accounts for memory while a measured section runs and can refuse absurd requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
pub struct Track;
static ON: AtomicBool = AtomicBool::new(false);
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static REFUSED: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
fn add(n: usize) { if ON.load(Relaxed) { let c = CUR.fetch_add(n, Relaxed) + n; PEAK.fetch_max(c, Relaxed); BIGGEST.fetch_max(n, Relaxed); } }
fn sub(n: usize) { if ON.load(Relaxed) { let _ = CUR.fetch_update(Relaxed, Relaxed, |c| Some(c.saturating_sub(n))); } }
fn refuse(n: usize) -> bool { if ON.load(Relaxed) && n > LIMIT.load(Relaxed) { REFUSED.fetch_max(n, Relaxed); return true; } false }
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) { return std::ptr::null_mut(); }
        let p = System.alloc(l);
        // fresh memory has a fixed content, so that reading it is repeatable
        if ON.load(Relaxed) && !p.is_null() && l.size() <= 1 << 20 { std::ptr::write_bytes(p, 0xA5, l.size()); }
        add(l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if refuse(l.size()) { return std::ptr::null_mut(); } add(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { sub(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if refuse(n) { return std::ptr::null_mut(); } if n > l.size() { add(n - l.size()); } else { sub(l.size() - n); } let q = System.realloc(p, l, n); if ON.load(Relaxed) && !q.is_null() && n > l.size() && n <= 1 << 20 { std::ptr::write_bytes(q.add(l.size()), 0xA5, n - l.size()); } q }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Usage { pub peak: usize, pub biggest: usize, pub refused: usize }
/// accounts for everything `f` allocates; requests above `limit` fail
pub fn measure<T>(limit: usize, f: impl FnOnce() -> T) -> (T, Usage) {
    CUR.store(0, Relaxed); PEAK.store(0, Relaxed); BIGGEST.store(0, Relaxed); REFUSED.store(0, Relaxed); LIMIT.store(limit, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    (r, Usage { peak: PEAK.load(Relaxed), biggest: BIGGEST.load(Relaxed), refused: REFUSED.load(Relaxed) })
}
pub fn off() { ON.store(false, Relaxed) }
pub fn refused() -> usize { REFUSED.load(Relaxed) }
