//! The memory seam: the global allocator counts live bytes and is a scheduling point.
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Alloc;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// An allocation request beyond this is refused by aborting the run.
pub static CEIL: AtomicUsize = AtomicUsize::new(usize::MAX);
fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Ordering::Relaxed).wrapping_add(n);
    if (l as isize) > PEAK.load(Ordering::Relaxed) as isize {
        PEAK.store(l, Ordering::Relaxed);
        if l > CEIL.load(Ordering::Relaxed) && crate::in_sim() { CEIL.store(usize::MAX, Ordering::Relaxed); crate::abort_run("memory-runaway"); }
    }
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { grow(l.size()); crate::alloc_point(); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size(), Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { grow(l.size()); crate::alloc_point(); std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        // Like the C allocator, count old and new together only when growing.
        if n > l.size() { grow(n - l.size()); } else { LIVE.fetch_sub(l.size() - n, Ordering::Relaxed); }
        crate::alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
}
pub fn reset_peak() -> usize { let l = LIVE.load(Ordering::Relaxed); PEAK.store(l, Ordering::Relaxed); l }
/// Highest number of live heap bytes since reset_peak, beyond `base`.
pub fn peak_since(base: usize) -> usize { PEAK.load(Ordering::Relaxed).saturating_sub(base) }
