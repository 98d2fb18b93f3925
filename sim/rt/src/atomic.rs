//! Atomics that are scheduling points: before every access the simulator may
//! let another thread run. Executed one thread at a time, so all accesses are
//! sequentially consistent.
pub use std::sync::atomic::Ordering;
use std::sync::atomic as sa;

macro_rules! int_like {
    ($name:ident, $inner:ident, $t:ty) => {
        #[derive(Debug, Default)]
        pub struct $name(sa::$inner);
        impl $name {
            pub const fn new(v: $t) -> Self { Self(sa::$inner::new(v)) }
            pub fn load(&self, _: Ordering) -> $t { crate::point(crate::K_ATOMIC); self.0.load(Ordering::SeqCst) }
            pub fn store(&self, v: $t, _: Ordering) { crate::point(crate::K_ATOMIC); self.0.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $t, _: Ordering) -> $t { crate::point(crate::K_ATOMIC); self.0.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                crate::point(crate::K_ATOMIC);
                self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, s, f)
            }
            #[allow(deprecated)]
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> {
                crate::point(crate::K_ATOMIC);
                self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f)
            }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
        }
    };
}
int_like!(AtomicUsize, AtomicUsize, usize);
int_like!(AtomicBool, AtomicBool, bool);
impl AtomicUsize {
    pub fn fetch_add(&self, v: usize, _: Ordering) -> usize { crate::point(crate::K_ATOMIC); self.0.fetch_add(v, Ordering::SeqCst) }
    pub fn fetch_sub(&self, v: usize, _: Ordering) -> usize { crate::point(crate::K_ATOMIC); self.0.fetch_sub(v, Ordering::SeqCst) }
    pub fn fetch_max(&self, v: usize, _: Ordering) -> usize { crate::point(crate::K_ATOMIC); self.0.fetch_max(v, Ordering::SeqCst) }
    pub fn fetch_min(&self, v: usize, _: Ordering) -> usize { crate::point(crate::K_ATOMIC); self.0.fetch_min(v, Ordering::SeqCst) }
}
impl AtomicBool {
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { crate::point(crate::K_ATOMIC); self.0.fetch_or(v, Ordering::SeqCst) }
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { crate::point(crate::K_ATOMIC); self.0.fetch_and(v, Ordering::SeqCst) }
}
#[derive(Debug)]
pub struct AtomicPtr<T>(sa::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self { Self(sa::AtomicPtr::new(v)) }
    pub fn load(&self, _: Ordering) -> *mut T { crate::point(crate::K_ATOMIC); self.0.load(Ordering::SeqCst) }
    pub fn store(&self, v: *mut T, _: Ordering) { crate::point(crate::K_ATOMIC); self.0.store(v, Ordering::SeqCst) }
    pub fn swap(&self, v: *mut T, _: Ordering) -> *mut T { crate::point(crate::K_ATOMIC); self.0.swap(v, Ordering::SeqCst) }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
        crate::point(crate::K_ATOMIC);
        self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
    }
}
