//! The atomic operations of the library under test and of std code compiled into
//! it: the compiler replaces each one by a call of a function defined here (the
//! interface of the thread sanitizer, whose runtime is not linked). Every call is
//! a scheduling point.
use std::ffi::c_int;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

#[inline]
fn pt() { crate::point(crate::K_ATOMIC); }

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $strong:ident $weak:ident $val:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $a, _: c_int) -> $t { pt(); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: c_int) { pt(); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: c_int) -> $t { pt(); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $strong(p: *const $a, c: *mut $t, v: $t, _: c_int, _: c_int) -> c_int {
            pt();
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $weak(p: *const $a, c: *mut $t, v: $t, s: c_int, f: c_int) -> c_int { $strong(p, c, v, s, f) }
        #[no_mangle] pub unsafe extern "C" fn $val(p: *const $a, c: $t, v: $t, _: c_int, _: c_int) -> $t {
            pt();
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);

#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: c_int) { pt(); }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: c_int) {}

// Not instrumented (see rustc.sh), defined so that any of them links.
macro_rules! nothing { ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(_: usize, _: usize) {} )* } }
nothing! { __tsan_init __tsan_func_entry __tsan_func_exit __tsan_ignore_thread_begin __tsan_ignore_thread_end
    __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
    __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16
    __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
    __tsan_read_range __tsan_write_range __tsan_vptr_read __tsan_vptr_update }
