//! The system call seam: the C library entry points through which std, rayon and
//! memmap2 create threads, wait, and touch files, defined here and therefore used
//! by everything in this program. Calls of threads that are not simulated, and of
//! files that do not belong to the simulation, go straight to the kernel.
use crate::stream::{Act, Log, Plan, State, KINDS};
use serde::{Deserialize, Serialize};
use simrt::raw_syscall6 as sys;
use std::cell::UnsafeCell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 { *libc::__errno_location() = -r as i32; -1 } else { r }
}
unsafe fn fail(e: i32) -> isize { ret(-(e as isize)) }

// ---------------------------------------------------------------- files
/// Calls that can be made to fail.
pub const CALLS: &[&str] = &["open", "lseek", "stat", "mmap", "read"];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SysFault { pub call: u8, pub nth: u32, pub errno: i32, pub count: u32 }

pub struct Files {
    pub active: bool,
    pub prefix: Vec<u8>,
    pub st: State,
    pub sys: Vec<SysFault>,
    pub n: [u32; 5],
    pub fired: Vec<(u8, i32)>,
    /// fd -> position
    pub fds: Vec<(i32, u64)>,
    pub maps: Vec<(usize, usize)>,
    pub opens: u32,
    pub closes: u32,
    pub mmaps: u32,
    pub munmaps: u32,
}
struct Glob(UnsafeCell<Option<Files>>);
unsafe impl Sync for Glob {}
static FILES: Glob = Glob(UnsafeCell::new(None));
/// Only the running simulated thread (or the harness outside a run) gets here.
#[allow(static_mut_refs, clippy::mut_from_ref)]
pub fn files() -> &'static mut Option<Files> { unsafe { &mut *FILES.0.get() } }
pub fn start_files(prefix: &str, plan: &Plan, faults: &[SysFault]) {
    *files() = Some(Files { active: true, prefix: prefix.as_bytes().to_vec(), st: State::new(plan), sys: faults.to_vec(), n: [0; 5], fired: vec![], fds: vec![], maps: vec![], opens: 0, closes: 0, mmaps: 0, munmaps: 0 });
}
pub fn stop_files() -> Option<Files> { files().take() }
pub fn file_log() -> Log { files().as_ref().map(|f| f.st.log.clone()).unwrap_or_default() }
pub fn file_hard() -> u64 { files().as_ref().map_or(0, |f| f.st.hard()) }

fn act() -> Option<&'static mut Files> {
    if !simrt::in_sim() { return None; }
    files().as_mut().filter(|f| f.active)
}
impl Files {
    fn hit(&mut self, call: u8) -> Option<i32> {
        let n = self.n[call as usize];
        self.n[call as usize] += 1;
        for f in &self.sys {
            // (A failure has a number: 0, to which a scenario may be shortened, is none.)
            if f.errno > 0 && f.call == call && n >= f.nth && n < f.nth.saturating_add(f.count) {
                self.fired.push((call, f.errno));
                return Some(f.errno);
            }
        }
        None
    }
    fn fd(&mut self, fd: i32) -> Option<usize> { self.fds.iter().position(|x| x.0 == fd) }
    pub fn leaks(&self) -> Option<String> {
        if !self.fds.is_empty() { return Some(format!("{} of {} descriptors not closed", self.fds.len(), self.opens)); }
        if !self.maps.is_empty() { return Some(format!("{} of {} mappings not unmapped", self.maps.len(), self.mmaps)); }
        None
    }
}
unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Some(f) = act() {
        let p = CStr::from_ptr(path).to_bytes();
        if p.starts_with(&f.prefix) {
            return simrt::quiet(|| {
                if let Some(e) = f.hit(0) { return fail(e) as c_int; }
                let r = sys(257, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0);
                if r >= 0 { f.opens += 1; f.fds.push((r as i32, 0)); }
                ret(r) as c_int
            });
        }
    }
    ret(sys(257, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(path, flags, mode) }
unsafe fn file_len(fd: i32) -> u64 {
    let cur = sys(8, fd as usize, 0, 1, 0, 0, 0);
    let end = sys(8, fd as usize, 0, 2, 0, 0, 0);
    sys(8, fd as usize, cur as usize, 0, 0, 0, 0);
    end.max(0) as u64
}
unsafe fn do_read(fd: c_int, buf: *mut c_void, n: usize, at: Option<u64>) -> isize {
    if let Some(f) = act() {
        if let Some(k) = f.fd(fd) {
            simrt::point(simrt::K_IO);
            return simrt::quiet(|| {
                if let Some(e) = f.hit(4) { return fail(e); }
                let pos = at.unwrap_or(f.fds[k].1);
                match f.st.on_read(pos, n, file_len(fd)) {
                    Act::Give(m) => {
                        let r = sys(17, fd as usize, buf as usize, m, pos as usize, 0, 0);
                        if r > 0 && at.is_none() {
                            f.fds[k].1 += r as u64;
                            sys(8, fd as usize, f.fds[k].1 as usize, 0, 0, 0, 0);
                        }
                        simrt::event(pos << 20 ^ r as u64);
                        ret(r)
                    }
                    Act::Eof => 0,
                    Act::Fail(e) => fail(KINDS[e as usize % KINDS.len()].1),
                    Act::Intr => fail(libc::EINTR),
                }
            });
        }
    }
    match at {
        None => ret(sys(0, fd as usize, buf as usize, n, 0, 0, 0)),
        Some(p) => ret(sys(17, fd as usize, buf as usize, n, p as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize { do_read(fd, buf, n, None) }
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize { do_read(fd, buf, n, Some(off as u64)) }
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if act().is_some_and(|f| f.fd(fd).is_some()) && n > 0 {
        for k in 0..n as usize {
            let x = &*v.add(k);
            if x.iov_len > 0 { return do_read(fd, x.iov_base, x.iov_len, None); }
        }
        return 0;
    }
    ret(sys(19, fd as usize, v as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Some(f) = act() {
        if let Some(k) = f.fd(fd) {
            simrt::point(simrt::K_IO);
            return simrt::quiet(|| {
                if let Some(e) = f.hit(1) { return fail(e) as i64; }
                if let Some(e) = f.st.on_seek() { return fail(KINDS[e as usize % KINDS.len()].1) as i64; }
                let r = sys(8, fd as usize, off as usize, whence as usize, 0, 0, 0);
                if r >= 0 { f.fds[k].1 = r as u64; }
                ret(r) as i64
            });
        }
    }
    ret(sys(8, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 { lseek64(fd, off, whence) }
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(f) = act() {
        simrt::quiet(|| if let Some(k) = f.fd(fd) { f.fds.swap_remove(k); f.closes += 1; });
    }
    ret(sys(3, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn do_mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    if let Some(f) = act() {
        if fd >= 0 && f.fd(fd).is_some() {
            return simrt::quiet(|| {
                if let Some(e) = f.hit(3) { return fail(e) as *mut c_void; }
                let r = sys(9, a as usize, len, prot as usize, flags as usize, fd as usize, off as usize);
                if r >= 0 || r < -4096 { f.mmaps += 1; f.maps.push((r as usize, len)); }
                ret(r) as *mut c_void
            });
        }
    }
    ret(sys(9, a as usize, len, prot as usize, flags as usize, fd as usize, off as usize)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void { do_mmap(a, len, prot, flags, fd, off) }
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void { do_mmap(a, len, prot, flags, fd, off) }
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, len: usize) -> c_int {
    if let Some(f) = act() {
        simrt::quiet(|| if let Some(k) = f.maps.iter().position(|m| m.0 <= a as usize && (a as usize) < m.0 + m.1) { f.maps.swap_remove(k); f.munmaps += 1; });
    }
    ret(sys(11, a as usize, len, 0, 0, 0, 0)) as c_int
}
/// std asks for a file's size through statx.
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    if let Some(f) = act() {
        let named = !path.is_null() && CStr::from_ptr(path).to_bytes().starts_with(&f.prefix);
        if named || f.fd(fd).is_some() {
            if let Some(e) = simrt::quiet(|| f.hit(2)) { return fail(e) as c_int; }
        }
    }
    ret(sys(332, fd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    if let Some(f) = act() {
        if f.fd(fd).is_some() { if let Some(e) = simrt::quiet(|| f.hit(2)) { return fail(e) as c_int; } }
    }
    ret(sys(5, fd as usize, buf as usize, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- threads, waiting, randomness
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
unsafe fn real(slot: &AtomicUsize, name: &CStr) -> usize {
    let mut p = slot.load(Ordering::SeqCst);
    if p == 0 { p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize; slot.store(p, Ordering::SeqCst); }
    p
}
/// Looks the real functions up before the first run.
pub fn warm() { unsafe { real(&REAL_CREATE, c"pthread_create"); real(&REAL_JOIN, c"pthread_join"); } }
struct Boot { f: Start, a: *mut c_void, tok: (usize, u32) }
extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = simrt::quiet(|| *Box::from_raw(p as *mut Boot));
        simrt::thread_main(b.tok, || (b.f)(b.a) as usize) as *mut c_void
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const c_void, f: Start, a: *mut c_void) -> c_int {
    let create: CreateFn = std::mem::transmute(real(&REAL_CREATE, c"pthread_create"));
    match simrt::thread_register() {
        None => create(t, attr, f, a),
        Some(tok) => {
            let b = simrt::quiet(|| Box::into_raw(Box::new(Boot { f, a, tok })));
            let r = create(t, attr, boot, b as *mut c_void);
            if r == 0 { simrt::thread_created(tok.1, *t as usize); } else { simrt::thread_failed(tok.1); drop(Box::from_raw(b)); }
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let join: JoinFn = std::mem::transmute(real(&REAL_JOIN, c"pthread_join"));
    simrt::join(t as usize);
    join(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simrt::in_sim() { simrt::point(simrt::K_YIELD); return 0; }
    ret(sys(24, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simrt::in_sim() { simrt::sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64); return 0; }
    ret(sys(35, t as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simrt::in_sim() {
        let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        simrt::sleep(if flags & 1 != 0 { ns.saturating_sub(simrt::now_ns()) } else { ns });
        return 0;
    }
    (-sys(230, c as usize, flags as usize, t as usize, rem as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if simrt::in_sim() {
        let n = simrt::now_ns() + if c == 0 { 1_700_000_000_000_000_000 } else { 0 };
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys(228, c as usize, t as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if simrt::in_sim() {
        let mut r = simrt::Rng::new(simrt::rand().unwrap_or(1));
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for b in s { *b = r.next() as u8; }
        return n as isize;
    }
    ret(sys(318, buf as usize, n, flags as usize, 0, 0, 0))
}
/// std's mutexes, condition variables, once cells and parking use futex through this.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == 202 && simrt::in_sim() {
        let op = b as i32;
        let ts = d as *const libc::timespec;
        let wait = matches!(op & 127, 0 | 9);
        let t = (wait && !ts.is_null()).then(|| (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64);
        if let Some(r) = simrt::futex(a, op, c as u32, t, op & 127 == 9, f as u32) { return ret(r) as c_long; }
    }
    if n == 318 && simrt::in_sim() { return getrandom(a as *mut c_void, b, c as u32) as c_long; }
    ret(sys(n, a, b, c, d, e, f)) as c_long
}

// ---------------------------------------------------------------- crashes
/// std's overflow handler keeps a map of threads ordered by address, whose allocations no seed decides.
/// It is not installed when another handler is there before main.
extern "C" fn before_main() {
    extern "C" fn crash(sig: c_int) { unsafe { libc::signal(sig, libc::SIG_DFL); } }
    unsafe {
        libc::signal(libc::SIGSEGV, crash as extern "C" fn(c_int) as usize);
        libc::signal(libc::SIGBUS, crash as extern "C" fn(c_int) as usize);
    }
}
#[used]
#[link_section = ".init_array"]
static BEFORE_MAIN: extern "C" fn() = before_main;
