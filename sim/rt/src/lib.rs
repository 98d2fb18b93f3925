//! The deterministic scheduler. Simulated threads are real OS threads of which
//! exactly one runs at any time (it holds the baton). At every scheduling point
//! the scheduler, driven by one seed or by a recorded trace, decides who runs
//! next; blocking (futex waits, joins, sleeps) is emulated, so a state in which
//! nobody can run is recognised exactly.
pub mod atomic;
pub mod heap;
mod tsan;

use std::cell::{Cell, UnsafeCell};
use std::ptr::null;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::*};

pub const K_ATOMIC: u8 = 0;
pub const K_ALLOC: u8 = 1;
pub const K_IO: u8 = 2;
pub const K_CALLBACK: u8 = 3;
pub const K_FUTEX: u8 = 4;
pub const K_YIELD: u8 = 5;
pub const K_SPAWN: u8 = 6;
pub const K_BLOCK: u8 = 7;
pub const KINDS: usize = 8;
pub const MAX_THREADS: usize = 256;
/// After so many atomic operations in a row a thread gives way.
const SPIN: u32 = 3000;

// ---------------------------------------------------------------- raw syscalls
#[inline]
pub unsafe fn raw_syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
unsafe fn real_futex_wait(a: &AtomicU32, v: u32) { raw_syscall6(SYS_FUTEX, a as *const _ as usize, 128, v as usize, 0, 0, 0); }
unsafe fn real_futex_wake(a: &AtomicU32) { raw_syscall6(SYS_FUTEX, a as *const _ as usize, 129, 1, 0, 0, 0); }

// ---------------------------------------------------------------- rng
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0x51ed_270b_7a5c_3f01)) }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}

// ---------------------------------------------------------------- configuration
#[derive(Clone, Debug)]
pub enum Strategy {
    /// Switch with the given probability (per 65536) at each kind of point.
    Random([u32; KINDS]),
    /// Priorities, with `d` change points over about `len` steps (PCT).
    Pct { d: u32, len: u64 },
    /// The thread with this number runs only when nobody else can; others as Random(p).
    Starve { victim: u32, p: u32 },
    /// Fixed quantum, round robin.
    RoundRobin { quantum: u64 },
    /// Default policy plus the recorded switches.
    Replay(Vec<(u64, u32)>),
}
#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    pub step_limit: u64,
    pub alloc_points: bool,
    /// Probability (per 65536) that a futex wait returns spuriously.
    pub spurious: u32,
    pub wake_random: bool,
    pub default_threads: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub switches: u64,
    pub threads: u32,
    pub clock_ns: u64,
    pub hash: u64,
    pub spurious: u64,
    pub blocks: u64,
    pub trace: Vec<(u64, u32)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St { Run, Futex { addr: usize, bits: u32, until: u64 }, Sleep { until: u64 }, Join(u32), Drain, Done }
struct Th { go: AtomicU32, st: St, woken: bool, prio: u64, real: usize, yielded: bool }

struct Inner {
    cfg: Config,
    rng: Rng,
    th: Vec<Box<Th>>,
    waitq: Vec<u32>,
    rep: Report,
    quantum: u64,
    /// Atomic operations in a row by the running thread.
    streak: u32,
    change: Vec<u64>,
    low: u64,
    rpos: usize,
    max_threads: u32,
    global: *const (),
    global_drop: Option<unsafe fn(*const ())>,
    evhash: u64,
    /// Time in which every thread slept.
    idle: u64,
}
pub struct Sim { in_: UnsafeCell<Inner> }
unsafe impl Sync for Sim {}

thread_local! {
    static CUR: Cell<*const Sim> = const { Cell::new(null()) };
    static TID: Cell<u32> = const { Cell::new(0) };
    static GUARD: Cell<u32> = const { Cell::new(0) };
}
#[inline]
fn cur() -> Option<&'static Sim> {
    let p = CUR.with(|c| c.get());
    if p.is_null() { None } else { Some(unsafe { &*p }) }
}
pub fn in_sim() -> bool { cur().is_some() }
pub fn tid() -> u32 { TID.with(|t| t.get()) }
/// Runs `f` without scheduling points (harness bookkeeping).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { GUARD.with(|g| g.set(g.get() - 1)); } }
    GUARD.with(|g| g.set(g.get() + 1));
    let _g = G;
    f()
}
fn guarded() -> bool { GUARD.with(|g| g.get()) > 0 }

/// Called when the run cannot go on (deadlock, step limit); must not return.
static ABORT: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
pub fn set_abort(f: fn(&str, Report) -> !) { ABORT.store(f as *mut (), SeqCst); }
fn abort(i: &mut Inner, why: &str) -> ! {
    GUARD.with(|g| g.set(g.get() + 1));
    let p = ABORT.load(SeqCst);
    let rep = i.report();
    if p.is_null() { eprintln!("simrt: {why}"); unsafe { raw_syscall6(231, 99, 0, 0, 0, 0, 0) }; unreachable!() }
    let f: fn(&str, Report) -> ! = unsafe { std::mem::transmute(p) };
    f(why, rep)
}
/// Ends the run with a verdict from inside (used where unwinding is not possible).
pub fn abort_run(why: &str) -> ! {
    match cur() { Some(s) => abort(unsafe { &mut *s.in_.get() }, why), None => panic!("{why}") }
}

impl Inner {
    /// Random bits that a replay reproduces without following the schedule's draws.
    fn stateless(&self, salt: u64) -> u64 { mix(self.cfg.seed ^ mix(self.rep.steps ^ (salt << 48))) }
    fn report(&self) -> Report {
        let mut r = self.rep.clone();
        r.threads = self.max_threads;
        r
    }
    fn note(&mut self, x: u64) { self.rep.hash = (self.rep.hash.rotate_left(5) ^ x).wrapping_mul(0x100_0000_01b3).wrapping_add(x >> 7); }
    fn new_thread(&mut self) -> u32 {
        // Never moves: starting threads look at their entry.
        assert!(self.th.len() < MAX_THREADS, "too many simulated threads");
        let prio = (1u64 << 40) + (self.rng.next() >> 30);
        self.th.push(Box::new(Th { go: AtomicU32::new(0), st: St::Run, woken: false, prio, real: 0, yielded: false }));
        let n = self.th.iter().filter(|t| t.st != St::Done).count() as u32;
        self.max_threads = self.max_threads.max(n);
        self.th.len() as u32 - 1
    }
    fn expire(&mut self) {
        let now = self.rep.clock_ns;
        for k in 0..self.th.len() {
            match self.th[k].st {
                St::Sleep { until } if until <= now => self.th[k].st = St::Run,
                St::Futex { until, .. } if until <= now => {
                    self.th[k].st = St::Run;
                    self.th[k].woken = false;
                    self.waitq.retain(|w| *w != k as u32);
                }
                _ => {}
            }
        }
    }
    /// Chooses who runs next. `me` is running (or has just blocked).
    fn pick(&mut self, me: u32, mut kind: u8) -> u32 {
        // The scheduler is fair in the end: who only spins on atomics gives way at some point.
        if kind == K_ATOMIC {
            self.streak += 1;
            if self.streak > SPIN { self.streak = 0; kind = K_YIELD; }
        } else { self.streak = 0; }
        self.rep.steps += 1;
        self.rep.clock_ns += 1000;
        if self.rep.steps > self.cfg.step_limit { abort(self, "step-limit"); }
        let step = self.rep.steps;
        let mut run: [u32; 64] = [0; 64];
        let mut n = 0;
        let mut timed = false;
        for round in 0..2 {
            n = 0;
            timed = false;
            let mut alldone = true;
            for (k, t) in self.th.iter().enumerate() {
                match t.st {
                    St::Run => { if n < 64 { run[n] = k as u32; n += 1; } }
                    St::Sleep { .. } => timed = true,
                    St::Futex { until, .. } if until != u64::MAX => timed = true,
                    _ => {}
                }
                if !matches!(t.st, St::Done | St::Drain) { alldone = false; }
            }
            if timed && round == 0 { self.expire(); continue; }
            if n == 0 && alldone {
                if let Some(k) = self.th.iter().position(|t| t.st == St::Drain) { self.th[k].st = St::Run; return k as u32; }
            }
            if !timed || n > 0 { break; }
        }
        if n == 0 && timed {
            let t = self.th.iter().filter_map(|t| match t.st {
                St::Sleep { until } => Some(until),
                St::Futex { until, .. } if until != u64::MAX => Some(until),
                _ => None,
            }).min().unwrap();
            self.idle += t.saturating_sub(self.rep.clock_ns);
            self.rep.clock_ns = self.rep.clock_ns.max(t);
            self.expire();
            for (k, t) in self.th.iter().enumerate() { if t.st == St::Run && n < 64 { run[n] = k as u32; n += 1; } }
        }
        if n == 0 { abort(self, "deadlock"); }
        let run = &run[..n];
        let me_ok = self.th[me as usize].st == St::Run;
        // Threads that yielded stay out until somebody else has run.
        if kind == K_YIELD { self.th[me as usize].yielded = true; }
        let rr = |me: u32| -> u32 { run.iter().copied().find(|t| *t > me).unwrap_or(run[0]) };
        // The default policy: stay, go to the next one when blocked or yielding.
        let dflt = if me_ok && kind != K_YIELD { me } else { rr(me) };
        if n == 1 {
            return run[0];
        }
        let mut elig: [u32; 64] = [0; 64];
        let mut m = 0;
        for t in run { if !self.th[*t as usize].yielded { elig[m] = *t; m += 1; } }
        if m == 0 {
            for t in run { self.th[*t as usize].yielded = false; }
            for t in run { if *t != me || kind != K_YIELD { elig[m] = *t; m += 1; } }
        }
        let elig = &elig[..m];
        let must = !me_ok || kind == K_YIELD;
        let choice = match &self.cfg.strategy {
            Strategy::Replay(tr) => {
                while self.rpos < tr.len() && tr[self.rpos].0 < step { self.rpos += 1; }
                match tr.get(self.rpos) {
                    Some((s, t)) if *s == step && run.contains(t) => *t,
                    _ => dflt,
                }
            }
            Strategy::Random(p) => {
                let p = p[kind as usize];
                if must || (p > 0 && (self.rng.next() & 0xffff) < p as u64) { elig[self.rng.below(m as u64) as usize] } else { me }
            }
            Strategy::Starve { victim, p } => {
                let (v, p) = (*victim, *p);
                if must || me == v || (self.rng.next() & 0xffff) < p as u64 {
                    let mut o: [u32; 64] = [0; 64];
                    let mut c = 0;
                    for t in elig { if *t != v { o[c] = *t; c += 1; } }
                    if c == 0 { elig[self.rng.below(m as u64) as usize] } else { o[self.rng.below(c as u64) as usize] }
                } else { me }
            }
            Strategy::RoundRobin { quantum } => {
                let q = *quantum;
                self.quantum += 1;
                if must || self.quantum >= q { self.quantum = 0; elig.iter().copied().find(|t| *t > me).unwrap_or(elig[0]) } else { me }
            }
            Strategy::Pct { .. } => {
                if kind == K_YIELD || self.change.last().is_some_and(|c| *c <= step) {
                    if kind != K_YIELD { self.change.pop(); }
                    self.low -= 1;
                    self.th[me as usize].prio = self.low;
                }
                elig.iter().copied().max_by_key(|t| (self.th[*t as usize].prio, *t)).unwrap()
            }
        };
        if choice != dflt { self.rep.trace.push((step, choice)); }
        if choice != me {
            self.th[choice as usize].yielded = false;
            self.streak = 0;
        }
        choice
    }
}

impl Sim {
    #[allow(clippy::mut_from_ref)]
    unsafe fn i(&self) -> &mut Inner { &mut *self.in_.get() }
    unsafe fn wait_go(&self, me: u32) {
        let th: *const Th = { let v = &(*self.in_.get()).th; &**v.get_unchecked(me as usize) };
        let go = &(*th).go;
        while go.load(Acquire) == 0 { real_futex_wait(go, 0); }
        go.store(0, Relaxed);
    }
    unsafe fn hand(&self, to: u32) {
        let th: *const Th = &*self.i().th[to as usize];
        (*th).go.store(1, Release);
        real_futex_wake(&(*th).go);
    }
    unsafe fn sched(&self, me: u32, kind: u8) {
        GUARD.with(|g| g.set(g.get() + 1));
        let i = self.i();
        let next = i.pick(me, kind);
        if VERBOSE.load(Relaxed) != 0 { eprintln!("{} {} {} {}", i.rep.steps, kind, me, next); }
        if next != me {
            i.rep.switches += 1;
            let s = i.rep.steps;
            i.note((s << 16) ^ ((kind as u64) << 8) ^ next as u64);
            self.hand(next);
            self.wait_go(me);
        }
        GUARD.with(|g| g.set(g.get() - 1));
    }
}

static VERBOSE: AtomicU32 = AtomicU32::new(0);
/// Prints every switch between threads (debugging).
pub fn set_verbose(on: bool) { VERBOSE.store(on as u32, SeqCst); }
/// A scheduling point.
#[inline]
pub fn point(kind: u8) {
    if let Some(s) = cur() {
        if !guarded() { unsafe { s.sched(tid(), kind) } }
    }
}
#[inline]
pub fn alloc_point() {
    if let Some(s) = cur() {
        if guarded() { return; }
        let cost = ALLOC_NS.load(SeqCst);
        if cost > 0 { WORKED.fetch_add(cost, SeqCst); sleep(cost); }
        else if unsafe { s.i().cfg.alloc_points } { unsafe { s.sched(tid(), K_ALLOC) } }
    }
}
/// Processor time: every allocation outside the harness takes this long, on the simulated clock.
static ALLOC_NS: AtomicU64 = AtomicU64::new(0);
static WORKED: AtomicU64 = AtomicU64::new(0);
/// Starts (or, with 0, stops) charging time for allocations; returns the time charged since the last call.
pub fn charge_allocs(ns: u64) -> u64 { ALLOC_NS.store(ns, SeqCst); WORKED.swap(0, SeqCst) }
pub fn sleep(ns: u64) {
    if let Some(s) = cur() {
        unsafe {
            let until = s.i().rep.clock_ns + ns.max(1);
            s.i().th[tid() as usize].st = St::Sleep { until };
            s.sched(tid(), K_BLOCK);
        }
    }
}
/// Blocks for ever (a source that stalls). Ends in a deadlock verdict unless others finish the run.
/// Simulated time that went by with every thread asleep.
pub fn idle_ns() -> u64 { cur().map_or(0, |s| unsafe { s.i().idle }) }
pub fn now_ns() -> u64 { cur().map_or(0, |s| unsafe { s.i().rep.clock_ns }) }
pub fn steps() -> u64 { cur().map_or(0, |s| unsafe { s.i().rep.steps }) }
/// Mixes an observed event into the run's event hash.
pub fn event(x: u64) { if let Some(s) = cur() { let i = unsafe { s.i() }; i.evhash = mix(i.evhash ^ x); } }
pub fn default_threads() -> usize { cur().map_or(4, |s| unsafe { s.i().cfg.default_threads }) }
/// Deterministic random bits that depend on the run seed and the thread only.
pub fn thread_seed() -> Option<u64> { cur().map(|s| mix(unsafe { s.i().cfg.seed } ^ ((tid() as u64 + 1) << 32)) | 1) }
pub fn rand() -> Option<u64> { cur().map(|s| unsafe { s.i().stateless(99) }) }

pub fn global_pool() -> *const () { cur().map_or(null(), |s| unsafe { s.i().global }) }
/// # Safety
/// `p` must stay valid until `drop` is called at the end of the run.
pub unsafe fn set_global_pool(p: *const (), drop: Option<unsafe fn(*const ())>) {
    if let Some(s) = cur() { s.i().global = p; s.i().global_drop = drop; }
}

// ---------------------------------------------------------------- emulated kernel objects
/// futex(2) for simulated threads; None: not a simulated thread.
/// # Safety
/// `addr` must point to a live u32.
pub unsafe fn futex(addr: usize, op: i32, val: u32, timeout_ns: Option<u64>, abs: bool, bits: u32) -> Option<isize> {
    let s = cur()?;
    let me = tid();
    match op & 127 {
        0 | 9 => {
            let bits = if op & 127 == 0 { u32::MAX } else { bits };
            if !guarded() { s.sched(me, K_FUTEX); }
            if (*(addr as *const AtomicU32)).load(SeqCst) != val { return Some(-11); }
            let i = s.i();
            if i.cfg.spurious > 0 && (i.stateless(1) & 0xffff) < i.cfg.spurious as u64 { i.rep.spurious += 1; return Some(0); }
            let until = match timeout_ns { None => u64::MAX, Some(t) if abs => t, Some(t) => i.rep.clock_ns + t };
            i.th[me as usize].st = St::Futex { addr, bits, until };
            i.th[me as usize].woken = false;
            quiet(|| i.waitq.push(me));
            i.rep.blocks += 1;
            s.sched(me, K_BLOCK);
            Some(if s.i().th[me as usize].woken { 0 } else { -110 })
        }
        1 | 10 => {
            let bits = if op & 127 == 1 { u32::MAX } else { bits };
            if !guarded() { s.sched(me, K_FUTEX); }
            let i = s.i();
            let mut n = 0;
            while n < val as isize {
                let cand: Vec<usize> = quiet(|| i.waitq.iter().enumerate().filter(|(_, t)| {
                    matches!(i.th[**t as usize].st, St::Futex { addr: a, bits: b, .. } if a == addr && b & bits != 0)
                }).map(|(k, _)| k).collect());
                if cand.is_empty() { quiet(|| drop(cand)); break; }
                let k = if i.cfg.wake_random { cand[(i.stateless(2 + n as u64) % cand.len() as u64) as usize] } else { cand[0] };
                quiet(|| drop(cand));
                let t = i.waitq.remove(k);
                i.th[t as usize].st = St::Run;
                i.th[t as usize].woken = true;
                n += 1;
            }
            Some(n)
        }
        _ => Some(-38),
    }
}

/// Registers a thread about to be created by a simulated thread; returns a token for `thread_main`.
pub fn thread_register() -> Option<(usize, u32)> {
    let s = cur()?;
    let t = quiet(|| unsafe { s.i().new_thread() });
    Some((s as *const Sim as usize, t))
}
/// After creation: the creator may be preempted here.
pub fn thread_created(t: u32, real: usize) {
    if let Some(s) = cur() { unsafe { s.i().th[t as usize].real = real; if !guarded() { s.sched(tid(), K_SPAWN); } } }
}
/// Creation failed: forget the thread.
pub fn thread_failed(t: u32) { if let Some(s) = cur() { unsafe { s.i().th[t as usize].st = St::Done; } } }
/// Body of a simulated thread.
/// # Safety
/// `tok` comes from thread_register.
pub unsafe fn thread_main(tok: (usize, u32), f: impl FnOnce() -> usize) -> usize {
    let s = &*(tok.0 as *const Sim);
    CUR.with(|c| c.set(s));
    TID.with(|c| c.set(tok.1));
    s.wait_go(tok.1);
    let r = f();
    // The thread's own data is destroyed after this returns; that belongs to the simulation, too.
    EXIT.with(|e| e.set(1));
    pthread_setspecific(exit_key(), 1 as *const ());
    r
}
extern "C" {
    fn pthread_key_create(key: *mut u32, f: Option<unsafe extern "C" fn(*mut ())>) -> i32;
    fn pthread_setspecific(key: u32, v: *const ()) -> i32;
}
thread_local! { static EXIT: Cell<u32> = const { Cell::new(0) }; }
static KEY: AtomicU32 = AtomicU32::new(0);
/// Created before the first thread starts; kept off by one.
fn exit_key() -> u32 {
    if KEY.load(SeqCst) == 0 {
        let mut k = 0;
        assert_eq!(unsafe { pthread_key_create(&mut k, Some(at_exit)) }, 0);
        KEY.store(k + 1, SeqCst);
    }
    KEY.load(SeqCst) - 1
}
/// Runs among the last destructors of a thread: asks to be called again until the others are done.
unsafe extern "C" fn at_exit(_: *mut ()) {
    let n = EXIT.with(|e| { e.set(e.get() + 1); e.get() });
    if n < 4 { pthread_setspecific(exit_key(), 1 as *const ()); return; }
    let p = CUR.with(|c| c.get());
    if p.is_null() { return; }
    let s = &*p;
    GUARD.with(|g| g.set(g.get() + 1));
    let me = tid();
    let i = s.i();
    i.th[me as usize].st = St::Done;
    for t in i.th.iter_mut() { if t.st == St::Join(me) { t.st = St::Run; } }
    let next = i.pick(me, K_BLOCK);
    i.rep.switches += 1;
    let st = i.rep.steps;
    i.note((st << 16) ^ 0xff00 ^ next as u64);
    CUR.with(|c| c.set(null()));
    s.hand(next);
}

/// Blocks until the simulated thread with this pthread handle is done (false: not one of ours).
pub fn join(real: usize) -> bool {
    let Some(s) = cur() else { return false };
    unsafe {
        let i = s.i();
        let Some(t) = i.th.iter().rposition(|t| t.real == real) else { return false };
        if !guarded() { s.sched(tid(), K_FUTEX); }
        let i = s.i();
        if i.th[t].st != St::Done {
            i.th[tid() as usize].st = St::Join(t as u32);
            s.sched(tid(), K_BLOCK);
        }
        true
    }
}

/// Runs `f` as the root thread of a simulation and waits until every thread it left behind is done.
pub fn run<R: Send>(cfg: Config, f: impl FnOnce() -> R + Send) -> (R, Report, u64) {
    assert!(!in_sim());
    exit_key();
    let mut rng = Rng::new(cfg.seed);
    let mut change = vec![];
    if let Strategy::Pct { d, len } = &cfg.strategy {
        for _ in 0..*d { change.push(1 + rng.below((*len).max(1))); }
        change.sort_by(|a, b| b.cmp(a));
    }
    let sim = Sim { in_: UnsafeCell::new(Inner {
        cfg, rng, th: Vec::with_capacity(MAX_THREADS), waitq: Vec::with_capacity(MAX_THREADS), rep: Report::default(), quantum: 0, streak: 0, change,
        low: 1 << 39, rpos: 0, max_threads: 0, global: null(), global_drop: None, evhash: 0, idle: 0,
    }) };
    let simref = &sim;
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
            unsafe { simref.i().new_thread() };
            CUR.with(|c| c.set(simref));
            TID.with(|c| c.set(0));
            let r = f();
            unsafe {
                let i = simref.i();
                if let Some(d) = i.global_drop.take() { let p = i.global; d(p); }
                simref.i().global = null();
                // Let the threads that are left finish.
                if simref.i().th.iter().skip(1).any(|t| t.st != St::Done) {
                    simref.i().th[0].st = St::Drain;
                    simref.sched(0, K_BLOCK);
                }
            }
            CUR.with(|c| c.set(null()));
            r
        }).expect("spawn").join()
    });
    let i = sim.in_.into_inner();
    let rep = i.report();
    match r { Ok(r) => (r, rep, i.evhash), Err(e) => std::panic::resume_unwind(e) }
}
