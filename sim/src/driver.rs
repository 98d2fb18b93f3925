//! Seeded batches over worker processes, minimisation, replay, evidence.
use crate::gen::G;
use crate::props::{self, Prop};
use crate::scn::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

const HANG_S: u64 = 90;
/// So long without a line from a worker: it is moved to other processors.
const STALL_S: u64 = 10;
/// One in so many runs of the parallel properties starts in a fresh process.
const FRESH: u64 = 16;

// ---------------------------------------------------------------- one run
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub viol: Option<Viol>,
    /// An error of the harness, not a finding.
    pub broken: Option<String>,
    pub trace: Vec<(u64, u32)>,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub clock_us: u64,
    pub threads: u32,
    pub sched_hash: u64,
    pub spurious: u64,
    pub blocks: u64,
    #[serde(skip)]
    pub stats: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub sig: u64,
    pub skipped: bool,
}
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
thread_local! { static MINE: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) }; }
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        simrt::quiet(|| {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| if i.payload().is::<SimPanic>() { "sim".into() } else { "?".into() });
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("OSMSIM_PANICS").is_some() { eprintln!("panic {msg} at {loc}"); }
            MINE.with(|m| *m.borrow_mut() = Some((msg.clone(), loc.clone())));
            *LAST_PANIC.lock().unwrap() = Some((msg, loc));
        })
    }));
}
/// Message and place of the last panic on this thread (or on any).
pub fn last_panic() -> (String, String) {
    simrt::quiet(|| MINE.with(|m| m.borrow_mut().take()).or_else(|| LAST_PANIC.lock().unwrap().take()).unwrap_or_default())
}
fn strategy(s: &Sched) -> simrt::Strategy {
    use simrt::Strategy as T;
    match &s.strat {
        Strat::Default => T::Replay(vec![]),
        Strat::Random(a, i, c, f) => {
            let mut p = [0; simrt::KINDS];
            p[simrt::K_ATOMIC as usize] = *a;
            p[simrt::K_ALLOC as usize] = *a / 4;
            p[simrt::K_IO as usize] = *i;
            p[simrt::K_CALLBACK as usize] = *c;
            p[simrt::K_FUTEX as usize] = *f;
            p[simrt::K_SPAWN as usize] = *f;
            T::Random(p)
        }
        Strat::Pct(d, len) => T::Pct { d: *d, len: *len },
        Strat::Starve(v, p) => T::Starve { victim: *v, p: *p },
        Strat::RoundRobin(q) => T::RoundRobin { quantum: *q },
        Strat::Replay(t) => T::Replay(t.clone()),
    }
}
pub fn gen_sched(g: &mut G) -> Sched {
    let strat = match g.n(10) {
        0..=3 => { let p = g.pick(&[600, 3000, 12_000, 33_000]); Strat::Random(g.pick(&[p, p / 4, p]), g.pick(&[p, 30_000, 0]), g.pick(&[p, 30_000, 0]), g.pick(&[p, 30_000])) }
        4..=6 => Strat::Pct(g.r(1, 6) as u32, g.pick(&[300, 2000, 10_000])),
        7 | 8 => Strat::Starve(g.r(0, 4) as u32, g.pick(&[500, 5000, 30_000])),
        _ => Strat::RoundRobin(g.pick(&[1, 2, 3, 7, 20, 100])),
    };
    Sched { seed: g.n(1 << 40), strat, alloc: g.p(25), spurious: if g.p(20) { g.pick(&[500, 8000]) } else { 0 }, wake_random: g.p(30) }
}
fn raw_out(s: &str) { unsafe { simrt::raw_syscall6(1, 1, s.as_ptr() as usize, s.len(), 0, 0, 0); } }
/// Deadlock, step limit, runaway: the run cannot be unwound, so the process ends with the verdict.
fn on_abort(why: &str, rep: simrt::Report) -> ! {
    let mut o = Out { viol: Some(Viol { class: why.to_string(), detail: abort_text(why) }), ..Out::default() };
    fill(&mut o, &rep);
    o.trace = rep.trace;
    o.hash = rep.hash;
    let s = format!("\nV {}\n", serde_json::to_string(&o).unwrap());
    raw_out(&s);
    unsafe { libc::_exit(42) }
}
fn abort_text(why: &str) -> String {
    match why {
        "deadlock" => "no thread can run any more: the call never returns".into(),
        "step-limit" => "the run did not end within the step limit".into(),
        "runaway-reads" => "the reader keeps reading without end".into(),
        "runaway-seeks" => "the reader keeps seeking without end".into(),
        "memory-runaway" => "live memory exceeded the bound for this input".into(),
        w => w.into(),
    }
}
fn fill(o: &mut Out, rep: &simrt::Report) {
    o.steps = rep.steps;
    o.switches = rep.switches;
    o.clock_us = rep.clock_ns / 1000;
    o.threads = rep.threads;
    o.sched_hash = rep.hash;
    o.spurious = rep.spurious;
    o.blocks = rep.blocks;
}
/// Runs one scenario in this process. Does not return if the run deadlocks or runs away.
pub fn execute(p: &dyn Prop, s: &Scn, path: &str) -> Out {
    let cfg = simrt::Config {
        seed: s.sched.seed, strategy: strategy(&s.sched), step_limit: p.step_limit(), alloc_points: s.sched.alloc, spurious: s.sched.spurious,
        wake_random: s.sched.wake_random, default_threads: s.par.threads.clamp(1, 16) as usize,
    };
    last_panic();
    unsafe { crate::canon::COMPACT = p.compact(); }
    let mut ctx = Ctx { path: path.to_string(), ..Ctx::default() };
    let c = &mut ctx;
    let (r, rep, ev) = simrt::run(cfg, move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || p.run(s, c))).map_err(|_| last_panic()));
    crate::interpose::stop_files();
    simrt::heap::CEIL.store(usize::MAX, Ordering::Relaxed);
    let mut o = Out { stats: ctx.stats, nontrivial: ctx.nontrivial, skipped: ctx.skipped, ..Out::default() };
    fill(&mut o, &rep);
    o.trace = rep.trace;
    o.hash = simrt::mix(rep.hash ^ ev);
    o.sig = simrt::mix(ctx.sig ^ o.hash);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(v)) => o.viol = Some(v),
        Err((msg, loc)) => {
            if loc.starts_with("src/") && msg.starts_with("harness:") { o.broken = Some(format!("{msg} at {loc}")); }
            else { o.viol = Some(Viol { class: "panic".into(), detail: format!("panicked: {msg} ({})", loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")) }); }
        }
    }
    o
}
fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = simrt::mix(seed ^ 0x0051_4d5e);
    for b in prop.bytes() { h = simrt::mix(h ^ b as u64); }
    simrt::mix(h ^ i)
}
fn is_fresh(seed: u64, i: u64) -> bool { run_seed(seed, "fresh", i) % FRESH == 0 }
pub fn generate(p: &dyn Prop, seed: u64, i: u64, thorough: bool) -> Scn {
    let mut g = G::new(run_seed(seed, p.id(), i));
    let mut s = p.gen(&mut g, i, thorough);
    s.prop = p.id().to_string();
    s.fresh = p.parallel() && is_fresh(seed, i);
    s
}

// ---------------------------------------------------------------- processes
fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 { return; }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() { return; }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
/// Moves a pinned process that shows no progress to the other processors: its own may be
/// taken by somebody else for minutes.
fn move_away(pid: u32) {
    let one = |tid: i32| unsafe {
        let (mut mine, mut all): (libc::cpu_set_t, libc::cpu_set_t) = (std::mem::zeroed(), std::mem::zeroed());
        if libc::sched_getaffinity(tid, std::mem::size_of_val(&mine), &mut mine) != 0 || libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 { return; }
        if libc::CPU_COUNT(&mine) > 1 || libc::CPU_COUNT(&all) < 2 { return; }
        for c in 0..1024 { if libc::CPU_ISSET(c, &mine) { libc::CPU_CLR(c, &mut all); } }
        libc::sched_setaffinity(tid, std::mem::size_of_val(&all), &all);
    };
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return };
    for t in d.flatten().filter_map(|t| t.file_name().to_string_lossy().parse::<i32>().ok()) {
        one(t);
        // Runs without history are in a child of it.
        let kids = std::fs::read_to_string(format!("/proc/{pid}/task/{t}/children")).unwrap_or_default();
        for c in kids.split_whitespace().filter_map(|c| c.parse::<u32>().ok()) { move_away(c); }
    }
}
fn child_setup(k: usize) -> String {
    pin(k);
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
    hook();
    simrt::set_abort(on_abort);
    crate::interpose::warm();
    let dir = std::env::var("OSMSIM_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    // What only the harness uses is settled in any case, so that it does not tell processes apart.
    for i in 0..40 {
        for id in ["C01", "C08", "C14"] { let s = generate(&*props::get(id).unwrap(), 998, i, false); s.doc.encode(); s.doc.contents(); drop(serde_json::to_string(&s)); }
    }
    format!("{dir}/w{k}.pbf")
}
fn settle(path: &str) {
    // Settle lazily initialised state of the process before the first counted run.
    for i in 0..9 {
        let p = props::get(["C01", "C08", "C14"][i as usize % 3]).unwrap();
        let s = generate(&*p, 999, i, false);
        execute(&*p, &s, path);
    }
}
/// Runs `f` in a copy of this process; its exit code (None: killed by a signal).
fn forked(f: impl FnOnce() -> i32) -> Option<i32> {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let c = f();
            libc::_exit(c);
        }
        assert!(pid > 0, "fork");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        libc::WIFEXITED(st).then(|| libc::WEXITSTATUS(st))
    }
}
/// Passes the result of a run from a forked child to its parent.
#[derive(Serialize, Deserialize)]
struct Wire { o: Out, stats: Vec<(String, u64)> }
fn execute_forked(p: &dyn Prop, s: &Scn, path: &str) -> (Out, Vec<(String, u64)>) {
    let file = format!("{path}.out");
    let code = forked(|| {
        let o = execute(p, s, path);
        let stats = o.stats.iter().map(|(a, b)| (a.to_string(), *b)).collect();
        i32::from(std::fs::write(&file, serde_json::to_vec(&Wire { o, stats }).unwrap()).is_err())
    });
    // The child has printed its verdict (42) or died: so does this process.
    if code != Some(0) { unsafe { libc::_exit(code.unwrap_or(99)) } }
    let w: Wire = serde_json::from_slice(&std::fs::read(&file).expect("result of a forked run")).expect("result of a forked run");
    let _ = std::fs::remove_file(&file);
    (w.o, w.stats)
}
/// worker <prop> <tier> <seed> <k> <workers> <runs> <cap_s> <skip>
fn worker(a: &[String]) {
    let p = props::get(&a[0]).unwrap();
    let thorough = a[1] == "thorough";
    let (seed, k, n, runs, cap): (u64, u64, u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
    let path = child_setup(k as usize);
    let t0 = Instant::now();
    let mut settled = false;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: Vec<u64> = vec![];
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let (mut done, mut skipped) = (0u64, 0u64);
    // A restarted worker goes on behind the runs that its predecessor began.
    let mut skip: u64 = a[7].parse().unwrap();
    let dump = std::env::var_os("OSMSIM_HASHES").is_some();
    // First the runs that start in a process without history, then the others.
    for (fresh, i) in [true, false].into_iter().flat_map(|f| (k..runs).step_by(n as usize).map(move |i| (f, i))) {
        if !fresh && !settled { settle(&path); settled = true; }
        if p.parallel() { if is_fresh(seed, i) != fresh { continue; } } else if fresh { continue; }
        if t0.elapsed().as_secs() >= cap { break; }
        if skip > 0 { skip -= 1; continue; }
        raw_out(&format!("S {i}\n"));
        let s = generate(&*p, seed, i, thorough);
        if let Some(v) = std::env::var_os("OSMSIM_STEPS") { let on = v == *i.to_string() || (s.fresh && v == "fresh"); simrt::set_verbose(on); if on { eprintln!("run {i}"); } }
        let (o, st) = if fresh { execute_forked(&*p, &s, &path) } else { let o = execute(&*p, &s, &path); let st = o.stats.iter().map(|(a, b)| (a.to_string(), *b)).collect(); (o, st) };
        if dump { raw_out(&format!("H {i} {:x} {:x}\n", o.hash, o.sig)); }
        if let Some(b) = &o.broken { raw_out(&format!("B run {i}: {b}\n")); return; }
        if o.viol.is_some() { raw_out(&format!("V {}\n", serde_json::to_string(&o).unwrap())); return; }
        done += 1;
        if o.skipped { skipped += 1; }
        for (a, b) in &st { let e = stats.entry(a.to_string()).or_insert(0); if a.starts_with("max ") { *e = (*e).max(*b); } else { *e += b; } }
        for (a, b) in [("sim steps", o.steps), ("sim switches", o.switches), ("sim clock us", o.clock_us), ("sim spurious wakeups", o.spurious), ("sim blocked waits", o.blocks)] {
            if b > 0 { *stats.entry(a.to_string()).or_insert(0) += b; }
        }
        for (a, b) in [("sim max threads", o.threads as u64), ("sim max steps in a run", o.steps)] {
            let m = stats.entry(a.into()).or_insert(0);
            *m = (*m).max(b);
        }
        if o.nontrivial && !o.skipped { sigs.push(o.sig); }
        if o.switches > 0 { scheds.insert(o.sched_hash); }
        if k == 0 && samples.len() < 3 && o.nontrivial {
            let mut t = serde_json::to_string(&s).unwrap();
            if t.len() > 1500 { let mut e = 1500; while !t.is_char_boundary(e) { e -= 1; } t.truncate(e); t += "…"; }
            samples.push(format!("run {i}: {t}"));
        }
    }
    let _ = std::fs::remove_file(&path);
    raw_out(&format!("D {}\n", json!({"done": done, "skipped": skipped, "stats": stats, "sigs": sigs, "scheds": scheds.iter().collect::<Vec<_>>(), "samples": samples})));
}

#[derive(Serialize, Deserialize)]
struct EvalReq { scn: Value, retries: u32, prelude: Vec<(u64, u64)>, thorough: bool }
#[derive(Serialize, Deserialize, Default)]
struct EvalRep { out: Out, invalid: bool, sched: Option<Sched> }
/// eval <k>: one request per line.
fn eval(a: &[String]) {
    let path = child_setup(a[0].parse().unwrap());
    let mut settled = false;
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let Ok(q) = serde_json::from_str::<EvalReq>(&line) else { raw_out("E\n"); continue };
        let Ok(scn) = serde_json::from_value::<Scn>(q.scn) else { raw_out(&format!("R {}\n", serde_json::to_string(&EvalRep { invalid: true, ..EvalRep::default() }).unwrap())); continue };
        let Some(p) = props::get(&scn.prop) else { raw_out("E\n"); continue };
        if scn.fresh {
            let code = forked(|| { eval_one(&*p, scn.clone(), q.retries, &path); 0 });
            // The child has printed its verdict (42) or died: so does this process.
            if code != Some(0) { unsafe { libc::_exit(code.unwrap_or(99)) } }
            continue;
        }
        if !settled { settle(&path); settled = true; }
        for (seed, i) in &q.prelude { let s = generate(&*p, *seed, *i, q.thorough); if !s.fresh { execute(&*p, &s, &path); } }
        eval_one(&*p, scn, q.retries, &path);
    }
    let _ = std::fs::remove_file(&path);
}
fn eval_one(p: &dyn Prop, scn: Scn, retries: u32, path: &str) {
    let mut cur = scn.clone();
    let mut rep = EvalRep::default();
    for t in 0..=retries {
        if t > 0 {
            let mut g = G::new(simrt::mix(t as u64 ^ 0xabc));
            cur.sched = Sched { alloc: scn.sched.alloc, ..gen_sched(&mut g) };
        }
        raw_out(&format!("T {}\n", serde_json::to_string(&cur.sched).unwrap()));
        if cur.fresh && t < retries {
            // Every attempt needs a process without history.
            let code = forked(|| {
                rep.out = execute(p, &cur, path);
                if rep.out.viol.is_none() { return 0; }
                rep.sched = Some(cur.sched.clone());
                raw_out(&format!("R {}\n", serde_json::to_string(&rep).unwrap()));
                7
            });
            match code { Some(0) => continue, Some(7) => return, _ => unsafe { libc::_exit(code.unwrap_or(99)) } }
        }
        rep.out = execute(p, &cur, path);
        if rep.out.viol.is_some() { break; }
    }
    rep.sched = Some(cur.sched);
    raw_out(&format!("R {}\n", serde_json::to_string(&rep).unwrap()));
}
struct Ev { k: usize, fresh: bool, child: Option<(Child, std::process::ChildStdin, mpsc::Receiver<String>)>, exe: std::path::PathBuf }
impl Ev {
    fn new(k: usize) -> Ev { Ev { k, fresh: false, child: None, exe: std::env::current_exe().unwrap() } }
    fn start(&mut self) {
        let mut c = Command::new(&self.exe).arg("eval").arg(self.k.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("eval child");
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || for l in BufReader::new(o).lines() { let Ok(l) = l else { break }; if tx.send(l).is_err() { break; } });
        self.child = Some((c, i, rx));
    }
    fn kill(&mut self) { if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } }
    fn ask(&mut self, scn: &Value, retries: u32, prelude: &[(u64, u64)], thorough: bool) -> EvalRep {
        let fresh = scn["fresh"] == true;
        if fresh && !self.fresh { self.kill(); }
        self.fresh = fresh;
        if self.child.is_none() { self.start(); }
        let q = EvalReq { scn: scn.clone(), retries, prelude: prelude.to_vec(), thorough };
        let (c, i, rx) = self.child.as_mut().unwrap();
        let pid = c.id();
        let line = serde_json::to_string(&q).unwrap() + "\n";
        let sent = i.write_all(line.as_bytes()).and_then(|_| i.flush()).is_ok();
        let mut last: Option<Sched> = None;
        let mut verdict: Option<Out> = None;
        let t0 = Instant::now();
        let mut moved = false;
        loop {
            let left = Duration::from_secs(HANG_S).saturating_sub(t0.elapsed());
            let left = if !moved && left > Duration::from_secs(HANG_S - STALL_S) { left - Duration::from_secs(HANG_S - STALL_S) } else { left };
            match rx.recv_timeout(if sent { left } else { Duration::from_millis(1) }) {
                Ok(l) => {
                    if let Some(x) = l.strip_prefix("R ") { return serde_json::from_str(x).unwrap_or_default(); }
                    if let Some(x) = l.strip_prefix("T ") { last = serde_json::from_str(x).ok(); }
                    if let Some(x) = l.strip_prefix("V ") { verdict = serde_json::from_str(x).ok(); }
                    if l == "E" { return EvalRep { invalid: true, ..EvalRep::default() }; }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    if !moved { moved = true; move_away(pid); continue; }
                    self.kill();
                    let v = Viol { class: "hang".into(), detail: format!("a run did not end within {HANG_S} s of real time") };
                    return EvalRep { out: Out { viol: Some(v), ..Out::default() }, invalid: false, sched: last };
                }
                Err(_) => {
                    let (mut c, _, _) = self.child.take().unwrap();
                    let st = c.wait().ok();
                    let out = verdict.unwrap_or_else(|| {
                        use std::os::unix::process::ExitStatusExt;
                        let sig = st.and_then(|s| s.signal());
                        Out { viol: Some(Viol { class: "crash".into(), detail: format!("the process died ({})", sig.map_or(format!("{st:?}"), |s| format!("signal {s}"))) }), ..Out::default() }
                    });
                    return EvalRep { out, invalid: false, sched: last };
                }
            }
        }
    }
}
impl Drop for Ev { fn drop(&mut self) { self.kill(); } }

// ---------------------------------------------------------------- minimisation
/// Smaller variants of a JSON value at one node, most aggressive first.
fn variants(v: &Value) -> Vec<Value> {
    let mut o = vec![];
    match v {
        Value::Bool(true) => o.push(Value::Bool(false)),
        Value::Number(n) => {
            if let Some(x) = n.as_i64() {
                for c in [0, 1, x / 2, x - x.signum()] { if c.unsigned_abs() < x.unsigned_abs() { let c = json!(c); if !o.contains(&c) { o.push(c); } } }
                if x < 0 && x != i64::MIN { o.push(json!(-x)); }
            } else if n.as_u64().is_some() { o.push(json!(0)); o.push(json!(n.as_u64().unwrap() / 2)); }
        }
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                o.push(json!(""));
                if c.len() > 1 { o.push(json!(c[..c.len() / 2].iter().collect::<String>())); o.push(json!(c[c.len() / 2..].iter().collect::<String>())); o.push(json!(c[..c.len() - 1].iter().collect::<String>())); }
            }
        }
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size > 0 {
                let mut at = 0;
                while at < n {
                    let mut b = a.clone();
                    b.drain(at..(at + size).min(n));
                    o.push(Value::Array(b));
                    at += size;
                }
                if size == 1 || (n > 256 && n / size > 128) { break; }
                size = size.div_ceil(2);
            }
        }
        Value::Object(m) => for k in m.keys() { if k != "sched" && (m.len() > 1 || m[k].is_null()) { let mut c = m.clone(); c.remove(k); o.push(Value::Object(c)); } },
        _ => {}
    }
    o
}
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => for (k, x) in a.iter().enumerate() { at.push(k.to_string()); paths(x, at, out); at.pop(); },
        Value::Object(m) => for (k, x) in m { if k == "prop" { continue; } at.push(k.clone()); paths(x, at, out); at.pop(); },
        _ => {}
    }
}
fn get_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c { Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, Value::Object(m) => m.get_mut(k)?, _ => return None };
    }
    Some(c)
}
fn minimise(start: Scn, first: &Out, par: bool, budget: Duration, thorough: bool) -> (Scn, Out, u64) {
    let class = first.viol.as_ref().unwrap().class.clone();
    let mut cur = start;
    let mut best = first.clone();
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8);
    let mut evs: Vec<Ev> = (0..n).map(|k| Ev::new(100 + k)).collect();
    let t0 = Instant::now();
    let mut evals = 0u64;
    // Fix the schedule to the recorded one.
    if !matches!(cur.sched.strat, Strat::Default) {
        let mut c = cur.clone();
        c.sched.strat = Strat::Replay(best.trace.clone());
        let r = evs[0].ask(&serde_json::to_value(&c).unwrap(), 0, &[], thorough);
        evals += 1;
        if r.out.viol.as_ref().is_some_and(|v| v.class == class) { cur = c; best = r.out; }
    }
    if !par || best.trace.is_empty() {
        let mut c = cur.clone();
        c.sched = Sched::default();
        let r = evs[0].ask(&serde_json::to_value(&c).unwrap(), 0, &[], thorough);
        evals += 1;
        if r.out.viol.as_ref().is_some_and(|v| v.class == class) { cur = c; best = r.out; }
    }
    let slow = matches!(class.as_str(), "hang");
    let mut val = serde_json::to_value(&cur).unwrap();
    let retries = if par { 12 } else { 0 };
    let mut progress = true;
    'outer: while progress && !slow {
        progress = false;
        let mut ps = vec![];
        paths(&val, &mut vec![], &mut ps);
        // Of the schedule only the list of deviations from the default can shrink.
        ps.retain(|p| p.first().is_none_or(|k| k != "sched") || p.len() > 2 || p.get(1).is_some_and(|k| k == "spurious" || k == "alloc" || k == "wake_random"));
        // Big structures first.
        let mut pi = 0;
        while pi < ps.len() {
            let p = ps[pi].clone();
            pi += 1;
            let mut vi = 0;
            loop {
                if t0.elapsed() > budget { break 'outer; }
                let Some(node) = get_mut(&mut val, &p) else { break };
                let vs = variants(node);
                if vi >= vs.len() { break; }
                let batch: Vec<Value> = vs[vi..].iter().take(n).map(|x| { let mut c = val.clone(); *get_mut(&mut c, &p).unwrap() = x.clone(); c }).collect();
                let in_sched = p.first().is_some_and(|k| k == "sched");
                let reps: Vec<EvalRep> = std::thread::scope(|sc| {
                    let hs: Vec<_> = batch.iter().zip(evs.iter_mut()).map(|(c, e)| sc.spawn(move || e.ask(c, if in_sched { 0 } else { retries }, &[], thorough))).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                evals += batch.len() as u64;
                let hit = reps.iter().position(|r| !r.invalid && r.out.broken.is_none() && r.out.viol.as_ref().is_some_and(|v| v.class == class));
                match hit {
                    Some(h) => {
                        val = batch[h].clone();
                        best = reps[h].out.clone();
                        if let Some(sc) = reps[h].sched.as_ref().filter(|_| par) {
                            let mut sc = sc.clone();
                            if !matches!(sc.strat, Strat::Default) { sc.strat = Strat::Replay(best.trace.clone()); }
                            val["sched"] = serde_json::to_value(&sc).unwrap();
                        }
                        progress = true;
                        // The node changed: look at it again from the same position.
                        vi = if matches!(get_mut(&mut val, &p), Some(Value::Array(_))) { vi + h } else { 0 };
                        if matches!(get_mut(&mut val, &p), Some(Value::Object(_))) { vi = 0; }
                    }
                    None => vi += batch.len(),
                }
            }
        }
    }
    (serde_json::from_value(val).unwrap_or(cur), best, evals)
}

// ---------------------------------------------------------------- replay
#[derive(Serialize, Deserialize)]
struct Replay { property: String, class: String, detail: String, verif_seed: u64, run: u64, tier: String, event_hash: String, prelude: Vec<(u64, u64)>, scenario: Scn, minimise_evaluations: u64, note: String }
fn replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay format");
    let scratch = Scratch::new();
    let mut e = Ev::new(0);
    let rep = e.ask(&serde_json::to_value(&r.scenario).unwrap(), 0, &r.prelude, r.tier == "thorough");
    drop(scratch);
    match rep.out.viol {
        Some(v) => {
            println!("property {} run {} (VERIF_SEED {}): {}: {}", r.property, r.run, r.verif_seed, v.class, v.detail);
            println!("event hash {:016x} (recorded {})", rep.out.hash, r.event_hash);
            if v.class == r.class { println!("REPRODUCED"); 1 } else { println!("DIFFERENT violation (recorded {})", r.class); 1 }
        }
        None => { println!("not reproduced on this tree"); 0 }
    }
}
struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let base = if std::fs::metadata("/dev/shm").is_ok_and(|m| m.is_dir()) { "/dev/shm" } else { "/tmp" };
        for b in [base, "/tmp"] {
            let d = format!("{b}/osmsim-{}", std::process::id());
            if std::fs::create_dir_all(&d).is_ok() { std::env::set_var("OSMSIM_SCRATCH", &d); return Scratch(d); }
        }
        panic!("no scratch directory");
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ---------------------------------------------------------------- check
enum Msg { Line(usize, u32, String), End(usize, u32, Option<i32>) }
/// A worker process: the run it is at, how many it has begun, when it last said something.
struct Kid { pid: u32, gen: u32, at: Option<u64>, from: u64, begun: u64, seen: Instant, moved: bool, finished: bool, ended: bool }
impl Kid {
    fn kill(&self) { if !self.ended { move_away(self.pid); unsafe { libc::kill(self.pid as i32, libc::SIGKILL); } } }
}
fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::get(id) else { eprintln!("unknown property {id}"); return 2 };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let n: usize = std::env::var("OSMSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let runs: u64 = std::env::var("OSMSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.runs(thorough));
    let cap: u64 = std::env::var("OSMSIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
    let dir = std::env::var("OSMSIM_DIR").unwrap_or_else(|_| "/verif".into());
    println!("property {id} tier {tier} VERIF_SEED {seed} runs {runs} workers {n}");
    let scratch = Scratch::new();
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<Msg>();
    let spawn = |k: usize, gen: u32, skip: u64| {
        let args = [k as u64, n as u64, runs, cap.saturating_sub(t0.elapsed().as_secs()), skip].map(|x| x.to_string());
        let mut c = Command::new(&exe).args(["worker", id, tier, &seed.to_string()]).args(args)
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("worker");
        let o = c.stdout.take().unwrap();
        let pid = c.id();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() { let Ok(l) = l else { break }; if tx.send(Msg::Line(k, gen, l)).is_err() { break; } }
            let st = c.wait().ok().and_then(|s| s.code());
            let _ = tx.send(Msg::End(k, gen, st));
        });
        Kid { pid, gen, at: None, from: skip, begun: skip, seen: Instant::now(), moved: false, finished: false, ended: false }
    };
    let mut kids: Vec<Kid> = (0..n).map(|k| spawn(k, 0, 0)).collect();
    let mut restarts = 0u32;
    let mut broken: Option<String> = None;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let (mut done, mut skipped) = (0u64, 0u64);
    let dump = std::env::var_os("OSMSIM_HASHES").is_some();
    let mut code = 0;
    let mut vio = 0;
    while kids.iter().any(|c| !c.ended) && broken.is_none() && vio == 0 {
        // A violation, death or hang: which worker, in which run, what it said, whether it is gone.
        let mut found: Option<(usize, u64, Option<Out>)> = None;
        match rx.recv_timeout(Duration::from_secs(2)) {
            Ok(Msg::Line(k, gen, l)) if gen == kids[k].gen => {
                let c = &mut kids[k];
                c.seen = Instant::now();
                if let Some(x) = l.strip_prefix("S ") { c.at = x.parse().ok(); c.begun += 1; }
                else if let Some(x) = l.strip_prefix("V ") { found = Some((k, c.at.unwrap_or(k as u64), serde_json::from_str(x).ok())); }
                else if let Some(x) = l.strip_prefix("B ") { broken = Some(x.to_string()); }
                else if l.starts_with("H ") { if dump { println!("{l}"); } }
                else if let Some(x) = l.strip_prefix("D ") {
                    c.finished = true;
                    let v: Value = serde_json::from_str(x).unwrap();
                    done += v["done"].as_u64().unwrap();
                    skipped += v["skipped"].as_u64().unwrap();
                    for (a, b) in v["stats"].as_object().unwrap() { let e = stats.entry(a.clone()).or_insert(0); if a.contains("max") { *e = (*e).max(b.as_u64().unwrap()); } else { *e += b.as_u64().unwrap(); } }
                    sigs.extend(v["sigs"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
                    scheds.extend(v["scheds"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
                    samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                }
            }
            Ok(Msg::End(k, gen, code)) if gen == kids[k].gen => {
                let c = &mut kids[k];
                c.ended = true;
                // Dead or (below) stuck before its first run: then so is whoever evaluates that run.
                if !c.finished { eprintln!("worker {k} ended early ({code:?})"); found = Some((k, c.at.unwrap_or(k as u64), None)); }
            }
            _ => {}
        }
        for (k, c) in kids.iter_mut().enumerate() {
            if c.finished || c.ended { continue; }
            let quiet = c.seen.elapsed().as_secs();
            if quiet > STALL_S && !c.moved { c.moved = true; move_away(c.pid); }
            if quiet > HANG_S && found.is_none() { found = Some((k, c.at.unwrap_or(k as u64), None)); }
        }
        let Some((k, i, out)) = found else { continue };
        let seen = out.is_some();
        println!("run {i}: {}", out.as_ref().and_then(|o| o.viol.as_ref()).map_or("the worker died or hung".into(), |v| format!("{}: {}", v.class, v.detail)));
        if seen { for c in &kids { c.kill(); } } else { kids[k].kill(); }
        match report(&*p, id, tier, seed, i, k as u64, n as u64, out, &dir) {
            Ok(f) => { println!("VIOLATION property={id} replay={f}"); code = 1; vio = 1; }
            // Neither the run nor its history does it again: something outside (the machine's load, the
            // end of its memory) stopped that worker. Another one goes on behind that run.
            Err(e) if !seen && restarts < 2 * n as u32 => {
                eprintln!("{e}: worker {k} is started again");
                restarts += 1;
                done += (kids[k].begun - kids[k].from).saturating_sub(1);
                kids[k] = spawn(k, kids[k].gen + 1, kids[k].begun);
                for c in &mut kids { c.seen = Instant::now(); }
            }
            Err(e) => broken = Some(e),
        }
    }
    for c in &kids { c.kill(); }
    if let Some(b) = broken { eprintln!("harness error: {b}"); return 3; }
    drop(scratch);
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&str, u64> = stats.iter().filter_map(|(k, v)| k.strip_prefix("fault ").map(|k| (k, *v))).collect();
    let probes: BTreeMap<&str, u64> = stats.iter().filter(|(k, _)| !k.starts_with("fault ") && !k.starts_with("sim ")).map(|(k, v)| (k.as_str(), *v)).collect();
    let sim: BTreeMap<&str, u64> = stats.iter().filter_map(|(k, v)| k.strip_prefix("sim ").map(|k| (k, *v))).collect();
    if samples.is_empty() { samples.push(json!("none finished: the batch was stopped by the violation")); }
    samples.truncate(3);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": (wall * 100.0).round() / 100.0, "violations": vio,
        "coverage": {
            "evaluations": done, "distinct_nontrivial": sigs.len(), "rule": p.rule(), "samples": samples,
            "runs_outside_the_precondition": skipped, "workers_restarted": restarts,
            "runs_per_hour": (done as f64 / wall * 3600.0).round(), "seeds_per_hour": (done as f64 / wall * 3600.0).round(),
            "simulated_time_s": stats.get("sim clock us").copied().unwrap_or(0) as f64 / 1e6,
            "faults_injected": faults, "probes": probes, "scheduler": sim,
            "distinct_interleavings": scheds.len(), "interleaving_measure": "distinct hashes of the sequence of (step, kind of scheduling point, thread switched to) among runs with at least one switch",
            "real_components": p.real(), "stub_components": p.stubs(),
        },
        "assumptions": p.assumptions(),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) { eprintln!("cannot write evidence: {e}"); return 3; }
    println!("{id}: {done} runs, {} distinct non-trivial, {} interleavings, {wall:.1} s, violations {vio}", sigs.len(), scheds.len());
    code
}
#[allow(clippy::too_many_arguments)]
fn report(p: &dyn Prop, id: &str, tier: &str, seed: u64, i: u64, k: u64, n: u64, out: Option<Out>, dir: &str) -> Result<String, String> {
    let thorough = tier == "thorough";
    let scn = generate(p, seed, i, thorough);
    let val = serde_json::to_value(&scn).unwrap();
    let mut e = Ev::new(50);
    let mut first = e.ask(&val, 0, &[], thorough).out;
    let mut prelude: Vec<(u64, u64)> = vec![];
    if let Some(b) = first.broken { return Err(format!("run {i}: {b}")); }
    let mut minimal = scn.clone();
    let mut evals = 0;
    if first.viol.is_none() {
        // Not by itself: then because of what earlier runs of that process left behind.
        let before: Vec<u64> = (0..).map(|j| k + j * n).take_while(|j| *j < i).collect();
        let mut len = 1;
        loop {
            prelude = before[before.len().saturating_sub(len)..].iter().map(|j| (seed, *j)).collect();
            e.kill();
            first = e.ask(&val, 0, &prelude, thorough).out;
            if first.viol.is_some() || len >= before.len() { break; }
            len *= 4;
        }
        if first.viol.is_none() {
            let Some(o) = out.filter(|o| o.viol.is_some()) else { return Err(format!("run {i}: the worker died, but neither the run nor its history reproduces it")) };
            // Seen, but not repeatable: something outside the simulation's control decides. Report what was seen.
            let v = o.viol.clone().unwrap();
            prelude = before[before.len().saturating_sub(64)..].iter().map(|j| (seed, *j)).collect();
            return write_replay(id, tier, seed, i, dir, &v, o.hash, prelude, minimal, 0, "observed once; the run did not repeat it, so it depends on something the simulator does not control");
        }
        // Shorten the history.
        let mut j = 0;
        while j < prelude.len() && prelude.len() < 400 {
            let mut c = prelude.clone();
            c.remove(j);
            e.kill();
            let r = e.ask(&val, 0, &c, thorough).out;
            if r.viol.is_some() { prelude = c; first = r; } else { j += 1; }
        }
    } else if first.viol.as_ref().is_some_and(|v| v.class != "hang") {
        // (Each look at a hang takes HANG_S: it is reported as it was found.)
        let (s, o, x) = minimise(scn, &first, p.parallel(), Duration::from_secs(std::env::var("OSMSIM_MIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 180 } else { 60 })), thorough);
        minimal = s;
        first = o;
        evals = x;
    }
    // The file must reproduce it in a fresh process, exactly.
    let mv = serde_json::to_value(&minimal).unwrap();
    let class = first.viol.as_ref().unwrap().class.clone();
    let mut ok = false;
    for _ in 0..2 {
        let mut f = Ev::new(60);
        let r = f.ask(&mv, 0, &prelude, thorough).out;
        ok = r.viol.as_ref().is_some_and(|v| v.class == class);
        if !ok { break; }
        first = r;
    }
    if !ok && prelude.is_empty() {
        // Fall back to the unminimised scenario.
        minimal = generate(p, seed, i, thorough);
        let mut f = Ev::new(61);
        let r = f.ask(&serde_json::to_value(&minimal).unwrap(), 0, &[], thorough).out;
        if r.viol.is_none() { return Err(format!("run {i}: replay does not reproduce")); }
        first = r;
    } else if !ok { return Err(format!("run {i}: replay does not reproduce")); }
    let v = first.viol.clone().unwrap();
    write_replay(id, tier, seed, i, dir, &v, first.hash, prelude, minimal, evals, "replay with: target/release/osmsim replay <this file>")
}
#[allow(clippy::too_many_arguments)]
fn write_replay(id: &str, tier: &str, seed: u64, i: u64, dir: &str, v: &Viol, hash: u64, prelude: Vec<(u64, u64)>, scenario: Scn, evals: u64, note: &str) -> Result<String, String> {
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let file = format!("{dir}/replays/{id}-{seed}-{i}.json");
    let r = Replay { property: id.into(), class: v.class.clone(), detail: v.detail.clone(), verif_seed: seed, run: i, tier: tier.into(), event_hash: format!("{hash:016x}"), prelude, scenario, minimise_evaluations: evals, note: note.into() };
    std::fs::write(&file, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
    println!("minimised ({evals} evaluations): {}: {}", v.class, v.detail);
    Ok(file)
}
pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => { worker(&a[1..]); 0 }
        Some("eval") => { eval(&a[1..]); 0 }
        Some("replay") => replay(&a[1]),
        Some("check") => check(&a[1], a.get(2).map_or("quick", |s| s)),
        // Runs one run so many times, each in a process of its own, and prints the hashes (OSMSIM_STEPS=1: every switch).
        Some("one") => {
            let p = props::get(&a[1]).unwrap();
            let _scratch = Scratch::new();
            let path = child_setup(0);
            let i = a[2].parse().unwrap();
            let s = generate(&*p, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), i, false);
            for _ in 0..a.get(3).map_or(1, |x| x.parse().unwrap()) {
                forked(|| { if !s.fresh { settle(&path); } simrt::set_verbose(std::env::var_os("OSMSIM_STEPS").is_some()); let o = execute(&*p, &s, &path); raw_out(&format!("{:x} {:x} {:x} steps {} fresh {} {:?}\n", o.hash, o.sig, o.sched_hash, o.steps, s.fresh, o.viol)); 0 });
            }
            0
        }
        Some("show") => {
            let p = props::get(&a[1]).unwrap();
            let s = generate(&*p, std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), a[2].parse().unwrap(), false);
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        _ => { eprintln!("usage: osmsim check ID quick|thorough | replay FILE | show ID RUN"); 2 }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
