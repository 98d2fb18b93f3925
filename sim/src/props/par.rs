//! The parallel reader under every schedule: C08 results, C09 failures.
use super::*;
use crate::bail;
use osmpbf::Element;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Mutex;

pub struct C08;
pub struct C09;
/// What one call did.
#[derive(Default)]
struct Call { mapped: Mutex<Vec<Elem>>, maps: AtomicU32, reduces: AtomicU32, ids: AtomicU32, panicked: AtomicU32 }
/// The value reduced: enough to see lost, doubled or invented contributions.
#[derive(Clone, Debug, PartialEq, Default)]
struct Val { list: Vec<u64>, n: u64, sum: u64, max: u64 }
impl Val {
    fn one(h: u64, ty: u32) -> Val { Val { list: if ty % 3 == 0 { vec![h] } else { vec![] }, n: 1, sum: h, max: if ty % 3 == 2 { h } else { 0 } } }
    fn add(mut self, mut o: Val) -> Val { self.list.append(&mut o.list); Val { list: self.list, n: self.n + o.n, sum: self.sum.wrapping_add(o.sum), max: self.max.max(o.max) } }
}
fn expected(e: &[&Elem], ty: u32) -> Val {
    let mut v = e.iter().map(|e| Val::one(e.hash(), ty)).fold(Val::default(), Val::add);
    v.list.sort_unstable();
    v
}
enum Out { Ok(Val), Err(String), Panic(bool, String) }
fn call<S: Read + Send>(r: S, s: &Scn, l: &Call) -> Out {
    let p = &s.par;
    let boom = |c: &AtomicU32, which: u32| {
        let n = c.fetch_add(1, Ordering::SeqCst) + 1;
        simrt::point(simrt::K_CALLBACK);
        if p.panic_in == which && n == p.panic_at.max(1) { l.panicked.fetch_add(1, Ordering::SeqCst); std::panic::panic_any(SimPanic(n as u64)); }
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        ElementReader::new(r).par_map_reduce(
            |e: Element| {
                boom(&l.maps, 1);
                let x = simrt::quiet(|| canon::elem(&e));
                let h = x.hash();
                if p.slow > 0 && h % 3 == 0 { simrt::sleep(p.slow as u64 * 1000); }
                simrt::quiet(|| l.mapped.lock().unwrap_or_else(|e| e.into_inner()).push(x));
                simrt::event(h);
                Val::one(h, p.ty)
            },
            || { boom(&l.ids, 3); Val::default() },
            |a, b| { boom(&l.reduces, 2); a.add(b) },
        )
    }));
    match r {
        Ok(Ok(mut v)) => { v.list.sort_unstable(); Out::Ok(v) }
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(x) => { let sim = x.is::<SimPanic>(); Out::Panic(sim, if sim { String::new() } else { crate::driver::last_panic().0 }) }
    }
}
/// All calls of the run; each has its own source over the same bytes.
fn calls(s: &Scn, bytes: &Arc<Vec<u8>>) -> Vec<(Out, Call, Log)> {
    let p = &s.par;
    let n = match p.mode % 4 { 2 => 2, 3 => p.calls.clamp(2, 4) as usize, _ => 1 };
    let src = |k: usize| { let mut pl = s.plan.clone(); pl.seed = pl.seed.wrapping_add(k as u64); SimStream::new(bytes.clone(), &pl) };
    let logs: Vec<Call> = (0..n).map(|_| Call::default()).collect();
    let st: Vec<SimStream> = (0..n).map(src).collect();
    let go = |k: usize| -> Out { match &s.wrap { Wrap::Buf(c) => call(BufReader::with_capacity((*c as usize).max(1), st[k].clone()), s, &logs[k]), _ => call(st[k].clone(), s, &logs[k]) } };
    let pool = || rayon::ThreadPoolBuilder::new().num_threads(p.threads.clamp(1, 16) as usize).build().expect("pool");
    let outs: Vec<Out> = match p.mode % 4 {
        0 => { let q = pool(); vec![q.install(|| go(0))] }
        1 => vec![go(0)],
        2 => { let q = pool(); let (a, b) = q.install(|| rayon::join(|| go(0), || go(1))); vec![a, b] }
        _ => {
            let q = pool();
            std::thread::scope(|sc| {
                let (q, go) = (&q, &go);
                let hs: Vec<_> = (0..n).map(|k| sc.spawn(move || q.install(|| go(k)))).collect();
                hs.into_iter().map(|h| h.join().expect("caller thread")).collect()
            })
        }
    };
    let log: Vec<Log> = st.iter().map(|s| s.log()).collect();
    outs.into_iter().zip(logs).zip(log).map(|((a, b), c)| (a, b, c)).collect()
}
fn gen_par(g: &mut G) -> Par {
    Par { threads: g.pick(&[1, 2, 2, 3, 4, 4, 8]), mode: g.pick(&[0, 0, 0, 1, 2, 3]), calls: g.r(2, 4) as u32, panic_in: 0, panic_at: 0, ty: g.n(3) as u32, slow: if g.p(20) { g.pick(&[1, 20, 500]) } else { 0 } }
}
fn gen_doc(g: &mut G, thorough: bool) -> Doc {
    let mut c = Cfg::swarm(g);
    c.max_blobs = g.pick(&[1, 2, 4, 8, 12]) + if thorough { g.small(20) } else { 0 };
    c.max_elems = g.pick(&[1, 2, 4, 8]);
    c.big = false;
    gen::doc(g, &c)
}
fn no_extra(want: &[&Elem], got: &mut Vec<Elem>) -> Result<(), String> {
    let mut w: Vec<&Elem> = want.to_vec();
    w.sort();
    got.sort();
    let mut i = 0;
    for e in got.iter() {
        while i < w.len() && w[i] < e { i += 1; }
        if i < w.len() && w[i] == e { i += 1; continue; }
        return Err(if want.contains(&e) { format!("{} was mapped more often than it may be", short(e)) }
            else if let Some(x) = want.iter().find(|x| x.id == e.id && x.kind == e.kind) { format!("mapped an element that is not (readably) stored: {}", diff(x, e)) }
            else { format!("{} was mapped but may not be delivered", short(e)) });
    }
    Ok(())
}
pub(super) fn real() -> Vec<&'static str> { vec!["osmpbf (all of /repo/src, built from the working tree)", "rayon and rayon-core: pools, job queues, sleep/wake, latches, par_bridge (their atomics replaced by scheduling points)", "std mutexes, condition variables and thread parking (through the futex seam)", "protobuf, flate2"] }
pub(super) fn stubs() -> Vec<&'static str> { vec!["kernel scheduler, futex, clock: the seeded simulator", "crossbeam-deque: a queue stub with the same interface and a scheduling point per operation", "byte source: seeded in-memory stream"] }
impl Prop for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn parallel(&self) -> bool { true }
    fn runs(&self, t: bool) -> u64 { if t { 3_000_000 } else { 200_000 } }
    fn real(&self) -> Vec<&'static str> { real() }
    fn stubs(&self) -> Vec<&'static str> { stubs() }
    fn assumptions(&self) -> Vec<String> { vec!["sequentially consistent memory between scheduling points".into(), "scheduling points: every atomic operation of the library, of std code inlined into it and of rayon, futex calls, thread start and join, source reads, callbacks, and (in a quarter of the runs) every allocation".into()] }
    fn rule(&self) -> String { "one run: a seeded file, pool size, kind of call and schedule; non-trivial: at least one preemptive or blocking switch and at least one element; distinct by hash of the schedule and of the events".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let doc = gen_doc(g, thorough);
        let len = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        if let Chunk::One | Chunk::Fixed(_) = plan.chunk { if len > 300 { plan.chunk = Chunk::Fixed(g.pick(&[61, 400])); } }
        Scn { doc, plan, wrap: if g.p(60) { Wrap::Raw } else { Wrap::Buf(g.pick(&[16, 512, 8192])) }, par: gen_par(g), sched: crate::driver::gen_sched(g), ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        if !s.doc.well_formed() || s.par.panic_in != 0 || s.plan.faults.iter().any(|f| !matches!(f.what, What::Eintr(_) | What::Delay(_))) { c.skipped = true; return Ok(()); }
        let want = s.doc.contents();
        let elems: Vec<&Elem> = want.iter().flat_map(|w| w.elems()).collect();
        let exp = expected(&elems, s.par.ty);
        let bytes = arc(s.doc.encode().bytes);
        for (k, (o, l, log)) in calls(s, &bytes).into_iter().enumerate() {
            c.log(&log);
            let mut got = l.mapped.into_inner().unwrap_or_else(|e| e.into_inner());
            if let Err(e) = no_extra(&elems, &mut got) { bail!("mapped", "call {k}: {e}"); }
            match o {
                Out::Err(e) => bail!("error", "call {k}: a readable file gave an error: {e}"),
                Out::Panic(_, m) => bail!("panic", "call {k} panicked: {m}"),
                Out::Ok(v) => {
                    if got.len() != elems.len() { bail!("mapped", "call {k}: {} of {} stored elements were mapped", got.len(), elems.len()); }
                    if v != exp { bail!("result", "call {k}: all {} elements were mapped once, but the result combines {} values instead of {}{}", elems.len(), v.n, exp.n, if v.n == exp.n { " (with other values)" } else { "" }); }
                }
            }
            c.add("elements mapped", got.len() as u64);
            c.add("calls", 1);
        }
        c.add(["runs in a pool", "runs in the global pool", "runs with joined calls", "runs with concurrent callers"][s.par.mode as usize % 4], 1);
        c.nontrivial = !elems.is_empty();
        Ok(())
    }
}
impl Prop for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn parallel(&self) -> bool { true }
    fn runs(&self, t: bool) -> u64 { if t { 3_000_000 } else { 200_000 } }
    fn real(&self) -> Vec<&'static str> { real() }
    fn stubs(&self) -> Vec<&'static str> { stubs() }
    fn assumptions(&self) -> Vec<String> { vec!["sequentially consistent memory between scheduling points".into(), "which error really occurred is taken from reading the same source blob by blob on one thread".into()] }
    fn rule(&self) -> String { "one run: a seeded file with a failing source, truncation, undecodable blobs or a panicking closure, pool size, kind of call and schedule; non-trivial: a failure really occurred; distinct by hash of the schedule and of the events".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let mut doc = gen_doc(g, thorough);
        if doc.blobs.is_empty() { let c = Cfg::swarm(g); doc.blobs.push(gen::blob(g, &c, false)); }
        let what = g.n(8);
        let mut par = gen_par(g);
        let mut faults = vec![];
        if matches!(what, 0 | 1 | 6 | 7) {
            for _ in 0..g.pick(&[1, 1, 2]) {
                let k = g.n(doc.blobs.len() as u64) as usize;
                match g.n(4) {
                    0 => doc.blobs[k].enc = g.pick(&[-2, -3]),
                    1 if doc.blobs[k].enc >= 0 => { let (_, r, _) = doc.blobs[k].blob_msg(); let n = (r.1 - r.0) as u64; let e = if g.p(50) { Edit::Zero(g.n(n) as u32, 4) } else { Edit::Cut((n / 2) as u32) }; doc.blobs[k].damage.push(e); }
                    2 => { let n = doc.blobs[k].plain().len() as u64; doc.blobs[k].inner.push(Edit::Set(g.n(n.max(1)) as u32, Bytes(vec![0xff, 0xff, 0xff]))); }
                    _ => { let n = doc.blobs[k].plain().len() as u64; let e = gen_edit(g, n); doc.blobs[k].inner.push(e); }
                }
            }
        }
        let e = doc.encode();
        if matches!(what, 2 | 3 | 4 | 6) {
            let kind = g.n(KINDS.len() as u64) as u8;
            if g.p(12) { faults.extend(gen_pause(g, &e)); }
            else { faults.push(match g.n(5) {
                0 => Fault { at: At::Read(g.n(20) as u32), what: What::Err(kind, g.pick(&[1, 0])) },
                1 | 2 => Fault { at: At::Byte(gen_pos(g, &e)), what: What::Err(kind, g.pick(&[1, 0])) },
                _ => Fault { at: At::Byte(gen_pos(g, &e)), what: What::Eof },
            }); }
        }
        if matches!(what, 5 | 7) { par.panic_in = g.r(1, 3) as u32; par.panic_at = 1 + g.small(12) as u32; }
        let mut plan = gen_plan(g, e.bytes.len() as u64);
        if let Chunk::One | Chunk::Fixed(_) = plan.chunk { if e.bytes.len() > 300 { plan.chunk = Chunk::Fixed(g.pick(&[61, 400])); } }
        plan.faults.extend(faults);
        Scn { doc, plan, wrap: if g.p(60) { Wrap::Raw } else { Wrap::Buf(g.pick(&[16, 512, 8192])) }, par, sched: crate::driver::gen_sched(g), ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let e = s.doc.encode();
        if !pauses_ok(&s.plan, &e.lay) { c.skipped = true; return Ok(()); }
        let bytes = arc(e.bytes);
        let mut failed = false;
        let par = calls(s, &bytes);
        for (k, (o, l, log)) in par.into_iter().enumerate() {
            c.log(&log);
            // The same source, blob by blob, on one thread.
            let mut pl = s.plan.clone();
            pl.seed = pl.seed.wrapping_add(k as u64);
            let st = SimStream::new(bytes.clone(), &pl);
            let mut errs: Vec<String> = vec![];
            let mut elems: Vec<Elem> = vec![];
            let mut read = |r: &mut dyn Iterator<Item = osmpbf::Result<osmpbf::Blob>>| {
                for b in r {
                    match b {
                        Err(e) => errs.push(e.to_string()),
                        Ok(b) => match b.decode() { Err(e) => errs.push(e.to_string()), Ok(BlobDecode::OsmData(b)) => elems.extend(canon::block_elements(&b)), Ok(_) => {} },
                    }
                }
            };
            match &s.wrap { Wrap::Buf(n) => read(&mut BlobReader::new(BufReader::with_capacity((*n as usize).max(1), st))), _ => read(&mut BlobReader::new(st)) }
            let all: Vec<&Elem> = elems.iter().collect();
            let mut got = l.mapped.into_inner().unwrap_or_else(|e| e.into_inner());
            if let Err(e) = no_extra(&all, &mut got) { bail!("mapped", "call {k}: {e} (failures of this source: {errs:?})"); }
            let panicked = l.panicked.load(Ordering::SeqCst) > 0;
            failed |= panicked || !errs.is_empty();
            match o {
                Out::Panic(true, _) if panicked => c.add("panics that reached the caller", 1),
                Out::Panic(_, m) => bail!("panic", "call {k} panicked: {m}"),
                _ if panicked => bail!("lost-panic", "call {k}: the closure panicked, but the call returned {}", if matches!(o, Out::Ok(_)) { "a result" } else { "an error" }),
                Out::Ok(v) => {
                    if let Some(e) = errs.first() { bail!("hidden-failure", "call {k} returned a result of {} values although the source has {} failures, the first: {e}", v.n, errs.len()); }
                    if got.len() != all.len() || v != expected(&all, s.par.ty) { bail!("partial", "call {k} returned success with {} of {} elements mapped, {} values combined", got.len(), all.len(), v.n); }
                    c.add("calls that succeeded", 1);
                }
                Out::Err(e) => {
                    if !errs.contains(&e) { bail!("wrong-error", "call {k} reported '{e}', but what occurred is {errs:?}"); }
                    c.add("calls that reported the error", 1);
                }
            }
        }
        let undec = s.doc.blobs.iter().filter(|b| !b.damage.is_empty() || !b.inner.is_empty() || b.enc < -1).count() as u64;
        c.add("fault undecodable blob", undec);
        c.add("fault closure panic", (s.par.panic_in > 0 && failed) as u64);
        c.nontrivial = failed;
        Ok(())
    }
}
