//! The shape of parallel processing: C19 bounded read-ahead and work that overlaps.
use super::*;
use crate::{bail, with_src};
use osmpbf::Element;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub struct C19;
/// What one run is made of; all of it is in `num`.
struct Shape { blobs: u64, elems: u64, strings: u64, map_us: u64, read_us: u64, alloc_ns: u64, zlib: bool, every: u64 }
impl Shape {
    fn of(n: &[i64]) -> Option<Shape> {
        let v = |k: usize, lo: i64, hi: i64| n.get(k).copied().filter(|x| (lo..=hi).contains(x)).map(|x| x as u64);
        Some(Shape { blobs: v(0, 1, 2000)?, elems: v(1, 1, 50)?, strings: v(2, 0, 2000)?, map_us: v(3, 0, 1_000_000)?, read_us: v(4, 0, 1_000_000)?, alloc_ns: v(5, 0, 1_000_000)?, zlib: v(6, 0, 1)? > 0, every: v(7, 1, 50)? })
    }
    fn doc(&self) -> Doc {
        let blob = |k: u64| {
            let nodes: Vec<NodeS> = (0..self.elems).map(|e| NodeS { id: (k * self.elems + e) as i64, lat: 1, lon: 2, ..NodeS::default() }).collect();
            let b = BlockS { strings: vec![Bytes::from("")], more: self.strings as u32, groups: vec![GroupS { nodes, ..GroupS::default() }], ..BlockS::default() };
            BlobS { body: Body::Data(b), enc: if self.zlib { 1 } else { -1 }, ..BlobS::default() }
        };
        Doc { blobs: (0..self.blobs).map(blob).collect() }
    }
}
/// A source on which every read takes its time.
struct Slow { s: SimStream, ns: u64, spent: Arc<AtomicU64> }
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.ns > 0 && !b.is_empty() { self.spent.fetch_add(self.ns, Ordering::SeqCst); simrt::sleep(self.ns); }
        self.s.read(b)
    }
}
/// Ends the charging of time whatever happens.
struct Charge;
impl Drop for Charge { fn drop(&mut self) { simrt::charge_allocs(0); } }

impl Prop for C19 {
    fn id(&self) -> &'static str { "C19" }
    fn parallel(&self) -> bool { true }
    fn runs(&self, t: bool) -> u64 { if t { 150_000 } else { 6_000 } }
    fn real(&self) -> Vec<&'static str> { super::par::real() }
    fn stubs(&self) -> Vec<&'static str> { let mut v = super::par::stubs(); v.push("processor time: a seeded simulated cost per allocation, read and callback"); v }
    fn assumptions(&self) -> Vec<String> { vec!["the cost of work is modelled: decoding costs simulated time per allocation, callbacks and reads a fixed time each".into(), "read ahead is judged against 64 + 8 blobs per thread, the duration against 3/4 (2 or 3 threads) or 1/2 (4 and more) of the work that can overlap".into()] }
    fn rule(&self) -> String { "one run: a file of many equal blobs, a pool, costs of reading, decoding and callbacks, and a schedule; non-trivial: more blobs than may be read ahead, or work that can overlap; distinct by hash of the schedule and of the events".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let threads = g.pick(&[1, 2, 2, 3, 4, 4, 8]);
        let ahead = g.p(40);
        // Files long enough for unbounded read-ahead to show, or fewer blobs with costs.
        let blobs = if ahead { 64 + 8 * threads + g.pick(&[30, 60, 150, if thorough { 600 } else { 100 }]) } else { g.pick(&[8, 12, 20]) * threads };
        let what = if ahead { g.n(4) } else { g.n(3) };
        let (map_us, alloc_ns) = match what { 0 => (g.pick(&[5000, 100_000]), 0), 1 => (0, g.pick(&[200_000, 1_000_000])), 2 => (g.pick(&[5000, 20_000]), 200_000), _ => (0, 0) };
        let read_us = if g.p(40) { g.pick(&[100, 1000, 5000]) } else { 0 };
        let elems = g.pick(&[1, 1, 2, 5]);
        let strings = if alloc_ns > 0 { g.pick(&[120, 200]) } else { 0 };
        let num = vec![blobs, elems, strings, map_us, read_us, alloc_ns, g.n(2) as i64, if map_us > 0 { g.r(1, elems) } else { 1 }];
        let par = Par { threads: threads as u32, mode: g.n(2) as u32, ..Par::default() };
        let chunk = if g.p(60) { Chunk::All } else { Chunk::Fixed(g.pick(&[20, 64, 300])) };
        Scn { num, par, plan: Plan { chunk, seed: g.n(1 << 30), faults: vec![] }, wrap: if g.p(60) { Wrap::Raw } else { Wrap::Buf(g.pick(&[16, 128, 512])) }, sched: crate::driver::gen_sched(g), ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let Some(sh) = Shape::of(&s.num) else { c.skipped = true; return Ok(()) };
        let threads = s.par.threads.clamp(1, 16) as u64;
        let cap = match s.wrap { Wrap::Raw => 0, Wrap::Buf(n) if n <= 512 => n as u64, _ => { c.skipped = true; return Ok(()) } };
        if !s.plan.faults.is_empty() { c.skipped = true; return Ok(()); }
        let enc = sh.doc().encode();
        let starts: Vec<u64> = enc.lay.iter().map(|l| l.start as u64).collect();
        let min = enc.lay.iter().map(|l| l.end - l.start).min().unwrap_or(1) as u64;
        // What a pool of this size may have in hand, and what the buffer in front adds.
        let limit = 64 + 8 * threads + cap / min + 1;
        let st = SimStream::new(arc(enc.bytes), &s.plan);
        let h = st.clone();
        let spent = Arc::new(AtomicU64::new(0));
        let src = Slow { s: st, ns: sh.read_us * 1000, spent: spent.clone() };
        let left: Vec<AtomicU32> = (0..sh.blobs).map(|_| AtomicU32::new(sh.elems as u32)).collect();
        let (done, worst, cur, most, mapped, slept) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let map = |e: Element| {
            let id = match e { Element::Node(n) => n.id(), _ => -1 };
            simrt::quiet(|| {
                let high = h.with(|x| x.log.high);
                let taken = starts.partition_point(|p| *p < high) as u64;
                worst.fetch_max(taken.saturating_sub(done.load(Ordering::SeqCst)), Ordering::SeqCst);
                most.fetch_max(cur.fetch_add(1, Ordering::SeqCst) + 1, Ordering::SeqCst);
            });
            if sh.map_us > 0 && id >= 0 && id as u64 % sh.elems < sh.every { slept.fetch_add(sh.map_us * 1000, Ordering::SeqCst); simrt::sleep(sh.map_us * 1000); } else { simrt::point(simrt::K_CALLBACK); }
            simrt::event(id as u64);
            simrt::quiet(|| {
                mapped.fetch_add(1, Ordering::SeqCst);
                cur.fetch_sub(1, Ordering::SeqCst);
                if let Some(l) = left.get(id as usize / sh.elems as usize) { if l.fetch_sub(1, Ordering::SeqCst) == 1 { done.fetch_add(1, Ordering::SeqCst); } }
            });
            1u64
        };
        let pool = (s.par.mode % 2 == 0).then(|| rayon::ThreadPoolBuilder::new().num_threads(threads as usize).build().expect("pool"));
        // The global pool is there before the time is taken.
        if pool.is_none() { rayon::join(|| (), || ()); }
        let t0 = simrt::idle_ns();
        simrt::charge_allocs(sh.alloc_ns);
        let charge = Charge;
        let go = || with_src!(&s.wrap, src, r => ElementReader::new(r).par_map_reduce(map, || 0, |a, b| a + b));
        let r = match &pool { Some(p) => p.install(go), None => go() };
        std::mem::forget(charge);
        let alloc = simrt::charge_allocs(0);
        // Steps of the schedule take a little time as well, one after the other; that is not meant here.
        let span = simrt::idle_ns() - t0;
        drop(pool);
        let n = sh.blobs * sh.elems;
        match r { Ok(x) if x == n && mapped.load(Ordering::SeqCst) == n => {} Ok(x) => bail!("result", "{x} of {n} elements counted"), Err(e) => bail!("error", "a readable file gave an error: {e}") }
        let worst = worst.into_inner();
        if worst > limit { bail!("read-ahead", "{worst} of {} blobs had been taken from the source and not been worked off, with {threads} threads", sh.blobs); }
        // Reading is one after the other; the rest can overlap.
        let read = spent.load(Ordering::SeqCst);
        let work = alloc + slept.into_inner();
        let enough = work > 0 && sh.blobs >= 8 * threads && (sh.alloc_ns == 0 || sh.strings >= 100);
        if threads >= 2 && enough {
            let may = read + if threads >= 4 { work / 2 } else { work / 4 * 3 };
            if span > may { bail!("serial", "{threads} threads took {} us for {} us of work on {} blobs, besides {} us of reading", span / 1000, work / 1000, sh.blobs, read / 1000); }
            c.add("runs with overlapping work", 1);
        }
        c.log(&h.log());
        c.add("fault slow read", (sh.read_us > 0) as u64 * h.log().reads);
        c.add("fault slow callback", (sh.map_us > 0) as u64 * n);
        c.add("fault slow decoding", (sh.alloc_ns > 0) as u64 * sh.blobs);
        for (k, v) in [("max blobs in hand", worst), ("max callbacks at once", most.into_inner())] { let m = c.stats.entry(k).or_insert(0); *m = (*m).max(v); }
        c.add("runs longer than the read-ahead", (sh.blobs > limit) as u64);
        c.nontrivial = threads >= 2 && enough || sh.blobs > limit;
        Ok(())
    }
}
