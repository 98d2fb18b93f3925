//! Memory over time: C20 nothing piles up, nothing stays behind.
use super::*;
use crate::{bail, with_src};
use osmpbf::{ByteOffset, Element, IndexedReader, Mmap};
use simrt::heap;
use std::sync::atomic::Ordering;

pub struct C20;
const WAYS: &[&str] = &["runs sequential", "runs blob by blob", "runs memory map", "runs index", "runs seeking", "runs parallel", "runs headers only", "runs one reader again and again"];
/// Bytes that may be kept for one blob (an index entry), whatever the blob holds.
const PER_BLOB: u64 = 256;
fn live() -> i64 { heap::LIVE.load(Ordering::Relaxed) as i64 }
/// Uses every element; how it went does not matter here.
fn look(e: Element) -> u64 { canon::elem(&e).hash() & 0xff }
fn use_blob(b: &osmpbf::Blob) -> u64 {
    match b.decode() { Ok(BlobDecode::OsmData(b)) => { let mut n = 0; b.for_each_element(|e| n += look(e)); n } Ok(_) => 1, Err(e) => e.to_string().len() as u64 }
}
/// One pass over the whole source. Errors and injected panics are part of it.
fn pass(s: &Scn, bytes: &Arc<Vec<u8>>, path: &str, each: &mut dyn FnMut()) -> (u64, i64) {
    let st = SimStream::new(bytes.clone(), &s.plan);
    let (mut n, mut kept) = (0u64, 0i64);
    let panic_at = s.par.panic_at as u64;
    let boom = |k: &mut u64| { *k += 1; if *k == panic_at { std::panic::panic_any(SimPanic(*k)) } };
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut k = 0u64;
        match s.mode {
            0 => { let _ = with_src!(&s.wrap, st, r => ElementReader::new(r).for_each(|e| { n += look(e); boom(&mut k); each(); })); }
            1 => { with_src!(&s.wrap, st, r => for b in BlobReader::new(r) { if let Ok(b) = &b { n += use_blob(b); boom(&mut k); } drop(b); each(); }); }
            2 => { if let Ok(m) = unsafe { Mmap::from_path(path) } { for b in m.blob_iter() { if let Ok(b) = &b { if let Ok(BlobDecode::OsmData(b)) = b.decode() { b.for_each_element(|e| n += look(e)); } boom(&mut k); } each(); } } }
            3 => if let Ok(mut r) = IndexedReader::new(st) {
                let before = live();
                for q in 0..3 {
                    let k = &mut k;
                    let _ = match q { 0 => r.for_each_node(|e| { n += look(e); boom(k); each(); }), _ => r.read_ways_and_deps(|w| w.id() % 2 == q as i64 - 1, |e| { n += look(e.clone()); boom(k); each(); }) };
                }
                kept = live() - before;
            },
            4 => if let Ok(mut r) = BlobReader::new_seekable(st) {
                let mut at = vec![];
                while let Some(Ok((h, p))) = r.next_header_skip_blob() { n += h.blob_type().as_str().len() as u64; at.push(p); if at.len() > 10_000 { break; } }
                for p in at.iter().rev().flatten() { if let Ok(b) = r.blob_from_offset(*p) { n += use_blob(&b); boom(&mut k); } let _ = r.seek(ByteOffset(0)); each(); }
            },
            5 => {
                let c = std::sync::atomic::AtomicU32::new(0);
                let r = ElementReader::new(st).par_map_reduce(|e| { if c.fetch_add(1, Ordering::SeqCst) as u64 + 1 == panic_at { std::panic::panic_any(SimPanic(panic_at)) } look(e) }, || 0, |a, b| a + b);
                if let Ok(x) = r { n += x; }
            }
            _ => if let Ok(mut r) = BlobReader::new_seekable(st) { while let Some(Ok((h, _))) = r.next_header_skip_blob() { n += h.get_blob_size() as u64; each(); } },
        }
    }));
    (n, kept)
}
fn plain_src(wrap: &Wrap, st: SimStream) -> Box<dyn ReadSeek> { match wrap { Wrap::Buf(n) => Box::new(BufReader::with_capacity((*n as usize).max(1), st)), _ => Box::new(st) } }
trait ReadSeek: Read + Seek + Send {}
impl<T: Read + Seek + Send> ReadSeek for T {}

impl Prop for C20 {
    fn id(&self) -> &'static str { "C20" }
    fn runs(&self, t: bool) -> u64 { if t { 1_000_000 } else { 40_000 } }
    fn assumptions(&self) -> Vec<String> { vec!["live heap is counted at the global allocator; memory taken from the system in other ways is not seen (maps: C15)".into(), "up to 256 bytes may be kept per blob by an index, and 32 KiB + 16 times the largest blob by any reader; what is kept after everything was dropped must not grow from one pass to the next".into()] }
    fn rule(&self) -> String { "one run: a seeded file, possibly with undecodable blobs, failing reads and panicking callbacks, read again and again by one kind of reader, or a long file read once; live heap is compared between passes and along the file; non-trivial: something was delivered in every pass; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let mode = g.n(8) as u32;
        let mut c = Cfg::swarm(g);
        c.max_blobs = g.pick(&[2, 4, 8]);
        c.scale = false;
        let mut doc = gen::doc(g, &c);
        if doc.blobs.is_empty() { doc.blobs.push(gen::blob(g, &c, false)); }
        // How often the file is repeated (a long file), and how often it is read.
        let long = mode != 5 && mode != 7 && g.p(25);
        let (rep, times) = if long { (g.pick(&[20, 50, if thorough { 200 } else { 60 }]), 2) } else { (1, g.pick(&[6, 10, 20])) };
        if g.p(25) { for _ in 0..g.pick(&[1, 1, 2]) { let k = g.n(doc.blobs.len() as u64) as usize; match g.n(3) { 0 => doc.blobs[k].enc = g.pick(&[-2, -3]), 1 => doc.blobs[k].inner.push(Edit::Set(g.n(60) as u32, Bytes(vec![0xff, 0xff, 0xff]))), _ => { let (_, r, _) = doc.blobs[k].blob_msg(); let e = gen_edit(g, (r.1 - r.0) as u64); doc.blobs[k].damage.push(e); } } } }
        // Very many, very small blobs: what is kept for each adds up.
        let (mut doc, rep) = if long && mode != 3 && g.p(12) {
            let d = Doc { blobs: (0..1 + g.n(2)).map(|_| BlobS { body: if g.p(70) { Body::Data(BlockS::default()) } else { Body::Other(Bytes::from("x"), Bytes(vec![])) }, enc: -1, raw_size: -1, ..BlobS::default() }).collect() };
            (d, g.pick(&[6000, 12_000]))
        } else { (doc, rep) };
        if long && rep < 1000 { for b in &mut doc.blobs { if let Body::Data(x) = &mut b.body { if g.p(80) { x.more = g.pick(&[100, 300, 600]); } } b.indexdata = g.pick(&[0, 0, 1500]); } }
        let e = doc.encode();
        let mut plan = Plan { chunk: g.pick(&[Chunk::All, Chunk::All, Chunk::Fixed(61), Chunk::Random(100)]), seed: g.n(1 << 30), faults: vec![] };
        if !long && g.p(30) {
            let kind = g.n(KINDS.len() as u64) as u8;
            plan.faults.push(match g.n(4) { 0 => Fault { at: At::Byte(gen_pos(g, &e)), what: What::Eof }, 1 => Fault { at: At::Seek(g.small(20) as u32), what: What::SeekErr(kind, g.pick(&[1, 0])) }, _ => Fault { at: At::Byte(gen_pos(g, &e)), what: What::Err(kind, g.pick(&[1, 0])) } });
        }
        let par = Par { threads: g.pick(&[1, 2, 3]), panic_at: if !long && g.p(20) { 1 + g.small(10) as u32 } else { 0 }, ..Par::default() };
        Scn { mode, doc, plan, par, num: vec![rep, times], wrap: if g.p(50) { Wrap::Raw } else { Wrap::Buf(g.pick(&[16, 512, 8192])) }, ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let (rep, times) = (s.num.first().copied().unwrap_or(1).clamp(1, 30_000) as usize, s.num.get(1).copied().unwrap_or(2).clamp(2, 60) as usize);
        if s.mode > 7 { c.skipped = true; return Ok(()); }
        let one = s.doc.encode();
        let per = one.lay.len() as u64;
        let mut all = Vec::with_capacity(one.bytes.len() * rep);
        for _ in 0..rep { all.extend_from_slice(&one.bytes); }
        let bytes = arc(all);
        if s.mode == 2 { write_file(&c.path, &bytes); }
        // What blobs of this file can take while they are in use.
        let biggest = one.lay.iter().map(|l| (l.plain_len + (l.end - l.start)) as u64).max().unwrap_or(0);
        let pool = (s.mode == 5).then(|| rayon::ThreadPoolBuilder::new().num_threads(s.par.threads.clamp(1, 4) as usize).build().expect("pool"));
        let mut got = vec![];
        got.reserve(times + 1);
        let mut after: Vec<i64> = Vec::with_capacity(times + 1);
        let mut track: Vec<i64> = Vec::with_capacity(1 << 12);
        let gap = (rep as u64 * per / 2000).max(1);
        if s.mode == 7 {
            // One reader, asked again and again.
            let st = SimStream::new(bytes.clone(), &Plan { faults: vec![], ..s.plan.clone() });
            let src = plain_src(&s.wrap, st);
            let half = s.par.threads % 2 == 0;
            if half {
                let mut r = match IndexedReader::new(src) { Ok(r) => r, Err(e) => bail!("error", "opening failed: {e}") };
                for k in 0..times {
                    let mut n = 0;
                    let _ = if k % 2 == 0 { r.for_each_node(|e| n += look(e)).is_ok() } else { r.read_ways_and_deps(|_| true, |e| n += look(e.clone())).is_ok() };
                    if k % 2 == 1 { got.push(n); after.push(live()); }
                }
            } else {
                let mut r = match BlobReader::new_seekable(src) { Ok(r) => r, Err(e) => bail!("error", "opening failed: {e}") };
                for _ in 0..times {
                    let mut n = 0;
                    let _ = r.seek(ByteOffset(0));
                    while let Some(Ok(b)) = r.next() { n += use_blob(&b); }
                    got.push(n);
                    after.push(live());
                }
            }
        } else {
            for k in 0..times {
                let last = k + 1 == times && rep > 1;
                let mut calls = 0u64;
                let mut each = || { calls += 1; if last && calls % gap == 0 && track.len() < track.capacity() { track.push(live()); } };
                let (n, kept) = match &pool { Some(p) => p.install(|| pass(s, &bytes, &c.path, &mut || ())), None => pass(s, &bytes, &c.path, &mut each) };
                simrt::event(n);
                let may = (32 << 10) + 16 * biggest + PER_BLOB * per * rep as u64;
                if kept > may as i64 { bail!("index-size", "an indexed reader keeps {kept} bytes for {} blobs of up to {biggest} bytes", per * rep as u64); }
                got.push(n);
                after.push(live());
                crate::driver::last_panic();
            }
        }
        drop(pool);
        // Between passes: compare the later ones with the second (the first may settle what is kept for good).
        let slack = match s.mode { 5 => 8192, _ => 64 };
        if after.len() >= 3 {
            let base = after[1];
            let end = *after.last().unwrap();
            let passes = after.len() as i64 - 2;
            let grown = after.windows(2).skip(1).filter(|w| w[1] > w[0]).count();
            if end - base > slack && (grown * 2 > passes as usize || end - base > 1 << 16) { bail!("piles-up", "{} bytes more on the heap after {} more passes ({})", end - base, passes, WAYS[s.mode as usize]); }
        } else if after.len() == 2 && rep > 1 {
            let d = after[1] - after[0];
            if d > (64 << 10) { bail!("stays-behind", "{d} bytes more on the heap after reading a file of {} blobs a second time ({})", per * rep as u64, WAYS[s.mode as usize]); }
        }
        // Along one long file: what is there at the end against what was there at the beginning.
        if track.len() >= 16 {
            let m = track.len() / 8;
            let early = *track[..m].iter().max().unwrap();
            let late = *track[track.len() - m..].iter().min().unwrap();
            let may = (32 << 10) + 16 * biggest as i64 + if s.mode == 3 { (PER_BLOB * per * rep as u64) as i64 } else { 0 };
            if late - early > may { bail!("grows", "towards the end of the file the heap never falls below {} bytes more than at any time at its beginning ({} blobs of up to {biggest} bytes, {})", late - early, per * rep as u64, WAYS[s.mode as usize]); }
            c.add("max heap growth along a file", 0);
            let x = c.stats.entry("max heap growth along a file").or_insert(0);
            *x = (*x).max((late - early).max(0) as u64);
            c.add("runs along a long file", 1);
        }
        c.add(WAYS[s.mode as usize], 1);
        c.add("passes", got.len() as u64);
        c.add("fault undecodable blob", s.doc.blobs.iter().filter(|b| !b.damage.is_empty() || !b.inner.is_empty() || b.enc < -1).count() as u64);
        c.add("fault callback panic", (s.par.panic_at > 0 && s.mode < 6) as u64);
        c.add("fault failing source", !s.plan.faults.is_empty() as u64);
        for n in &got { c.sig(*n); }
        c.nontrivial = !got.is_empty() && got.iter().all(|n| *n > 0);
        Ok(())
    }
}
