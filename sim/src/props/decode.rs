//! C14: decoding is independent of what else is decoded, by whom, and in which order.
use super::*;
use crate::bail;
use osmpbf::{Blob, Element, Mmap, MmapBlob, PrimitiveBlock};
use std::sync::Mutex;

pub struct C14;
/// A blob by one of the two ways of reading, and what it must decode to (None: fails).
enum B<'a> { S(Blob), M(MmapBlob<'a>) }
impl B<'_> {
    fn decode(&self) -> osmpbf::Result<BlobDecode<'_>> { match self { B::S(b) => b.decode(), B::M(b) => b.decode() } }
}
fn check_one(k: usize, b: &B, want: &Option<Content>, how: u32) -> Result<(), String> {
    let d = match (how % 4, b, want) {
        (1, B::S(b), Some(Content::Data { .. })) => b.to_primitiveblock().map(BlobDecode::OsmData),
        (2, B::S(b), _) => { let c = b.clone(); return check_one(k, &B::S(c), want, 0); }
        (2, B::M(b), _) => { let c = b.clone(); let x = B::M(c); return check_one(k, &x, want, 0); }
        _ => b.decode(),
    };
    match (d, want) {
        (Err(_), None) => Ok(()),
        (Ok(d), Some(w)) => canon::check(w, &d, how % 3 == 0).map_err(|e| format!("blob {k}: {e}")),
        (Err(e), Some(_)) => Err(format!("blob {k}, which decodes on its own, failed: {e}")),
        (Ok(_), None) => Err(format!("blob {k}, which fails to decode on its own, was decoded")),
    }
}
/// Iterators of several kinds over shared blocks, advanced in turns.
enum It<'a> {
    All(Box<dyn Iterator<Item = Elem> + Send + 'a>, usize, usize),
}
fn iter_of<'a>(b: &'a PrimitiveBlock, kind: u32) -> Box<dyn Iterator<Item = Elem> + Send + 'a> {
    match kind % 5 {
        0 => Box::new(b.elements().map(|e: Element<'a>| canon::elem(&e))),
        1 => Box::new(b.groups().flat_map(|g| g.nodes().map(|n| canon::node(&n)).collect::<Vec<_>>())),
        2 => Box::new(b.groups().flat_map(|g| g.dense_nodes().map(|n| canon::dense(&n)).collect::<Vec<_>>())),
        3 => Box::new(b.groups().flat_map(|g| g.ways().map(|n| canon::way(&n)).collect::<Vec<_>>())),
        _ => Box::new(b.groups().flat_map(|g| g.relations().map(|n| canon::relation(&n)).collect::<Vec<_>>())),
    }
}
/// What that iterator yields when it runs alone.
fn want_of(c: &Content, b: &PrimitiveBlock, kind: u32) -> Vec<Elem> {
    let Content::Data { groups, .. } = c else { return vec![] };
    match kind % 5 {
        0 => { let v: Vec<Elem> = canon::block_elements(b); v }
        1 => groups.iter().flat_map(|g| g.nodes.clone()).collect(),
        2 => groups.iter().flat_map(|g| g.dense.clone()).collect(),
        3 => groups.iter().flat_map(|g| g.ways.clone()).collect(),
        _ => groups.iter().flat_map(|g| g.rels.clone()).collect(),
    }
}
fn work(ops: &[Op], me: u32, blobs: &[B], want: &[Option<Content>], blocks: &[(PrimitiveBlock, usize)], refs: &[Vec<Vec<Elem>>]) -> Result<u64, String> {
    let mut its: Vec<It> = vec![];
    let mut clones: Vec<(osmpbf::BlockElementsIter, usize, usize)> = vec![];
    let mut n = 0;
    for o in ops {
        simrt::point(simrt::K_CALLBACK);
        match o {
            Op::Decode(k, how) => { let k = *k as usize % blobs.len(); check_one(k, &blobs[k], &want[k], *how).map_err(|e| format!("thread {me}: {e}"))?; n += 1; }
            Op::Advance(i, steps) => {
                if blocks.is_empty() { continue; }
                let slot = *i as usize;
                // Low numbers name existing iterators, others start a new one.
                if slot < its.len() && slot % 3 != 2 {
                    let It::All(it, id, at) = &mut its[slot];
                    for _ in 0..1 + steps % 4 {
                        let (g, w) = (it.next(), refs[*id / 5][*id % 5].get(*at));
                        if g.as_ref() != w { return Err(format!("thread {me}: step {at} of an iterator over block {} gave {}, alone it gives {}", *id / 5, g.as_ref().map_or("the end".into(), short), w.map_or("the end".into(), short))); }
                        if g.is_none() { break; }
                        *at += 1;
                        n += 1;
                    }
                } else {
                    let b = slot % blocks.len();
                    its.push(It::All(iter_of(&blocks[b].0, *steps), b * 5 + (*steps % 5) as usize, 0));
                }
            }
            Op::Fork(i) => {
                if blocks.is_empty() { continue; }
                if clones.is_empty() || *i % 3 == 0 { let b = *i as usize % blocks.len(); clones.push((blocks[b].0.elements(), b, 0)); }
                let k = *i as usize % clones.len();
                if *i % 2 == 0 { let (it, b, at) = &clones[k]; let c = (it.clone(), *b, *at); clones.push(c); }
                let (it, b, at) = &mut clones[k];
                let (g, w) = (it.next().map(|e| canon::elem(&e)), refs[*b][0].get(*at));
                if g.as_ref() != w { return Err(format!("thread {me}: step {at} of a cloned iterator over block {b} gave {}, alone it gives {}", g.as_ref().map_or("the end".into(), short), w.map_or("the end".into(), short))); }
                if g.is_some() { *at += 1; n += 1; }
            }
            _ => {}
        }
    }
    // Everything that was begun ends where it must.
    for It::All(it, id, at) in its {
        let w = &refs[id / 5][id % 5];
        let rest: Vec<Elem> = it.collect();
        if rest[..] != w[at.min(w.len())..] { return Err(format!("thread {me}: the rest of an iterator over block {} has {} elements, alone it has {}{}", id / 5, rest.len(), w.len() - at.min(w.len()), if rest.len() == w.len() - at.min(w.len()) { " other ones" } else { "" })); }
    }
    for (it, b, at) in clones {
        let w = &refs[b][0];
        let rest: Vec<Elem> = it.map(|e| canon::elem(&e)).collect();
        if rest[..] != w[at.min(w.len())..] { return Err(format!("thread {me}: the rest of a cloned iterator over block {b} differs")); }
    }
    Ok(n)
}
impl Prop for C14 {
    fn id(&self) -> &'static str { "C14" }
    fn parallel(&self) -> bool { true }
    fn runs(&self, t: bool) -> u64 { if t { 4_000_000 } else { 200_000 } }
    fn rule(&self) -> String { "one run: blobs of one or two seeded files (some damaged), streamed and mapped, decoded repeatedly by 1 to 4 threads in a seeded interleaving, with iterators over shared blocks advanced in turns and readers cloned mid-way; non-trivial: at least two decodes or iterator steps and one switch between threads (or two iterators); distinct by schedule and event hash".into() }
    fn assumptions(&self) -> Vec<String> { vec!["scheduling points inside decoding are the allocations it makes, the atomic operations of the library and of std code inlined into it, and its system calls; memory is sequentially consistent between them".into()] }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let mut doc = small_doc(g);
        if g.p(40) { let d = small_doc(g); doc.blobs.extend(d.blobs); }
        for b in &mut doc.blobs {
            if matches!(b.body, Body::Other(..)) || !g.p(20) { continue; }
            match g.n(4) {
                0 => b.enc = g.pick(&[-2, -3]),
                1 if b.enc >= 0 => { let (_, r, _) = b.blob_msg(); let n = (r.1 - r.0) as u64; b.damage.push(if g.p(50) { Edit::Cut((n / 2) as u32) } else { Edit::Flip(g.n(n) as u32, g.n(8) as u8) }); }
                2 => { let n = b.plain().len() as u64; let e = gen_edit(g, n); b.inner.push(e); }
                _ => { let n = b.plain().len() as u64; b.inner.push(Edit::Set(g.n(n.max(1)) as u32, Bytes(vec![0xff; 4]))); }
            }
        }
        let t = g.pick(&[1, 2, 2, 3, 4]);
        let per = g.pick(&[2, 4, 8]) + if thorough { g.small(12) } else { 0 };
        let nb = doc.blobs.len().max(1) as u64;
        let mut ops = vec![];
        for _ in 0..t * per {
            ops.push(match g.n(10) { 0..=4 => Op::Decode(g.n(nb * 2) as u32, g.n(12) as u32), 5..=7 => Op::Advance(g.n(8) as u32, g.n(20) as u32), _ => Op::Fork(g.n(12) as u32) });
        }
        let mut sched = crate::driver::gen_sched(g);
        sched.alloc = t > 1;
        // Large blocks: fewer operations and no scheduling point per allocation, to bound the run.
        let size: u64 = doc.blobs.iter().map(|b| b.plain().len() as u64).max().unwrap_or(0);
        if size > 20_000 { ops.truncate(2 * t as usize); }
        if size > 100_000 { sched.alloc = false; }
        Scn { mode: g.n(3) as u32, doc, ops, par: Par { threads: t as u32, ..Par::default() }, plan: Plan { chunk: Chunk::All, ..Plan::default() }, sched, ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let mut clean = s.doc.clone();
        for b in &mut clean.blobs { b.damage.clear(); b.inner.clear(); if b.enc < -1 { b.enc = -1; } }
        if s.doc.blobs.is_empty() || !clean.well_formed() || !s.plan.faults.is_empty() || s.doc.blobs.iter().any(|b| b.prefix.is_some() || b.datasize.is_some()) { c.skipped = true; return Ok(()); }
        let enc = s.doc.encode();
        write_file(&c.path, &enc.bytes);
        let map = match unsafe { Mmap::from_path(&c.path) } { Ok(m) => m, Err(e) => bail!("error", "mapping failed: {e}") };
        let n = s.doc.blobs.len();
        // Read three times: what the threads share is touched by nothing before they start.
        let get = || -> Result<Vec<B>, String> {
            let mut v: Vec<B> = vec![];
            let st = SimStream::new(arc(enc.bytes.clone()), &s.plan);
            for (k, b) in BlobReader::new(st).enumerate() { v.push(B::S(b.map_err(|e| format!("blob {k} was not delivered: {e}"))?)); }
            for (k, b) in map.blob_iter().enumerate() { v.push(B::M(b.map_err(|e| format!("map: blob {k} was not delivered: {e}"))?)); }
            if v.len() != 2 * n { return Err(format!("{} blobs delivered by the two readers, {n} are stored", v.len())); }
            Ok(v)
        };
        let three = get().and_then(|a| Ok((a, get()?, get()?)));
        let (blobs, again, third) = match three { Ok(x) => x, Err(e) => bail!("error", "{e}") };
        let t = s.par.threads.clamp(1, 6) as usize;
        if s.fresh && t > 1 {
            // First use of the library in this process, by several threads at once.
            let first: Vec<(usize, Content)> = (0..2 * n).filter(|k| s.doc.blobs[k % n].well_formed()).map(|k| (k, s.doc.blobs[k % n].content())).collect();
            if !first.is_empty() {
                let r: Vec<Result<(), String>> = std::thread::scope(|sc| {
                    let (first, blobs) = (&first, &blobs);
                    let hs: Vec<_> = (0..t).map(|me| sc.spawn(move || {
                        for j in 0..2 { let (k, w) = &first[(me * 3 + j + s.mode as usize) % first.len()]; check_one(*k, &blobs[*k], &Some(w.clone()), me as u32).map_err(|e| format!("thread {me}, first use: {e}"))?; }
                        Ok(())
                    })).collect();
                    hs.into_iter().map(|h| match h.join() { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) }).collect()
                });
                for e in r { if let Err(e) = e { bail!("interference", "{e}"); } }
            }
        }
        // Each blob alone: intact ones against the model, changed ones against a decode of nothing but that blob.
        let mut want: Vec<Option<Content>> = vec![];
        let mut broken = 0;
        for (k, b) in s.doc.blobs.iter().enumerate() {
            if b.well_formed() { want.push(Some(b.content())); continue; }
            let alone = SimStream::new(arc(enc.bytes[enc.lay[k].start..enc.lay[k].end].to_vec()), &Plan::default());
            let w = match BlobReader::new(alone).next() { Some(Ok(x)) => x.decode().ok().map(|d| canon::content(&d)), _ => None };
            broken += w.is_none() as u64;
            want.push(w);
        }
        let w2 = want.clone();
        want.extend(w2);
        // Blocks shared by all threads, with what each iterator yields alone.
        let mut blocks: Vec<(PrimitiveBlock, usize)> = vec![];
        let mut refs: Vec<Vec<Vec<Elem>>> = vec![];
        for (k, (b, b2)) in again.iter().zip(&third).enumerate() {
            if blocks.len() >= 6 { break; }
            if let (Ok(BlobDecode::OsmData(p)), Ok(BlobDecode::OsmData(q)), Some(w)) = (b.decode(), b2.decode(), &want[k]) {
                refs.push((0..5).map(|kind| want_of(w, &p, kind)).collect());
                if s.doc.blobs[k % n].well_formed() { if let Err(e) = w.match_elems(&refs[refs.len() - 1][0]) { bail!("content", "blob {k} alone: {e}"); } }
                blocks.push((q, k));
            }
        }
        let share: Vec<Vec<Op>> = (0..t).map(|k| s.ops.iter().skip(k).step_by(t).cloned().collect()).collect();
        let err: Mutex<Option<String>> = Mutex::new(None);
        let mut done = 0u64;
        if t == 1 {
            match work(&share[0], 0, &blobs, &want, &blocks, &refs) { Ok(n) => done += n, Err(e) => bail!("interference", "{e}") }
        } else {
            let counts: Vec<u64> = std::thread::scope(|sc| {
                let (blobs, want, blocks, refs, err) = (&blobs, &want, &blocks, &refs, &err);
                let hs: Vec<_> = share.iter().enumerate().map(|(k, ops)| sc.spawn(move || match work(ops, k as u32, blobs, want, blocks, refs) {
                    Ok(n) => n,
                    Err(e) => { simrt::quiet(|| { err.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(e); }); 0 }
                })).collect();
                let mut v = vec![];
                for h in hs { match h.join() { Ok(n) => v.push(n), Err(p) => std::panic::resume_unwind(p) } }
                v
            });
            done += counts.iter().sum::<u64>();
            if let Some(e) = err.into_inner().unwrap_or_else(|e| e.into_inner()) { bail!("interference", "{e}"); }
        }
        // Readers cloned mid-way go on independently, each on its own thread.
        if s.mode % 3 == 1 {
            let st = SimStream::new(arc(enc.bytes.clone()), &s.plan);
            let mut a = BlobReader::new(st);
            let at = s.ops.len() % n;
            for _ in 0..at { a.next(); }
            let b = a.clone();
            let rest = |r: BlobReader<SimStream>| -> Result<(), String> {
                let mut k = at;
                for x in r {
                    let x = x.map_err(|e| format!("blob {k}: {e}"))?;
                    if k >= n { return Err("a blob too many".into()); }
                    check_one(k, &B::S(x), &want[k], 0)?;
                    k += 1;
                }
                if k != n { return Err(format!("the iteration ended at blob {k} of {n}")); }
                Ok(())
            };
            let (x, y) = std::thread::scope(|sc| { let h = sc.spawn(|| rest(b)); let x = rest(a); (x, h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))) });
            if let Err(e) = x { bail!("clone", "a reader that was cloned at blob {at}: {e}"); }
            if let Err(e) = y { bail!("clone", "the clone of a reader at blob {at}: {e}"); }
            done += 2;
        }
        if s.mode % 3 == 2 {
            let mut a = map.blob_iter();
            let at = s.ops.len() % n;
            for _ in 0..at { a.next(); }
            let mut b = a.clone();
            for k in at..n {
                for (who, it) in [("original", &mut a), ("clone", &mut b)] {
                    match it.next() { Some(Ok(x)) => if let Err(e) = check_one(k, &B::M(x), &want[k], 0) { bail!("clone", "map iterator, {who}: {e}") }, _ => bail!("clone", "map iterator, {who}: blob {k} not delivered") }
                }
            }
            done += 2;
        }
        drop((blobs, again, third));
        c.add("decodes and iterator steps checked", done);
        c.add("fault undecodable blob", broken);
        c.add(if t == 1 { "runs with one thread" } else { "runs with several threads" }, 1);
        for o in &s.ops { match o { Op::Decode(a, b) => c.sig((*a as u64) << 8 | *b as u64), Op::Advance(a, b) => c.sig(1 << 20 | (*a as u64) << 8 | *b as u64), Op::Fork(a) => c.sig(2 << 20 | *a as u64), _ => {} } }
        for b in enc.bytes.iter().step_by(enc.bytes.len() / 16 + 1) { c.sig(*b as u64); }
        c.nontrivial = done >= 2;
        Ok(())
    }
}
