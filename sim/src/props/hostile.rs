//! Hostile and damaged bytes: C04 robustness, C07 agreement of the two readers, C12 limits.
use super::*;
use simrt::heap::{self, CEIL};
use crate::{bail, with_src};
use osmpbf::{Element, IndexedReader, Mmap};
use std::sync::atomic::Ordering;

// ---------------------------------------------------------------- C04
pub struct C04;
const NASTY32: &[i64] = &[0, -1, 1, i32::MAX as i64, i32::MIN as i64, 1 << 30, -(1 << 30), i32::MAX as i64 - 1, 65535, 65536];
const NASTY: &[i64] = &[0, -1, 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, 1 << 62, -(1 << 62), i64::MAX / 2, i64::MIN / 2, i64::MAX / 100, i64::MIN / 100, 180_000_000_000];
fn n64(g: &mut G) -> i64 { if g.p(70) { g.pick(NASTY) } else { g.0.next() as i64 } }
fn n32(g: &mut G) -> i32 { if g.p(70) { g.pick(NASTY32) as i32 } else { g.0.next() as i32 } }
/// Breaks the rules of the format inside one block.
fn twist(g: &mut G, b: &mut BlockS) {
    let inf = |g: &mut G| InfoS { version: Some(n32(g)), ts: Some(n64(g)), cs: Some(n64(g)), uid: Some(n32(g)), user: Some(n32(g) as u32), visible: None };
    for _ in 0..1 + g.small(4) {
        match g.n(8) {
            0 => b.gran = Some(n32(g)),
            1 => b.date_gran = Some(n32(g)),
            2 => b.lat_off = Some(n64(g)),
            3 => b.lon_off = Some(n64(g)),
            4 => b.strings.push(Bytes(vec![0xff, 0xfe, b'a'])),
            5 => b.strings.truncate(g.n(3) as usize),
            _ => {}
        }
        let ng = b.groups.len() as u64;
        if ng == 0 { continue; }
        let k = g.n(ng) as usize;
        let x = &mut b.groups[k];
        if g.p(25) { x.mangle = g.0.next() as u32; }
        if g.p(20) { x.mangle = 1 << g.n(16); }
        for n in x.nodes.iter_mut() { if g.p(40) { n.id = n64(g); n.lat = n64(g); n.lon = n64(g); n.tags.push((n32(g) as u32, n32(g) as u32)); n.info = Some(inf(g)); } }
        if let Some(d) = &mut x.dense {
            for n in d.nodes.iter_mut() { if g.p(40) { n.id = n64(g); n.lat = n64(g); n.lon = n64(g); n.ts = n64(g); n.cs = n64(g); n.uid = n32(g); n.user = n32(g); n.version = n32(g); n.tags.push((n32(g), n32(g))); } }
        }
        for w in x.ways.iter_mut() { if g.p(40) { w.id = n64(g); w.refs.push(n64(g)); w.refs.push(n64(g)); w.locs.push((n64(g), n64(g))); w.locs.push((n64(g), n64(g))); w.tags.push((n32(g) as u32, n32(g) as u32)); w.info = Some(inf(g)); } }
        for r in x.rels.iter_mut() { if g.p(50) { r.id = n64(g); r.members.push((n32(g), n64(g), n32(g))); r.members.push((0, n64(g), g.n(5) as i32)); r.info = Some(inf(g)); } }
    }
}
pub fn hostile_doc(g: &mut G) -> (Doc, Vec<Edit>) {
    let mut doc = small_doc(g);
    for b in &mut doc.blobs {
        if g.p(50) {
            match &mut b.body {
                Body::Data(d) => twist(g, d),
                Body::Header(h) => if g.p(50) { h.bbox = Some((n64(g), n64(g), n64(g), n64(g))); h.ts = Some(n64(g)); h.req.push(Bytes(vec![0xff])); },
                Body::Other(n, _) => if g.p(30) { *n = Bytes(vec![0xc3, 0x28]); },
            }
        }
        if g.p(25) { let n = b.plain().len() as u64; for _ in 0..1 + g.small(3) { b.inner.push(gen_edit(g, n)); } }
        if g.p(10) { let (_, r, _) = b.blob_msg(); let n = (r.1 - r.0) as u64; b.damage.push(gen_edit(g, n)); }
        if g.p(8) { b.datasize = Some(if g.p(60) { g.pick(NASTY32) } else { -(g.n(400) as i64) }); }
        if g.p(6) { b.prefix = Some(if g.p(50) { g.pick(&[0, 1, 65535, 65536, u32::MAX, i32::MAX as u32, 0x8000_0000]) } else { g.n(300) as u32 }); }
        if g.p(6) { b.raw_size = n32(g) as i64; }
        if g.p(5) { b.enc = g.pick(&[-2, -3]); }
    }
    if g.p(3) && !doc.blobs.is_empty() {
        // A body size that leads exactly back to the start of this or an earlier blob, or on to a later one.
        let k = g.n(doc.blobs.len() as u64) as usize;
        doc.blobs[k].datasize = Some(-1);
        let lay = doc.encode().lay;
        let j = if g.p(80) { g.n(k as u64 + 1) as usize } else { g.n(lay.len() as u64) as usize };
        doc.blobs[k].datasize = Some(lay[j].start as i64 - lay[k].body as i64);
    }
    let mut edits = vec![];
    let len = doc.encode().bytes.len() as u64;
    if g.p(45) { for _ in 0..1 + g.small(3) { edits.push(gen_edit(g, len)); } }
    (doc, edits)
}
fn bytes_of(s: &Scn) -> Vec<u8> { let mut b = s.doc.encode().bytes; apply_edits(&mut b, &s.edits); b }
/// Announced lengths, clones and formatting of everything in a block; none of it may panic.
fn poke(b: &osmpbf::PrimitiveBlock) -> usize {
    let mut n = b.groups().len();
    for gr in b.groups() {
        n += gr.nodes().len() + gr.ways().len() + gr.relations().len() + gr.dense_nodes().len();
        for x in gr.nodes() { n += x.tags().len() + x.raw_tags().len(); }
        for x in gr.dense_nodes() { n += x.tags().len() + x.raw_tags().len(); }
        for x in gr.ways() { n += x.tags().len() + x.refs().len() + x.raw_refs().len() + x.node_locations().len(); }
        for x in gr.relations() {
            n += x.tags().len() + x.members().len();
            for m in x.members() { if let Err(e) = m.role() { n += e.to_string().len() & 1; } }
        }
    }
    let it = b.elements();
    n += it.clone().count() & 1;
    n += it.last().is_some() as usize;
    n
}
impl Prop for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn compact(&self) -> bool { true }
    fn parallel(&self) -> bool { true }
    fn runs(&self, t: bool) -> u64 { if t { 8_000_000 } else { 300_000 } }
    fn rule(&self) -> String { "one run: seeded hostile bytes (a file model with broken fields, columns, lengths, indices, plus raw byte damage) through one of the readers and every accessor; non-trivial: at least one blob or error was yielded; distinct by event hash and result counts".into() }
    fn gen(&self, g: &mut G, _: u64, _: bool) -> Scn {
        let (doc, edits) = hostile_doc(g);
        let len = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        if len > 20_000 { plan.chunk = Chunk::All; }
        let mode = g.pick(&[0, 1, 1, 2, 3, 3, 4, 5, 6]);
        let sched = if mode == 5 { crate::driver::gen_sched(g) } else { Sched::default() };
        Scn { mode, doc, edits, plan, wrap: if g.p(70) { Wrap::Raw } else { Wrap::Buf(g.pick(&[1, 13, 8192])) }, par: Par { threads: g.r(1, 4) as u32, ..Par::default() }, sched, num: vec![n64(g), n64(g)], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let bytes = bytes_of(s);
        let len = bytes.len() as u64;
        let most = len as usize / 4 + 2;
        let base = heap::reset_peak();
        CEIL.store(base + (96 << 20) + 1000 * len as usize, Ordering::Relaxed);
        let st = SimStream::new(arc(bytes.clone()), &s.plan);
        st.with(|x| x.limit = 10_000 + 12 * len + 40 * x.plan.faults.len() as u64);
        let h = st.clone();
        let (mut ok, mut err) = (0usize, 0usize);
        let mut text = 0usize;
        let mut see = |e: osmpbf::Error| { err += 1; text += e.to_string().len() + format!("{e:?}").len(); let _ = std::io::Error::from(e).to_string(); };
        let dec = |d: osmpbf::Result<BlobDecode>, see: &mut dyn FnMut(osmpbf::Error)| match d {
            Ok(d) => { let _ = canon::content(&d); if let BlobDecode::OsmData(b) = &d { canon::block_elements(b); canon::block_for_each(b); poke(b); let _ = b.clone(); } }
            Err(e) => see(e),
        };
        match s.mode % 7 {
            0 => {
                let mut n = 0u64;
                let r = with_src!(&s.wrap, st, r => ElementReader::new(r).for_each(|e| { canon::elem(&e); n += 1; }));
                ok += n as usize;
                if let Err(e) = r { see(e); }
            }
            1 | 6 => {
                let r = with_src!(&s.wrap, st, r => {
                    let mut it = BlobReader::new_seekable(r).expect("fault-free constructor");
                    let mut f = || -> R {
                        let mut n = 0;
                        while let Some(x) = it.next() {
                            n += 1;
                            if n > most { bail!("endless", "{n} results from {len} bytes"); }
                            match x { Ok(b) => { ok += 1; dec(b.decode(), &mut see); if n % 3 == 0 { let _ = b.clone().to_headerblock().map(|h| canon::header(&h)); dec(b.to_primitiveblock().map(BlobDecode::OsmData), &mut see); } } Err(e) => see(e) }
                        }
                        Ok(())
                    };
                    f()
                });
                r?;
            }
            2 => {
                let r = with_src!(&s.wrap, st, r => {
                    let mut it = BlobReader::new_seekable(r).expect("fault-free constructor");
                    let mut f = || -> R {
                        let mut n = 0;
                        while let Some(x) = it.next_header_skip_blob() {
                            n += 1;
                            if n > most { bail!("endless", "{n} headers from {len} bytes"); }
                            match x { Ok((h, _)) => { ok += 1; let _ = (h.blob_type(), h.get_blob_size()); } Err(e) => see(e) }
                        }
                        Ok(())
                    };
                    f()
                });
                r?;
            }
            3 => {
                let mut r = IndexedReader::new(st).expect("fault-free constructor");
                let mut n = 0usize;
                for _ in 0..2 {
                    if let Err(e) = r.for_each_node(|e| { canon::elem(&e); n += 1; }) { see(e); }
                    let (a, b) = (s.num.first().copied().unwrap_or(0), s.num.get(1).copied().unwrap_or(0));
                    if let Err(e) = r.read_ways_and_deps(|w| { canon::way(w); w.refs().any(|x| x >= a || x <= b) }, |e| { canon::elem(e); n += 1; }) { see(e); }
                }
                ok += n;
            }
            4 => {
                write_file(&c.path, &bytes);
                match unsafe { Mmap::from_path(&c.path) } {
                    Err(e) => bail!("error", "mapping failed: {e}"),
                    Ok(m) => {
                        let mut it = m.blob_iter();
                        for x in s.num.iter().take(1) { if *x % 3 == 0 { it.seek(osmpbf::ByteOffset(x.unsigned_abs())); } }
                        let mut n = 0;
                        while let Some(x) = it.next() {
                            n += 1;
                            if n > most { bail!("endless", "{n} results from a map of {len} bytes"); }
                            match x { Ok(b) => { ok += 1; let _ = b.get_type(); dec(b.decode(), &mut see); } Err(e) => see(e) }
                        }
                    }
                }
            }
            _ => {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(s.par.threads.clamp(1, 8) as usize).build().expect("pool");
                let r = pool.install(|| ElementReader::new(st).par_map_reduce(|e: Element| { simrt::quiet(|| canon::elem(&e)); 1u64 }, || 0, |a, b| a + b));
                match r { Ok(n) => ok += n as usize, Err(e) => see(e) }
            }
        }
        CEIL.store(usize::MAX, Ordering::Relaxed);
        c.log(&h.log());
        c.add("results", ok as u64);
        c.add("errors", err as u64);
        c.add("error text bytes", text as u64);
        c.add(["runs for_each", "runs blob reader", "runs header skip", "runs indexed", "runs map", "runs parallel", "runs blob reader"][(s.mode % 7) as usize], 1);
        c.sig(ok as u64 ^ (err as u64) << 32 ^ (text as u64) << 40);
        c.nontrivial = ok + err > 0;
        Ok(())
    }
}

// ---------------------------------------------------------------- C07
pub struct C07;
/// What the framing at `at` says, read independently: None if unclear.
fn frame(b: &[u8], at: usize) -> Option<(usize, i64)> {
    let p = b.get(at..at + 4)?;
    let h = u32::from_be_bytes(p.try_into().unwrap()) as usize;
    if h >= 65536 { return None; }
    let m = b.get(at + 4..at + 4 + h)?;
    let (mut i, mut ds) = (0usize, None);
    let vi = |i: &mut usize| -> Option<u64> { let (mut v, mut s) = (0u64, 0); loop { let x = *m.get(*i)?; *i += 1; v |= ((x & 127) as u64).checked_shl(s)?; s += 7; if x < 128 { return Some(v); } if s > 63 { return None; } } };
    while i < m.len() {
        let k = vi(&mut i)?;
        match (k >> 3, k & 7) {
            (3, 0) => ds = Some(vi(&mut i)? as i32 as i64),
            (_, 0) => { vi(&mut i)?; }
            (_, 1) => i += 8,
            (_, 2) => { let n = vi(&mut i)?; i = i.checked_add(usize::try_from(n).ok()?)?; }
            (_, 5) => i += 4,
            _ => return None,
        }
        if i > m.len() { return None; }
    }
    Some((4 + h, ds?))
}
impl Prop for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn compact(&self) -> bool { true }
    fn runs(&self, t: bool) -> u64 { if t { 6_000_000 } else { 220_000 } }
    fn rule(&self) -> String { "one run: one seeded file (intact, truncated, or damaged in storage) read through a map and through a stream in lock step; non-trivial: at least one blob or error was compared; distinct by event hash and outcome".into() }
    fn gen(&self, g: &mut G, _: u64, _: bool) -> Scn {
        let (doc, mut edits) = match g.n(10) {
            0 | 1 => (small_doc(g), vec![]),
            2..=5 => { let d = small_doc(g); let e = d.encode(); let p = gen_pos(g, &e); (d, vec![Edit::Cut(p as u32)]) }
            6 | 7 => { let d = small_doc(g); let len = d.encode().bytes.len() as u64; let e = (0..1 + g.small(2)).map(|_| gen_edit(g, len)).collect(); (d, e) }
            _ => hostile_doc(g),
        };
        if g.p(5) { let n = 1 + g.n(6); let b = Bytes((0..n).map(|_| g.pick(&[0, 0, 1, 0xff])).collect()); edits.push(Edit::Ins(0, b)); }
        Scn { mode: g.n(3) as u32, doc, edits, plan: Plan { chunk: gen_chunk(g), ..Plan::default() }, ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let bytes = bytes_of(s);
        write_file(&c.path, &bytes);
        let m = match unsafe { Mmap::from_path(&c.path) } { Ok(m) => m, Err(e) => bail!("error", "mapping failed: {e}") };
        let mut mi = m.blob_iter();
        let h;
        let mut si = match s.mode % 3 {
            0 | 1 => {
                let mut p = s.plan.clone();
                if bytes.len() > 20_000 { p.chunk = Chunk::All; }
                let st = SimStream::new(arc(bytes.clone()), &p);
                st.with(|x| x.limit = 10_000 + 12 * bytes.len() as u64);
                h = Some(st.clone());
                if s.mode % 3 == 0 { AnyReader::Raw(BlobReader::new_seekable(st).expect("fault-free constructor")) } else { AnyReader::Buf(BlobReader::new_seekable(BufReader::with_capacity(29, st)).expect("fault-free constructor")) }
            }
            _ => { h = None; AnyReader::File(match BlobReader::from_path(&c.path) { Ok(r) => r, Err(e) => bail!("error", "from_path: {e}") }) }
        };
        let (mut blobs, mut errors) = (0u64, 0u64);
        let mut k = 0;
        let mut at = 0usize;
        loop {
            if k > bytes.len() / 4 + 2 { bail!("endless", "{k} results from {} bytes", bytes.len()); }
            let (a, b) = (si.next(), mi.next());
            match (a, b) {
                (None, None) => {
                    if si.next().is_some() || mi.next().is_some() { bail!("goes-on", "an iteration goes on after its end"); }
                    break;
                }
                (Some(Ok(a)), Some(Ok(b))) => {
                    if a.get_type() != b.get_type() { bail!("type", "blob {k}: stream says {:?}, map says {:?}", a.get_type(), b.get_type()); }
                    let o = a.offset().map(|o| o.0);
                    if o != Some(b.offset().0) { bail!("offset", "blob {k}: stream says {o:?}, map says {}", b.offset().0); }
                    at = b.offset().0 as usize;
                    match (a.decode(), b.decode()) {
                        (Ok(x), Ok(y)) => {
                            let (x, y) = (canon::content(&x), canon::content(&y));
                            if x != y { bail!("content", "blob {k}: {}", canon::explain(&x, &y)); }
                        }
                        (Err(x), Err(y)) => { if x.to_string() != y.to_string() { bail!("content", "blob {k}: the stream's decode error is '{x}', the map's '{y}'"); } }
                        (x, y) => bail!("content", "blob {k}: decoding through the stream {}, through the map {}", x.map_or_else(|e| format!("fails ({e})"), |_| "succeeds".into()), y.map_or_else(|e| format!("fails ({e})"), |_| "succeeds".into())),
                    }
                    at = frame(&bytes, at).map_or(at, |f| at + f.0 + f.1.max(0) as usize);
                    blobs += 1;
                }
                (Some(Err(x)), Some(Err(_))) => {
                    errors += 1;
                    let _ = x;
                    for n in 0..2 {
                        if si.next().is_some() { bail!("goes-on", "the stream goes on after its framing error ({n})"); }
                        if mi.next().is_some() { bail!("goes-on", "the map goes on after its framing error ({n})"); }
                    }
                    break;
                }
                (Some(Err(x)), Some(Ok(b))) => {
                    // The stream parses the blob message while reading, the map while decoding.
                    match b.decode() {
                        Ok(_) => bail!("framing", "blob {k}: the stream reports '{x}', the map delivers and decodes it"),
                        Err(_) => match frame(&bytes, b.offset().0 as usize) {
                            Some((n, ds)) if ds < 0 || b.offset().0 as usize + n + ds as usize > bytes.len() => bail!("framing", "blob {k} is not complete in the file: the stream reports '{x}', the map delivers a blob"),
                            _ => {}
                        },
                    }
                    errors += 1;
                    if si.next().is_some() { bail!("goes-on", "the stream goes on after its error"); }
                    break;
                }
                (a, b) => {
                    let t = |o: Option<Result<(), String>>| match o { None => "ends".to_string(), Some(Ok(())) => "delivers a blob".into(), Some(Err(e)) => format!("reports '{e}'") };
                    bail!("framing", "result {k} (near byte {at} of {}): the stream {}, the map {}", bytes.len(), t(a.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))), t(b.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
                }
            }
            k += 1;
        }
        if let Some(h) = h { c.log(&h.log()); }
        c.add("blobs compared", blobs);
        c.add("errors compared", errors);
        c.add("fault storage damage", s.edits.iter().filter(|e| !matches!(e, Edit::Cut(_))).count() as u64);
        c.add("fault truncated file", s.edits.iter().filter(|e| matches!(e, Edit::Cut(_))).count() as u64);
        c.sig(blobs << 8 | errors);
        for b in bytes.iter().rev().take(8) { c.sig(*b as u64); }
        c.nontrivial = blobs + errors > 0;
        Ok(())
    }
}

// ---------------------------------------------------------------- C12
pub struct C12;
const M: u64 = 32 << 20;
fn big_block(fill: u32, seed: u64, late: bool) -> BlockS {
    let g = GroupS { nodes: vec![NodeS { id: 7, lat: 1, lon: 2, tags: vec![(1, 1)], info: None }], ..GroupS::default() };
    BlockS { strings: vec![Bytes::from(""), Bytes::from("k")], groups: vec![g], fill, fill_seed: seed, order: if late { 16 } else { 0 }, ..BlockS::default() }
}
impl Prop for C12 {
    fn id(&self) -> &'static str { "C12" }
    fn runs(&self, t: bool) -> u64 { if t { 160_000 } else { 4_000 } }
    fn rule(&self) -> String { "one run: a blob whose header or uncompressed size lies around a limit, or whose length fields or compression ratio lie, through a stream or a map; non-trivial: size within 64 bytes of a limit or a lying length; distinct by parameters and event hash".into() }
    fn assumptions(&self) -> Vec<String> { vec!["heap use is counted at the global allocator of the simulation process".into()] }
    fn gen(&self, g: &mut G, i: u64, thorough: bool) -> Scn {
        let kind = match i % 64 { 0 | 16 => 1, 32 => 3, 48 => 4, k if k % 5 < 2 => 2, _ => 0 };
        let mut doc = Doc { blobs: vec![] };
        if g.p(50) { doc.blobs.push(BlobS { body: Body::Header(gen::header(g)), enc: -1, ..BlobS::default() }); }
        let d = |g: &mut G| g.pick(&[-1i64, 0, 1, -1, 0, -2, 2, -17, 40]);
        match kind {
            0 => {
                // Header size around 64 KiB.
                let mut c = Cfg::swarm(g);
                c.max_elems = 3;
                let mut b = gen::blob(g, &c, false);
                b.indexdata = 1;
                let (msg, _, _) = b.blob_msg();
                let base = b.header_msg(msg.len()).len() as i64 - 1;
                let target = if g.p(85) { 65536 + d(g) } else { g.r(30_000, 140_000) };
                // The length of indexdata takes one to three bytes itself.
                for pad in [target - base, target - base - 1, target - base - 2] { if pad > 0 { b.indexdata = pad as u32; if b.header_msg(msg.len()).len() as i64 == target { break; } } }
                doc.blobs.push(b);
                if g.p(50) { let b = gen::blob(g, &c, false); doc.blobs.push(b); }
            }
            1 => {
                // Uncompressed size around 32 MiB.
                let late = g.p(40);
                let enc = if g.p(35) { -1 } else { 1 };
                let mut b = BlobS { body: Body::Data(big_block(1000, 0, late)), enc, raw_size: g.pick(&[0, 0, -1, 1, 1000, 33_000_000, i32::MAX as i64]), ..BlobS::default() };
                let base = b.plain().len() as i64 - 1000;
                let how = g.n(3);
                let target = match how {
                    // Total size at the limit, or the string table (a field boundary) ending there.
                    0 | 1 => M as i64 + d(g),
                    _ => M as i64 + if late { 0 } else { let gb = group_len(&b); gb as i64 } + g.pick(&[0, 0, 0, -1, 1]),
                };
                if let Body::Data(x) = &mut b.body { x.fill = (target - base - 4).max(0) as u32; x.fill_seed = 0; }
                let real = b.plain().len() as i64;
                if let Body::Data(x) = &mut b.body { x.fill = (x.fill as i64 + target - real).max(0) as u32; }
                doc.blobs.push(b);
                if g.p(40) { doc.blobs.push(BlobS { body: Body::Data(big_block(3, 0, false)), enc: -1, ..BlobS::default() }); }
            }
            2 => {
                // Lying lengths in a small file.
                let mut c = Cfg::swarm(g);
                c.max_elems = 3;
                let mut b = gen::blob(g, &c, false);
                match g.n(3) {
                    0 => b.datasize = Some(g.pick(&[i32::MAX as i64, 1 << 30, 100_000_000, 33_554_432, 1 << 20])),
                    1 => b.prefix = Some(g.pick(&[65535, 60_000, 65536, u32::MAX])),
                    _ => {
                        // A length inside a message: make the next bytes a huge varint.
                        let huge = g.pick(&[vec![0xff, 0xff, 0xff, 0xff, 0x07], vec![0x80, 0x80, 0x80, 0x10], vec![0x80, 0x80, 0x80, 0x80, 0x04]]);
                        let n = b.plain().len() as u64;
                        if g.p(50) { b.inner.push(Edit::Set(g.n(n.clamp(1, 40)) as u32, Bytes(huge))); } else { b.enc = -1; b.damage.push(Edit::Set(g.n(n.clamp(1, 40)) as u32, Bytes(huge))); }
                    }
                }
                doc.blobs.push(b);
            }
            3 => {
                // A bomb.
                let size = if thorough { g.pick(&[33u32, 64, 200, 700]) } else { g.pick(&[33u32, 64, 120]) };
                doc.blobs.push(BlobS { body: Body::Data(big_block(size << 20, 0, g.p(50))), enc: 1, raw_size: g.pick(&[0, -1, 100]), ..BlobS::default() });
            }
            _ => {
                // Just below, incompressible, with ordinary data around.
                let fill = g.r(31 << 20, (32 << 20) - 100) as u32;
                doc.blobs.push(BlobS { body: Body::Data(big_block(fill, 1 + g.n(9), g.p(50))), enc: if g.p(50) { -1 } else { 1 }, ..BlobS::default() });
            }
        }
        let chunk = if kind == 0 || kind == 2 { gen_chunk(g) } else { g.pick(&[Chunk::All, Chunk::Fixed(8192), Chunk::Fixed(65_537)]) };
        Scn { mode: g.n(4) as u32, doc, plan: Plan { chunk, seed: g.n(1 << 30), faults: vec![] }, num: vec![kind], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let kind = s.num.first().copied().unwrap_or(0);
        let enc = s.doc.encode();
        let len = enc.bytes.len();
        let plain: Vec<usize> = enc.lay.iter().map(|l| l.plain_len).collect();
        let hdr: Vec<usize> = enc.lay.iter().map(|l| l.body - l.hdr).collect();
        let lies = |k: usize| { let b = &s.doc.blobs[k]; b.datasize.is_some() || b.prefix.is_some() || !b.inner.is_empty() || !b.damage.is_empty() };
        for b in &s.doc.blobs { let mut x = b.clone(); x.datasize = None; x.prefix = None; x.inner.clear(); x.damage.clear(); if !x.well_formed() { c.skipped = true; return Ok(()); } }
        let want: Vec<Content> = s.doc.contents();
        let bytes = arc(enc.bytes);
        let lay = enc.lay;
        let small = len < 1 << 20 && plain.iter().all(|p| *p < 1 << 20);
        // Lengths inside a message may make the parser reserve up to 10 M items of 8 bytes ahead.
        let inner_lie = s.doc.blobs.iter().any(|b| !b.inner.is_empty() || !b.damage.is_empty());
        let bound = if !small || inner_lie { (160 << 20) + 3 * len } else { (4 << 20) + 8 * len };
        if s.mode % 4 == 3 { write_file(&c.path, &bytes); }
        let base = heap::reset_peak();
        CEIL.store(base + bound + (300 << 20), Ordering::Relaxed);
        let mut rejected = 0;
        let mut accepted = 0;
        // What must happen to blob k: refused when reading, refused when decoding, or delivered.
        let big_hdr = |k: usize| s.doc.blobs[k].prefix.unwrap_or(hdr[k] as u32) as usize >= 65536;
        let mut judge = |k: usize, d: Result<Option<osmpbf::Result<BlobDecode>>, osmpbf::Error>, given: Option<u64>| -> Result<bool, Viol> {
            let v = |c: &str, d: String| Err(Viol { class: c.into(), detail: d });
            let size = plain[k] as u64;
            match d {
                Err(e) => {
                    if big_hdr(k) {
                        rejected += 1;
                        if let Some(n) = given { if n > lay[k].start as u64 + 4 { return v("header-read", format!("the oversized header of blob {k} was rejected only after {} bytes of it were read", n - lay[k].start as u64 - 4)); } }
                    } else if !lies(k) { return v("refused", format!("blob {k} (header of {} bytes, {size} bytes uncompressed) was refused: {e}", hdr[k])); }
                    Ok(false)
                }
                Ok(None) if lies(k) => Ok(false),
                Ok(None) => v("missing", format!("the iteration ended before blob {k}")),
                Ok(Some(_)) if big_hdr(k) => v("header-limit", format!("blob {k} has a header of {} bytes and was delivered", s.doc.blobs[k].prefix.unwrap_or(hdr[k] as u32))),
                Ok(Some(_)) if lies(k) => Ok(true),
                Ok(Some(Ok(_))) if size >= M && !matches!(want[k], Content::Other(_)) => v("message-limit", format!("blob {k} has {size} bytes uncompressed and was delivered")),
                Ok(Some(Ok(d))) => { accepted += 1; match canon::check(&want[k], &d, false) { Ok(()) => Ok(true), Err(e) => v("content", format!("blob {k} ({size} bytes uncompressed): {e}")) } }
                Ok(Some(Err(_))) if size >= M => { rejected += 1; Ok(true) }
                Ok(Some(Err(e))) => v("refused", format!("blob {k} has {size} bytes uncompressed, below the limit, and was refused: {e}")),
            }
        };
        let res = (|| -> R {
            if s.mode % 4 == 3 {
                let m = match unsafe { Mmap::from_path(&c.path) } { Ok(m) => m, Err(e) => bail!("error", "mapping failed: {e}") };
                let mut it = m.blob_iter();
                for k in 0..lay.len() {
                    let x = match it.next() { None => judge(k, Ok(None), None)?, Some(Err(e)) => judge(k, Err(e), None)?, Some(Ok(b)) => judge(k, Ok(Some(b.decode())), None)? };
                    if !x { break; }
                }
                return Ok(());
            }
            let st = SimStream::new(bytes.clone(), &s.plan);
            let h = st.clone();
            if s.mode % 4 == 2 {
                // Through the indexed reader and the element reader the same limits hold.
                let limit = (0..lay.len()).find(|k| big_hdr(*k) || (plain[*k] as u64 >= M && !matches!(want[*k], Content::Other(_))));
                let mut v = 0usize;
                let r = ElementReader::new(st).for_each(|_| v += 1);
                if s.doc.blobs.iter().enumerate().any(|(k, _)| lies(k)) { return Ok(()); }
                let n: usize = want[..limit.unwrap_or(want.len())].iter().map(|w| w.elems().len()).sum();
                if limit.is_some() == r.is_ok() { bail!("message-limit", "sequential reading {} with {} oversized blob", if r.is_ok() { "succeeded" } else { "failed" }, if limit.is_some() { "an" } else { "no" }); }
                if v != n { bail!("content", "{v} elements delivered, {n} precede the first oversized blob"); }
                c.log(&h.log());
                return Ok(());
            }
            let mut it = if s.mode % 4 == 0 { BlobReader::new(st) } else { BlobReader::new_seekable(st).expect("fault-free constructor") };
            for k in 0..lay.len() {
                let x = it.next();
                let given = h.with(|x| x.log.high);
                let x = match x { None => judge(k, Ok(None), None)?, Some(Err(e)) => judge(k, Err(e), Some(given))?, Some(Ok(b)) => judge(k, Ok(Some(b.decode())), None)? };
                if !x { break; }
            }
            c.log(&h.log());
            Ok(())
        })();
        CEIL.store(usize::MAX, Ordering::Relaxed);
        let peak = heap::peak_since(base);
        res?;
        if peak > bound { bail!("memory", "{} bytes of heap used for a file of {len} bytes (largest block {} bytes uncompressed)", peak, plain.iter().max().unwrap_or(&0)); }
        c.add("rejected at a limit", rejected);
        c.add("accepted", accepted);
        c.add(["runs header size", "runs block size", "runs lying length", "runs bomb", "runs large block"][kind as usize % 5], 1);
        c.add("max peak heap bytes", 0);
        let m = c.stats.entry("max peak heap bytes").or_insert(0);
        *m = (*m).max(peak as u64);
        for (a, b) in plain.iter().zip(&hdr) { c.sig((*a as u64) << 20 ^ *b as u64); }
        c.nontrivial = kind != 4;
        Ok(())
    }
}
fn group_len(b: &BlobS) -> usize {
    if let Body::Data(x) = &b.body { let mut y = x.clone(); let a = block_bytes(x).len(); y.groups.clear(); a - block_bytes(&y).len() } else { 0 }
}
