//! Sequential reading: C01 fidelity, C02 failing sources, C03 damaged payloads, C13 exact consumption.
use super::*;
use crate::interpose;
use crate::{bail, with_src};
use osmpbf::IndexedReader;

// ---------------------------------------------------------------- C01
pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn runs(&self, t: bool) -> u64 { if t { 6_000_000 } else { 250_000 } }
    fn rule(&self) -> String { "one run: a seeded well-formed file read through one reader over a seeded delivery (chunking, interruptions, delays); non-trivial: the file has at least one element and the source split or interrupted a read; distinct by (events, schedule, log) hash".into() }
    fn gen(&self, g: &mut G, i: u64, thorough: bool) -> Scn {
        let mut c = Cfg::swarm(g);
        if thorough && i % 7 == 0 { c.max_blobs = 40; c.max_elems = 60; c.big = true; }
        let doc = gen::doc(g, &c);
        let wrap = gen_wrap(g, true);
        let len: u64 = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        if len > 60_000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        Scn { mode: g.n(4) as u32, doc, wrap, plan, num: vec![g.n(6) as i64], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        if !s.doc.well_formed() || s.plan.faults.iter().any(|f| !matches!(f.what, What::Eintr(_) | What::Delay(_))) { c.skipped = true; return Ok(()); }
        let enc = s.doc.encode();
        let want = s.doc.contents();
        let how = s.num.first().copied().unwrap_or(0) as u64;
        let n: usize = want.iter().map(|w| w.elems().len()).sum();
        let log = if let Wrap::Path = s.wrap {
            write_file(&c.path, &enc.bytes);
            interpose::start_files(&c.path, &s.plan, &[]);
            let p = c.path.clone();
            match s.mode % 3 {
                0 => { let mut v = vec![]; let r = ElementReader::from_path(&p).and_then(|r| collect(r, &mut v)); self.judge(&want, r, &v)?; }
                1 => self.blobs(BlobReader::from_path(&p), &want, how)?,
                _ => self.blobs(BlobReader::seekable_from_path(&p), &want, how)?,
            }
            interpose::file_log()
        } else {
            let st = SimStream::new(arc(enc.bytes), &s.plan);
            let h = st.clone();
            match s.mode % 4 {
                0 => { let mut v = vec![]; let r = with_src!(&s.wrap, st, r => collect(ElementReader::new(r), &mut v)); self.judge(&want, r, &v)?; }
                1 => with_src!(&s.wrap, st, r => self.blobs(Ok(BlobReader::new(r)), &want, how))?,
                2 => with_src!(&s.wrap, st, r => self.blobs(BlobReader::new_seekable(r), &want, how))?,
                _ => {
                    // A source handed over by reference, as the trait bound allows.
                    let mut st = st;
                    let mut v = vec![];
                    let r = collect(ElementReader::new(&mut st), &mut v);
                    self.judge(&want, r, &v)?;
                }
            }
            h.log()
        };
        c.log(&log);
        c.add("elements compared", n as u64);
        c.add("blobs compared", want.len() as u64);
        c.nontrivial = n > 0 && log.fired.iter().any(|x| *x > 0);
        Ok(())
    }
}
impl C01 {
    fn judge(&self, want: &[Content], r: osmpbf::Result<()>, got: &[Elem]) -> R {
        if let Err(e) = check_elems(want, got) { bail!("content", "{e}{}", if let Err(x) = &r { format!(" (result: {x})") } else { String::new() }); }
        if let Err(e) = r { bail!("error", "reading a well-formed file failed: {e}"); }
        Ok(())
    }
    fn blobs<S: Read + Send>(&self, r: osmpbf::Result<BlobReader<S>>, want: &[Content], how: u64) -> R {
        let mut r = match r { Ok(r) => r, Err(e) => bail!("error", "constructor failed: {e}") };
        for (k, w) in want.iter().enumerate() {
            match r.next() {
                None => bail!("missing", "the iteration ended before blob {k} of {}", want.len()),
                Some(Err(e)) => bail!("error", "blob {k} of a well-formed file: {e}"),
                Some(Ok(b)) => if let Err(e) = check_blob(w, &b, how + k as u64, true) { bail!("content", "blob {k}: {e}") },
            }
        }
        match r.next() {
            None => Ok(()),
            Some(x) => viol("extra", format!("after the last blob: {}", x.map_or_else(|e| format!("error {e}"), |_| "one more blob".into()))),
        }
    }
}

// ---------------------------------------------------------------- C02
pub struct C02;
fn fatal(g: &mut G, e: &Enc) -> Fault {
    let n = g.pick(&[1, 1, 0, 2]);
    let kind = g.n(KINDS.len() as u64) as u8;
    let at = if g.p(80) { At::Byte(gen_pos(g, e)) } else { At::Read(g.n(30) as u32) };
    if g.p(50) { Fault { at, what: What::Err(kind, n) } } else { Fault { at: At::Byte(gen_pos(g, e)), what: What::Eof } }
}
impl Prop for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn runs(&self, t: bool) -> u64 { if t { 8_000_000 } else { 300_000 } }
    fn rule(&self) -> String { "one run: a seeded well-formed file read from a source that fails with an error or ends early at a seeded place; non-trivial: the failure was reached; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let doc = if thorough && g.p(20) { let c = Cfg::swarm(g); gen::doc(g, &c) } else { small_doc(g) };
        let e = doc.encode();
        let mut plan = gen_plan(g, e.bytes.len() as u64);
        let f = if g.p(12) { gen_pause(g, &e) } else { None }.unwrap_or_else(|| fatal(g, &e));
        plan.faults.push(f);
        if g.p(10) { let f = fatal(g, &e); plan.faults.push(f); }
        if e.bytes.len() > 30_000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        Scn { mode: g.n(3) as u32, wrap: gen_wrap(g, true), doc, plan, num: vec![g.n(6) as i64], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let enc = s.doc.encode();
        if !s.doc.well_formed() || !pauses_ok(&s.plan, &enc.lay) { c.skipped = true; return Ok(()); }
        let want = s.doc.contents();
        let ends: Vec<u64> = enc.lay.iter().map(|l| l.end as u64).collect();
        let len = enc.bytes.len() as u64;
        let mut elems = vec![];
        let mut nblobs = 0usize;
        let mut after = None;
        let mut bad = None;
        let how = s.num.first().copied().unwrap_or(0) as u64;
        macro_rules! blobs { ($r:expr) => {{
            let r = $r;
            match r {
                Err(e) => Err(e),
                Ok(mut r) => loop {
                    match r.next() {
                        None => break Ok(()),
                        Some(Ok(b)) => {
                            match want.get(nblobs) { None => bad = Some("more blobs than stored".into()), Some(w) => if let Err(e) = check_blob(w, &b, how + nblobs as u64, false) { bad = Some(format!("blob {nblobs}: {e}")) } }
                            nblobs += 1;
                            if bad.is_some() || nblobs > want.len() + 4 { break Ok(()); }
                        }
                        Some(Err(e)) => {
                            for _ in 0..3 { if let Some(x) = r.next() { after = Some(if x.is_ok() { "a blob" } else { "another error" }); } }
                            break Err(e);
                        }
                    }
                },
            }
        }} }
        let (res, log) = if let Wrap::Path = s.wrap {
            write_file(&c.path, &enc.bytes);
            interpose::start_files(&c.path, &s.plan, &[]);
            let p = c.path.clone();
            let r = match s.mode % 3 {
                0 => ElementReader::from_path(&p).and_then(|r| collect(r, &mut elems)),
                1 => blobs!(BlobReader::from_path(&p)),
                _ => blobs!(BlobReader::seekable_from_path(&p)),
            };
            (r, interpose::file_log())
        } else {
            let st = SimStream::new(arc(enc.bytes), &s.plan);
            let h = st.clone();
            let r = match s.mode % 3 {
                0 => with_src!(&s.wrap, st, r => collect(ElementReader::new(r), &mut elems)),
                1 => with_src!(&s.wrap, st, r => blobs!(Ok::<_, osmpbf::Error>(BlobReader::new(r)))),
                _ => with_src!(&s.wrap, st, r => blobs!(BlobReader::new_seekable(r))),
            };
            (r, h.log())
        };
        c.log(&log);
        if let Some(b) = bad { bail!("content", "{b}"); }
        // Where the source failed, as it happened.
        let hard = log.hard.first().copied();
        let cut = log.eof_at.filter(|p| *p < len && log.fired[2] > 0);
        let stop = match (hard, cut) { (Some((p, _)), _) => Some(p), (None, Some(p)) => Some(p), _ => None };
        c.nontrivial = stop.is_some();
        let complete = match stop { Some(p) => ends.iter().filter(|e| **e <= p).count(), None => want.len() };
        let boundary = stop.is_none_or(|p| p == 0 || ends.contains(&p));
        let must_fail = hard.is_some() || !boundary;
        if stop.is_some() { c.add(if hard.is_some() { "runs stopped by an I/O error" } else if boundary { "runs ended early at a boundary" } else { "runs cut inside a blob" }, 1); }
        let place = stop.map(|p| describe(&enc.lay, p)).unwrap_or_default();
        if must_fail && res.is_ok() {
            bail!("hidden-failure", "{} {place}, but reading reported success after {} of {} blobs",
                hard.map_or("the source ended".to_string(), |h| format!("the source failed ({:?})", KINDS[h.1 as usize % KINDS.len()].0)), if s.mode % 3 == 0 { complete } else { nblobs }, want.len());
        }
        if let (false, Err(e)) = (must_fail, &res) { bail!("spurious-error", "no failure reached the reader (or a clean end {place}), but it reported: {e}"); }
        if s.mode % 3 == 0 {
            if let Err(e) = check_elems(&want[..complete], &elems) { bail!("delivery", "with {complete} blobs completely read {place}: {e}"); }
        } else if nblobs != complete { bail!("delivery", "{nblobs} blobs delivered, {complete} were completely read ({place})"); }
        if let Some(a) = after { bail!("goes-on", "after the error the iteration delivered {a}"); }
        Ok(())
    }
}
pub fn describe(lay: &[Lay], p: u64) -> String {
    let p = p as usize;
    for (k, l) in lay.iter().enumerate() {
        if p < l.start || p > l.end { continue; }
        if p == l.start { return format!("at the start of blob {k}"); }
        if p < l.hdr { return format!("{} bytes into the length prefix of blob {k}", p - l.start); }
        if p < l.body { return format!("{} bytes into the header of blob {k}", p - l.hdr); }
        if p < l.end { return format!("{} bytes into the body of blob {k}", p - l.body); }
    }
    "at the end of the file".into()
}

// ---------------------------------------------------------------- C03
pub struct C03;
impl Prop for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn runs(&self, t: bool) -> u64 { if t { 8_000_000 } else { 300_000 } }
    fn rule(&self) -> String { "one run: a seeded file with storage damage inside one or more compressed payloads, decoded through one interface; non-trivial: the stored payload really changed; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, _: bool) -> Scn {
        let mut doc = small_doc(g);
        let z: Vec<usize> = (0..doc.blobs.len()).filter(|k| doc.blobs[*k].enc >= 0).collect();
        if !z.is_empty() {
            for _ in 0..g.pick(&[1, 1, 1, 2, 3]) {
                let k = g.pick(&z);
                let (_, r, _) = doc.blobs[k].blob_msg();
                let n = (r.1 - r.0) as u64;
                for _ in 0..g.pick(&[1, 1, 1, 2, 4]) {
                    let e = match g.n(8) {
                        // torn tail, misdirected sector, lost write
                        0 | 1 => Edit::Cut((n.saturating_sub(1 + g.small(n.min(40)))) as u32),
                        2 => Edit::Zero(g.n(n) as u32 & !7, 8),
                        3 => Edit::Flip(g.n(n.min(4)) as u32, g.n(8) as u8),
                        4 => Edit::Set((n.saturating_sub(1 + g.n(4))) as u32, Bytes(vec![g.n(256) as u8])),
                        _ => gen_edit(g, n),
                    };
                    doc.blobs[k].damage.push(e);
                }
            }
        }
        let len = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        if len > 30_000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        Scn { mode: g.n(3) as u32, wrap: if g.p(80) { Wrap::Raw } else { Wrap::Buf(64) }, doc, plan, num: vec![g.n(6) as i64], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let mut clean = s.doc.clone();
        for b in &mut clean.blobs { b.damage.clear(); }
        if !clean.well_formed() || s.doc.blobs.iter().any(|b| !b.damage.is_empty() && b.enc < 0) || s.plan.faults.iter().any(|f| !matches!(f.what, What::Eintr(_) | What::Delay(_))) { c.skipped = true; return Ok(()); }
        let want = clean.contents();
        let mut hit = vec![false; want.len()];
        for (k, b) in s.doc.blobs.iter().enumerate() {
            if b.damage.is_empty() { continue; }
            let plain = b.plain();
            let orig = zlib(&plain, b.enc as u32);
            let mut now = orig.clone();
            apply_edits(&mut now, &b.damage);
            hit[k] = now != orig;
            // A checksum that happens to fit damaged data is beyond any decoder.
            if hit[k] { if let Some(x) = inflate(&now) { if x != plain { c.skipped = true; return Ok(()); } } }
        }
        let enc = s.doc.encode();
        // The first blob that cannot be decoded on its own: where reading elements must end.
        let stop = if s.mode % 3 == 0 {
            (0..want.len()).find(|k| hit[*k] && matches!(BlobReader::new(&enc.bytes[enc.lay[*k].start..]).next(), Some(Ok(b)) if b.decode().is_err()))
        } else { None };
        c.nontrivial = hit.iter().any(|h| *h);
        c.add("fault damaged payload", hit.iter().filter(|h| **h).count() as u64);
        let how = s.num.first().copied().unwrap_or(0) as u64;
        let (mut errs, mut same) = (0, 0);
        if s.mode % 3 == 2 {
            write_file(&c.path, &enc.bytes);
            let m = match unsafe { osmpbf::Mmap::from_path(&c.path) } { Ok(m) => m, Err(e) => bail!("error", "mapping failed: {e}") };
            let mut it = m.blob_iter();
            for (k, w) in want.iter().enumerate() {
                match it.next() {
                    Some(Ok(b)) => match b.decode() {
                        Err(_) if hit[k] => errs += 1,
                        Err(e) => bail!("collateral", "map: intact blob {k}: {e}"),
                        Ok(d) => { if let Err(e) = canon::check(w, &d, false) { bail!("altered-content", "map: {} blob {k} was decoded to other content: {e}", if hit[k] { "damaged" } else { "intact" }); } same += hit[k] as u64; }
                    },
                    Some(Err(e)) => bail!("collateral", "map: blob {k} not delivered: {e}"),
                    None => bail!("collateral", "map: iteration ended before blob {k}"),
                }
            }
            c.add("damaged blobs refused", errs);
            c.add("damaged blobs decoded to the original", same);
            return Ok(());
        }
        let st = SimStream::new(arc(enc.bytes), &s.plan);
        let h = st.clone();
        if s.mode % 3 == 0 {
            // What each blob does on its own decides what for_each must do.
            let mut v = vec![];
            let r = with_src!(&s.wrap, st, r => collect(ElementReader::new(r), &mut v));
            c.log(&h.log());
            let undecoded = |k: usize| !matches!(want[k], Content::Other(_));
            let mut first = None;
            for k in 0..want.len() {
                if hit[k] && undecoded(k) {
                    // Delivered in full (the damage was harmless), or the error came here.
                    if first.is_none() && r.is_err() {
                        let n: usize = want[..k].iter().map(|w| w.elems().len()).sum();
                        if v.len() == n { first = Some(k); }
                    }
                }
            }
            match (&r, first) {
                (Ok(()), _) if stop.is_some() => bail!("hidden", "reading succeeded although blob {} cannot be decoded", stop.unwrap_or(0)),
                (Err(x), _) if stop.is_none() => bail!("collateral", "reading failed ({x}) although every blob can be decoded"),
                (Ok(()), _) => if let Err(e) = check_elems(&want, &v) { bail!("altered-content", "reading succeeded with damaged payloads {:?}: {e}", idx(&hit)); },
                (Err(_), Some(k)) => { if let Err(e) = check_elems(&want[..k], &v) { bail!("altered-content", "before damaged blob {k}: {e}"); } errs += 1; }
                (Err(x), None) => bail!("collateral", "{} elements delivered, then {x}; the damaged blobs are {:?}", v.len(), idx(&hit)),
            }
        } else {
            let r = with_src!(&s.wrap, st, r => {
                let mut it = BlobReader::new(r);
                let mut f = || -> R {
                    for (k, w) in want.iter().enumerate() {
                        match it.next() {
                            Some(Ok(b)) => {
                                let d = match (how % 2, w) { (0, Content::Data { .. }) => b.to_primitiveblock().map(BlobDecode::OsmData), _ => b.decode() };
                                match d {
                                    Err(_) if hit[k] => errs += 1,
                                    Err(e) => bail!("collateral", "intact blob {k}: {e}"),
                                    Ok(d) => { if let Err(e) = canon::check(w, &d, false) { bail!("altered-content", "{} blob {k} was decoded to other content: {e}", if hit[k] { "damaged" } else { "intact" }); } same += hit[k] as u64; }
                                }
                            }
                            Some(Err(e)) => bail!("collateral", "blob {k} not delivered: {e}"),
                            None => bail!("collateral", "iteration ended before blob {k}"),
                        }
                    }
                    Ok(())
                };
                f()
            });
            c.log(&h.log());
            r?;
        }
        c.nontrivial = hit.iter().any(|h| *h);
        c.add("damaged blobs refused", errs);
        c.add("damaged blobs decoded to the original", same);
        Ok(())
    }
}
fn idx(h: &[bool]) -> Vec<usize> { h.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect() }
/// Strict zlib decoding: Some only if the stream is complete and its checksum fits.
pub fn inflate(data: &[u8]) -> Option<Vec<u8>> {
    let mut d = flate2::Decompress::new(true);
    let mut out = Vec::with_capacity(data.len() * 4 + 64);
    loop {
        let (i, o) = (d.total_in(), d.total_out());
        match d.decompress_vec(&data[i as usize..], &mut out, flate2::FlushDecompress::None) {
            Err(_) => return None,
            Ok(flate2::Status::StreamEnd) => return Some(out),
            Ok(_) => {
                if d.total_in() == i && d.total_out() == o && out.len() < out.capacity() { return None; }
                if out.len() == out.capacity() { out.reserve(out.len().max(4096)); }
                if out.len() > 64 << 20 { return None; }
            }
        }
    }
}

// ---------------------------------------------------------------- C13
pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str { "C13" }
    fn runs(&self, t: bool) -> u64 { if t { 8_000_000 } else { 300_000 } }
    fn rule(&self) -> String { "one run: a seeded well-formed file; after every blob (and during every element callback) the source's cursor and the reads it has seen are checked; non-trivial: at least two blobs and at least one split or interrupted read; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, _: bool) -> Scn {
        let mut doc = small_doc(g);
        while doc.blobs.len() < 2 { let c = Cfg::swarm(g); doc.blobs.push(gen::blob(g, &c, false)); }
        let len = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        if len > 30_000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        let nb = doc.blobs.len() as u64;
        let ops = (0..nb + 2 + g.small(6)).map(|_| match g.n(10) { 0..=3 => Op::Next, 4..=7 => Op::Skip, 8 => Op::Seek(g.n(nb) as u32), _ => Op::From(g.n(nb) as u32) }).collect();
        Scn { mode: g.n(5) as u32, doc, plan, ops, ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        if !s.doc.well_formed() || s.plan.faults.iter().any(|f| !matches!(f.what, What::Eintr(_) | What::Delay(_))) { c.skipped = true; return Ok(()); }
        let enc = s.doc.encode();
        let lay = enc.lay.clone();
        let st = SimStream::new(arc(enc.bytes), &s.plan);
        st.with(|x| x.log.record = true);
        let h = st.clone();
        let pos = || POS.with(|p| p.get());
        POS.with(|p| p.set(0));
        let r = match s.mode % 5 {
            0 => {
                // for_each: while elements of blob k are handed out, nothing beyond blob k was asked for.
                let counts: Vec<usize> = s.doc.contents().iter().map(|w| w.elems().len()).collect();
                let mut n = 0usize;
                let mut bad = None;
                let mut ends = vec![];
                for (k, m) in counts.iter().enumerate() { for _ in 0..*m { ends.push((k, lay[k].end as u64)); } }
                let hh = h.clone();
                let r = ElementReader::new(st).for_each(|_| {
                    if let Some((k, e)) = ends.get(n) {
                        let t = hh.with(|x| x.log.tried);
                        if t > *e && bad.is_none() { bad = Some((*k, t - 1, *e)); }
                    }
                    n += 1;
                });
                if let Some((k, t, e)) = bad { bail!("reads-ahead", "an element of blob {k} (which ends at byte {e}) was delivered only after a read at byte {t}"); }
                if let Err(e) = r { bail!("error", "reading a well-formed file failed: {e}"); }
                Ok(())
            }
            1 | 2 => {
                let mk = if s.mode % 5 == 1 { Ok(BlobReader::new(st)) } else { BlobReader::new_seekable(st) };
                let mut r = match mk { Ok(r) => r, Err(e) => bail!("error", "constructor: {e}") };
                for (k, l) in lay.iter().enumerate() {
                    match r.next() { Some(Ok(_)) => {} Some(Err(e)) => bail!("error", "blob {k}: {e}"), None => bail!("error", "ended before blob {k}") }
                    let t = h.with(|x| x.log.tried);
                    if t > l.end as u64 { bail!("reads-ahead", "blob {k} ends at byte {}, but a read at byte {} was made before it was returned: a source stalling there holds it back", l.end, t - 1); }
                    if pos() != l.end as u64 { bail!("cursor", "after blob {k} the source is at byte {}, the blob ends at {}", pos(), l.end); }
                }
                Ok(())
            }
            3 => {
                let mut r = match BlobReader::new_seekable(st) { Ok(r) => r, Err(e) => bail!("error", "constructor: {e}") };
                let mut next = 0usize;
                for op in &s.ops {
                    let skip = matches!(op, Op::Skip);
                    if let Op::Seek(k) = op {
                        next = *k as usize % lay.len();
                        let from = h.with(|x| x.log.ops.len());
                        if let Err(e) = r.seek(osmpbf::ByteOffset(lay[next].start as u64)) { bail!("error", "seek to blob {next}: {e}"); }
                        if h.with(|x| x.log.ops.len()) > from || pos() != lay[next].start as u64 { bail!("cursor", "after a seek to blob {next}, byte {}, the source is at byte {}", lay[next].start, pos()); }
                        continue;
                    }
                    if let Op::From(k) = op { next = *k as usize % lay.len(); }
                    let (k, Some(l)) = (next, lay.get(next)) else { break };
                    next += 1;
                    let from = h.with(|x| x.log.ops.len());
                    if let Op::From(_) = op {
                        if let Err(e) = r.blob_from_offset(osmpbf::ByteOffset(l.start as u64)) { bail!("error", "blob {k} by its offset: {e}"); }
                        let bytes: u64 = h.with(|x| x.log.ops[from..].iter().map(|o| o.1 as u64).sum());
                        if bytes != (l.end - l.start) as u64 { bail!("reads-ahead", "reading blob {k} by its offset took {bytes} bytes from the source, it has {}", l.end - l.start); }
                    } else if skip {
                        match r.next_header_skip_blob() { Some(Ok(_)) => {} Some(Err(e)) => bail!("error", "header {k}: {e}"), None => bail!("error", "ended before header {k}") }
                        let bytes: u64 = h.with(|x| x.log.ops[from..].iter().map(|o| o.1 as u64).sum());
                        let beyond = h.with(|x| x.log.ops[from..].iter().any(|o| o.0 + o.1 as u64 > l.body as u64));
                        if beyond || bytes > (l.body - l.start) as u64 { bail!("reads-body", "skipping blob {k} by its header read {bytes} bytes up to beyond byte {}, prefix and header are {}", l.body, l.body - l.start); }
                    } else {
                        match r.next() { Some(Ok(_)) => {} Some(Err(e)) => bail!("error", "blob {k}: {e}"), None => bail!("error", "ended before blob {k}") }
                        let bytes: u64 = h.with(|x| x.log.ops[from..].iter().map(|o| o.1 as u64).sum());
                        if bytes != (l.end - l.start) as u64 { bail!("reads-ahead", "reading blob {k} took {bytes} bytes from the source, it has {}", l.end - l.start); }
                    }
                    if pos() != l.end as u64 { bail!("cursor", "after {} blob {k} the source is at byte {}, the next blob starts at {}", if skip { "skipping" } else { "reading" }, pos(), l.end); }
                }
                Ok(())
            }
            _ => {
                let mut r = match IndexedReader::new(st) { Ok(r) => r, Err(e) => bail!("error", "constructor: {e}") };
                if let Err(e) = r.create_index() { bail!("error", "create_index: {e}"); }
                let ops = h.log().ops;
                for (k, l) in lay.iter().enumerate() {
                    if let Some(o) = ops.iter().find(|o| o.0 < l.end as u64 && o.0 + o.1 as u64 > l.body as u64) {
                        bail!("reads-body", "building the index read bytes {}..{} of the body of blob {k}", o.0.max(l.body as u64), (o.0 + o.1 as u64).min(l.end as u64));
                    }
                }
                Ok(())
            }
        };
        let mut log = h.log();
        log.ops.clear();
        c.log(&log);
        c.add("blob boundaries observed", lay.len() as u64);
        c.nontrivial = lay.len() >= 2 && (log.fired[0] > 0 || log.fired[5] > 0);
        r
    }
}
