//! Call histories on blob readers: C05 offsets and re-reading, C06 stopping and recovering.
use super::*;
use crate::bail;
use crate::interpose;

/// What the model knows about a reader between calls.
#[derive(Clone, Debug, PartialEq)]
enum Pos {
    /// At the start of blob k (k = number of blobs: at the end).
    At(usize),
    /// At a byte that is no blob boundary, or beyond the end.
    Byte(u64),
    /// At some blob boundary, but which one is open (a failed seek).
    SomeStart,
    Unknown,
}
#[derive(Clone, Debug)]
struct Mdl {
    pos: Pos,
    /// An error from reading has been reported and no repositioning succeeded since.
    stopped: bool,
    /// An offset must be reported.
    known: bool,
    /// An error has ever been reported.
    ever: bool,
}
pub struct Hist { pub c6: bool }
pub const READERS: &[&str] = &["new", "new_seekable", "from_path", "seekable_from_path", "map"];

impl Prop for Hist {
    fn id(&self) -> &'static str { if self.c6 { "C06" } else { "C05" } }
    fn runs(&self, t: bool) -> u64 { if t { 8_000_000 } else { 300_000 } }
    fn rule(&self) -> String {
        if self.c6 { "one run: a seeded history of reads, skips, seeks, clones on one kind of reader, over a source with transient faults (or a file with an unreadable blob); non-trivial: an error was reported and calls were made after it; distinct by event hash".into() }
        else { "one run: a seeded history of reads, skips, seeks, re-reads, clones on one kind of reader with or without transient faults; non-trivial: at least one seek or skip and at least three calls answered; distinct by event hash".into() }
    }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let mut doc = small_doc(g);
        if doc.blobs.len() < 2 { let c = Cfg::swarm(g); doc.blobs.push(gen::blob(g, &c, false)); doc.blobs.push(gen::blob(g, &c, false)); }
        // A blob that cannot be read: framing or content damaged.
        if g.p(if self.c6 { 35 } else { 12 }) {
            let k = g.n(doc.blobs.len() as u64) as usize;
            match g.n(4) {
                0 => doc.blobs[k].prefix = Some(g.pick(&[65536, 70_000, u32::MAX, 0, 1, 3])),
                1 => doc.blobs[k].enc = -3,
                2 => doc.blobs[k].datasize = Some(g.pick(&[-1, i32::MIN as i64, -4, 0, 1, i32::MAX as i64])),
                _ => doc.blobs[k].prefix = Some(g.n(200) as u32),
            }
        }
        let e = doc.encode();
        let mut plan = gen_plan(g, e.bytes.len() as u64);
        let map = g.p(15);
        let nops = g.pick(&[4, 8, 12, 20]) + if thorough { g.small(60) } else { 0 };
        if !map && g.p(if self.c6 { 75 } else { 45 }) {
            for _ in 0..1 + g.small(3) {
                let kind = g.n(KINDS.len() as u64) as u8;
                let times = g.pick(&[1, 1, 1, 2, 3]);
                plan.faults.push(match g.n(4) {
                    0 => Fault { at: At::Seek(g.n(8) as u32), what: What::SeekErr(kind, times) },
                    1 => Fault { at: At::Read(g.n(40) as u32), what: What::Err(kind, times) },
                    _ => Fault { at: At::Byte(gen_pos(g, &e)), what: What::Err(kind, times) },
                });
            }
        }
        if !map && g.p(if self.c6 { 20 } else { 8 }) { plan.faults.extend(gen_pause(g, &e)); }
        if e.bytes.len() > 20_000 { if let Chunk::One | Chunk::Fixed(_) = plan.chunk { plan.chunk = Chunk::Fixed(509); } }
        let nb = doc.blobs.len() as u64;
        let mut ops = vec![];
        for _ in 0..nops {
            let k = g.n(nb + 1) as u32;
            ops.push(match g.n(20) {
                0..=6 => Op::Next,
                7..=10 => Op::Skip,
                11 | 12 => Op::Seek(k),
                13 => Op::SeekCur(k),
                14 => Op::SeekEnd(k),
                15 => { let a = gen_pos(g, &e) as u32; let b = e.bytes.len() as u32 + g.small(100) as u32; Op::SeekByte(g.pick(&[a, b])) }
                16 | 17 => Op::From(k),
                18 => if g.p(60) { Op::Clone } else { Op::Heal },
                _ => Op::Switch(g.n(4) as u32),
            });
        }
        if self.c6 && g.p(60) {
            // A recovery after whatever happened.
            let k = g.n(nb + 1) as u32;
            ops.push(Op::Heal);
            ops.push(Op::Next);
            ops.push(if g.p(50) { Op::Seek(k) } else { Op::From(k) });
            for _ in 0..1 + g.n(4) { ops.push(if g.p(70) { Op::Next } else { Op::Skip }); }
        }
        let mode = if map { 4 } else { g.pick(&[0, 1, 1, 1, 2, 3]) };
        let wrap = if g.p(35) { Wrap::Buf(g.pick(&[1, 5, 64, 4096, 8192])) } else { Wrap::Raw };
        Scn { mode, wrap, doc, plan, ops, num: vec![if g.p(20) { g.n(nb + 1) as i64 } else { 0 }, if g.p(12) { g.pick(&[1, i32::MAX as i64 - 20, u32::MAX as i64 - 30, 1 << 32, 5 << 32, 1 << 40, 1 << 53]) } else { 0 }], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        // At most the framing of single blobs may be off.
        let mut clean = s.doc.clone();
        let mut bad = vec![];
        for b in &mut clean.blobs {
            bad.push(b.prefix.is_some() || b.datasize.is_some() || b.enc == -3);
            b.prefix = None;
            b.datasize = None;
            if b.enc == -3 { b.enc = -1; }
        }
        if !clean.well_formed() || s.plan.faults.iter().any(|f| matches!(f.what, What::Eof)) || !pauses_ok(&s.plan, &s.doc.encode().lay) { c.skipped = true; return Ok(()); }
        let e = Engine { base: match s.num.get(1).copied().unwrap_or(0) { b if b < 0 => 0, b if s.mode % 5 >= 2 => b.min(1 << 36) as u64, b => b.min(1 << 60) as u64 }, c6: self.c6, want: clean.contents(), enc: s.doc.encode(), bad, from: std::cell::Cell::new(0), after_error: std::cell::Cell::new(0), moved: std::cell::Cell::new(0), answered: std::cell::Cell::new(0), seen: Default::default() };
        let r = if s.mode % 5 == 4 { e.map(s, c) } else { e.stream(s, c) };
        c.add("calls", e.answered.get());
        c.add("calls after an error", e.after_error.get());
        c.add("repositionings", e.moved.get());
        c.add("runs with positions beyond 2^31", (e.base >> 31 > 0) as u64);
        c.add(match s.mode % 5 { 0 => "runs with new", 1 => "runs with new_seekable", 2 => "runs with from_path", 3 => "runs with seekable_from_path", _ => "runs with a map" }, 1);
        c.nontrivial = if self.c6 { e.after_error.get() > 0 } else { e.moved.get() > 0 && e.answered.get() >= 3 };
        match r { Ok(()) | Err(Stop::Ignored) => Ok(()), Err(Stop::V(v)) => Err(v) }
    }
}
enum Stop { Ignored, V(Viol) }
type E = Result<(), Stop>;
struct Engine { base: u64, c6: bool, want: Vec<Content>, enc: Enc, bad: Vec<bool>, from: std::cell::Cell<u64>, after_error: std::cell::Cell<u64>, moved: std::cell::Cell<u64>, answered: std::cell::Cell<u64>, seen: std::cell::RefCell<std::collections::HashMap<(u64, bool), u8>> }
/// Which property a clause belongs to.
#[derive(PartialEq)]
enum Of { Offset, Stop, Both }
impl Engine {
    fn v(&self, of: Of, class: &str, d: String) -> E {
        if of == Of::Both || (of == Of::Stop) == self.c6 { Err(Stop::V(Viol { class: class.into(), detail: d })) } else { Err(Stop::Ignored) }
    }
    fn n(&self) -> usize { self.enc.lay.len() }
    fn hole(&self) -> Vec<Hole> { if self.base > 0 { vec![Hole { at: 0, len: self.base }] } else { vec![] } }
    fn start(&self, k: usize) -> u64 { self.base + self.enc.lay.get(k).map_or(self.enc.bytes.len() as u64, |l| l.start as u64) }
    fn at(&self, byte: u64) -> Pos { (0..=self.n()).find(|k| self.start(*k) == byte).map_or(Pos::Byte(byte), Pos::At) }
    /// Content of a delivered blob, against what is stored at blob k.
    fn same(&self, k: usize, b: &osmpbf::Blob) -> Result<(), String> { check_blob(&self.want[k], b, k as u64, false) }
    /// What is read at a position whose content is not intact is open, but it is the same every time
    /// (`what`: 0 nothing, 1 a blob, 2 an error).
    fn again(&self, m: &Mdl, skip: bool, what: u8) -> E {
        let at = match &m.pos { Pos::At(k) => self.start(*k), Pos::Byte(b) => *b, _ => return Ok(()) };
        const WHAT: &[&str] = &["nothing", "a blob", "an error"];
        match self.seen.borrow_mut().insert((at, skip), what) {
            Some(x) if x != what => self.v(if m.ever { Of::Both } else { Of::Offset }, "differs", format!("{} at byte {at} yields {}, earlier it yielded {}", if skip { "header skip" } else { "next" }, WHAT[what as usize], WHAT[x as usize])),
            _ => Ok(()),
        }
    }
    /// A blob was delivered at a place the model cannot name: its offset, if reported, must still be true.
    fn loose_blob(&self, m: &Mdl, off: Option<u64>, from: u64, b: Option<&osmpbf::Blob>) -> E {
        if let Some(o) = off {
            match (&m.pos, self.at(o)) {
                (Pos::Byte(p), _) if *p != o => return self.v(Of::Offset, "wrong-offset", format!("read from byte {p}, the reported offset is {o}")),
                (Pos::SomeStart, Pos::At(k)) if k < self.n() && !self.bad[k] => if let Some(b) = b { if let Err(e) = self.same(k, b) { return self.v(Of::Offset, "wrong-offset", format!("the blob reported at offset {o} is not the one stored there: {e}")); } },
                (Pos::SomeStart, Pos::Byte(_)) => return self.v(Of::Offset, "wrong-offset", format!("reported offset {o} is not the start of a blob")),
                _ => {}
            }
        }
        let _ = from;
        Ok(())
    }
    fn stream(&self, s: &Scn, c: &mut Ctx) -> E {
        let mode = s.mode % 5;
        let file = mode >= 2;
        let mut handle = None;
        let k0 = if mode == 1 { (s.num.first().copied().unwrap_or(0).unsigned_abs() as usize).min(self.n()) } else { 0 };
        let rd = if file {
            write_holes(&c.path, &self.enc.bytes, &self.hole());
            // (Positions in the plan count the bytes that exist; files know nothing of holes.)
            let mut plan = s.plan.clone();
            for f in &mut plan.faults { if let At::Byte(b) = &mut f.at { *b += self.base; } }
            interpose::start_files(&c.path, &plan, &[]);
            let r = if mode == 2 { BlobReader::from_path(&c.path) } else { BlobReader::seekable_from_path(&c.path) };
            r.map(AnyReader::File)
        } else {
            let mut st = SimStream::with_holes(arc(self.enc.bytes.clone()), &s.plan, self.hole());
            st.pos = self.start(k0);
            handle = Some(st.clone());
            match (&s.wrap, mode) {
                (Wrap::Buf(n), 0) => Ok(AnyReader::Buf(BlobReader::new(BufReader::with_capacity((*n as usize).max(1), st)))),
                (Wrap::Buf(n), _) => BlobReader::new_seekable(BufReader::with_capacity((*n as usize).max(1), st)).map(AnyReader::Buf),
                (_, 0) => Ok(AnyReader::Raw(BlobReader::new(st))),
                _ => BlobReader::new_seekable(st).map(AnyReader::Raw),
            }
        };
        let hard = || handle.as_ref().map_or_else(interpose::file_hard, |h| h.hard());
        let seek_hard = || handle.as_ref().map_or_else(|| interpose::file_log().seek_hard, |h| h.with(|x| x.log.seek_hard));
        let heal = || match &handle { Some(h) => h.with(|x| x.off = true), None => if let Some(f) = interpose::files() { f.st.off = true } };
        let rd = match rd {
            Ok(r) => r,
            Err(e) if hard() > 0 => { let _ = e; c.skipped = true; return Ok(()); }
            Err(e) => return self.v(Of::Both, "error", format!("constructor failed without a fault: {e}")),
        };
        if hard() > 0 { c.skipped = true; return Ok(()); }
        let mut rs: Vec<(AnyReader, Mdl)> = vec![(rd, Mdl { pos: if file && self.base > 0 { Pos::Byte(0) } else { Pos::At(k0) }, stopped: false, known: mode != 0, ever: false })];
        let mut cur = 0;
        let mut opn = 0;
        let paused = s.plan.faults.iter().any(|f| matches!(f.what, What::Pause(_)));
        let res = (|| -> E {
            for op in &s.ops {
                opn += 1;
                let h0 = hard();
                let s0 = seek_hard();
                match op {
                    Op::Heal => { heal(); continue; }
                    Op::Clone => {
                        if rs.len() < 5 {
                            if let (AnyReader::Raw(r), m) = &rs[cur] { let x = (AnyReader::Raw(r.clone()), m.clone()); rs.push(x); cur = rs.len() - 1; }
                        }
                        continue;
                    }
                    Op::Switch(k) => { cur = *k as usize % rs.len(); continue; }
                    _ => {}
                }
                let (r, m) = &mut rs[cur];
                self.answered.set(self.answered.get() + 1);
                if m.ever { self.after_error.set(self.after_error.get() + 1); }
                match op {
                    Op::Next | Op::Skip => {
                        let skip = *op == Op::Skip;
                        // (type ok, offset, body size ok) or error or end
                        let got: Option<Result<(Result<(), String>, Option<u64>, Option<osmpbf::Blob>), String>> = if skip {
                            r.skip().map(|x| x.map(|(h, o)| {
                                let chk = match m.pos {
                                    Pos::At(k) if k < self.n() => {
                                        let l = &self.enc.lay[k];
                                        if !type_ok(&self.want[k], &h.blob_type()) { Err(format!("header of type {:?} delivered", h.blob_type())) }
                                        else if !self.bad[k] && h.get_blob_size() as i64 != (l.end - l.body) as i64 { Err(format!("header with blob size {} delivered, it is {}", h.get_blob_size(), l.end - l.body)) }
                                        else { Ok(()) }
                                    }
                                    _ => Ok(()),
                                };
                                (chk, o.map(|o| o.0), None)
                            }).map_err(|e| e.to_string()))
                        } else {
                            r.next().map(|x| x.map(|b| {
                                let chk = match m.pos { Pos::At(k) if k < self.n() && !self.bad[k] => self.same(k, &b), _ => Ok(()) };
                                (chk, b.offset().map(|o| o.0), Some(b))
                            }).map_err(|e| e.to_string()))
                        };
                        let fired = hard() > h0;
                        let name = if skip { "header skip" } else { "next" };
                        if m.stopped {
                            if let Some(x) = got {
                                return self.v(Of::Stop, "resumed", format!("{name} delivered {} although an error was reported before and the reader was not repositioned since", match x { Ok(_) => "a blob".to_string(), Err(e) => format!("another error ({e})") }));
                            }
                            continue;
                        }
                        if !fired && !paused { self.again(m, skip, match &got { None => 0, Some(Ok(_)) => 1, Some(Err(_)) => 2 })?; }
                        match (&m.pos, got) {
                            (_, Some(Err(e))) => {
                                let firm = matches!(m.pos, Pos::At(k) if k == self.n() || !self.bad[k]);
                                if !fired && firm {
                                    let k = if let Pos::At(k) = m.pos { k } else { 0 };
                                    return self.v(if m.ever { Of::Both } else { Of::Offset }, "refused", format!("{name} at {} failed although the source did not: {e}", self.name(k)));
                                }
                                m.stopped = true;
                                m.ever = true;
                                m.pos = Pos::Unknown;
                            }
                            // A hard error that went unreported is another property's business.
                            (_, None) if fired => { m.pos = Pos::Unknown; m.known = false; }
                            (Pos::At(k), None) if *k < self.n() && !self.bad[*k] => return self.v(if m.ever { Of::Both } else { Of::Offset }, "ended", format!("{name} at {} yields nothing", self.name(*k))),
                            (Pos::At(k), None) if *k < self.n() => m.pos = Pos::Unknown,
                            (Pos::At(_), None) => {}
                            (Pos::At(k), Some(Ok((chk, off, _)))) if *k < self.n() => {
                                let k = *k;
                                if let (Err(e), false) = (&chk, self.bad[k]) { return self.v(if m.ever { Of::Both } else { Of::Offset }, "wrong-blob", format!("{name} at {}: {e}", self.name(k))); }
                                match off {
                                    Some(o) if o != self.start(k) => return self.v(Of::Offset, "wrong-offset", format!("{name} returned blob {k}, which starts at byte {}, and reported offset {o}", self.start(k))),
                                    None if m.known => return self.v(Of::Offset, "no-offset", format!("{name} returned blob {k} without an offset although no error occurred since the reader was opened or repositioned")),
                                    _ => {}
                                }
                                if self.bad[k] { m.pos = Pos::Unknown; if skip && self.enc.lay.get(k).is_some() && s.doc.blobs[k].enc == -3 { m.pos = Pos::At(k + 1); } } else { m.pos = Pos::At(k + 1); }
                                if !skip && self.bad[k] && s.doc.blobs[k].prefix.is_none() && s.doc.blobs[k].datasize.is_none() { m.pos = Pos::At(k + 1); }
                            }
                            (Pos::At(_), Some(Ok(_))) => return self.v(if m.ever { Of::Both } else { Of::Offset }, "extra", format!("{name} at the end of the source delivered a blob")),
                            (_, Some(Ok((_, off, b)))) => {
                                self.loose_blob(m, off, self.from.get(), b.as_ref())?;
                                m.pos = match (&m.pos, off.map(|o| self.at(o))) { (Pos::SomeStart, Some(Pos::At(k))) if k < self.n() && !self.bad[k] => Pos::At(k + 1), _ => Pos::Unknown };
                            }
                            (Pos::SomeStart, None) => m.pos = Pos::SomeStart,
                            (_, None) => m.pos = Pos::Unknown,
                        }
                    }
                    Op::Seek(_) | Op::SeekByte(_) | Op::SeekCur(_) | Op::SeekEnd(_) => {
                        self.moved.set(self.moved.get() + 1);
                        let len = (self.base + self.enc.bytes.len() as u64) as i64;
                        let target: Pos;
                        let got: Result<Option<u64>, String> = match op {
                            Op::Seek(k) => { let k = *k as usize % (self.n() + 1); target = Pos::At(k); r.seek(self.start(k)).map(|_| None).map_err(|e| e.to_string()) }
                            Op::SeekByte(b) => { let b = self.base + *b as u64; target = self.at(b); r.seek_raw(SeekFrom::Start(b)).map(Some).map_err(|e| e.to_string()) }
                            Op::SeekEnd(k) => { let k = *k as usize % (self.n() + 1); target = Pos::At(k); r.seek_raw(SeekFrom::End(self.start(k) as i64 - len)).map(Some).map_err(|e| e.to_string()) }
                            Op::SeekCur(k) => {
                                let k = *k as usize % (self.n() + 1);
                                let p = match &m.pos { Pos::At(j) => self.start(*j), Pos::Byte(b) => *b, _ => { target = Pos::At(k); let x = r.seek(self.start(k)); if x.is_ok() { m.pos = Pos::At(k); m.stopped = false; m.known = true; } else { m.pos = Pos::Unknown; m.known = false; m.ever = true; } let _ = target; continue; } };
                                target = Pos::At(k);
                                r.seek_raw(SeekFrom::Current(self.start(k) as i64 - p as i64)).map(Some).map_err(|e| e.to_string())
                            }
                            _ => unreachable!(),
                        };
                        let byte = match target { Pos::At(k) => self.start(k), Pos::Byte(b) => b, _ => 0 };
                        match got {
                            Ok(x) => {
                                if let Some(x) = x { if x != byte { return self.v(Of::Offset, "wrong-seek", format!("{op:?} reports byte {x}, the target is {byte}")); } }
                                if hard() > h0 { m.pos = Pos::Unknown; m.known = false; continue; }
                                m.pos = target;
                                m.stopped = false;
                                m.known = true;
                            }
                            Err(e) => {
                                if hard() == h0 { return self.v(Of::Both, "seek-refused", format!("{op:?} failed although the source did not: {e}")); }
                                m.ever = true;
                                m.known = false;
                                m.pos = if matches!(m.pos, Pos::At(_) | Pos::SomeStart) && !matches!(op, Op::SeekByte(_)) { Pos::SomeStart } else { Pos::Unknown };
                            }
                        }
                    }
                    Op::From(k) => {
                        self.moved.set(self.moved.get() + 1);
                        let k = *k as usize % (self.n() + 1);
                        let got = r.from_offset(self.start(k));
                        let fired = hard() > h0;
                        let seek_failed = seek_hard() > s0;
                        match got {
                            Ok(b) => {
                                if k == self.n() { return self.v(Of::Both, "extra", "reading at the end of the source delivered a blob".into()); }
                                if self.bad[k] { m.pos = if s.doc.blobs[k].enc == -3 && s.doc.blobs[k].prefix.is_none() && s.doc.blobs[k].datasize.is_none() { Pos::At(k + 1) } else { Pos::Unknown }; m.stopped = false; m.known = true; continue; }
                                if let Err(e) = self.same(k, &b) { return self.v(Of::Both, "wrong-blob", format!("reading at the offset of blob {k}: {e}")); }
                                match b.offset().map(|o| o.0) {
                                    Some(o) if o != self.start(k) => return self.v(Of::Offset, "wrong-offset", format!("the blob read at offset {} reports offset {o}", self.start(k))),
                                    None => return self.v(Of::Offset, "no-offset", format!("the blob read at offset {} reports none", self.start(k))),
                                    _ => {}
                                }
                                m.pos = Pos::At(k + 1);
                                m.stopped = false;
                                m.known = true;
                                if fired { m.pos = Pos::Unknown; m.known = false; }
                            }
                            Err(e) => {
                                if !fired && k < self.n() && !self.bad[k] { return self.v(Of::Both, "refused", format!("reading at the offset of blob {k} failed although the source did not: {e}")); }
                                let was = m.stopped;
                                m.ever = true;
                                m.known = false;
                                if seek_failed { m.pos = if matches!(m.pos, Pos::At(_) | Pos::SomeStart) { Pos::SomeStart } else { Pos::Unknown }; m.stopped = was; }
                                else if k == self.n() && !fired { m.pos = Pos::At(k); m.stopped = false; m.known = true; }
                                else { m.stopped = true; m.pos = Pos::Unknown; }
                            }
                        }
                    }
                    _ => {}
                }
            }
            Ok(())
        })();
        if let Some(h) = &handle { c.log(&h.log()); } else { c.log(&interpose::file_log()); }
        match res { Err(Stop::V(mut v)) => { v.detail = format!("{} reader, call {opn} of {}: {}", READERS[mode as usize], s.ops.len(), v.detail); Err(Stop::V(v)) } x => x }
    }
    fn name(&self, k: usize) -> String { if k == self.n() { "the end of the source".into() } else { format!("blob {k} (byte {})", self.start(k)) } }
    fn map(&self, s: &Scn, c: &mut Ctx) -> E {
        write_holes(&c.path, &self.enc.bytes, &self.hole());
        let m = match unsafe { osmpbf::Mmap::from_path(&c.path) } { Ok(m) => m, Err(e) => return self.v(Of::Both, "error", format!("mapping failed: {e}")) };
        let mut rs = vec![(m.blob_iter(), Mdl { pos: self.at(0), stopped: false, known: true, ever: false })];
        let mut cur = 0;
        let mut opn = 0;
        let res = (|| -> E {
            for op in &s.ops {
                opn += 1;
                match op {
                    Op::Clone => { if rs.len() < 5 { let x = rs[cur].clone(); rs.push(x); cur = rs.len() - 1; } continue; }
                    Op::Switch(k) => { cur = *k as usize % rs.len(); continue; }
                    _ => {}
                }
                let (r, m) = &mut rs[cur];
                self.answered.set(self.answered.get() + 1);
                if m.ever { self.after_error.set(self.after_error.get() + 1); }
                match op {
                    Op::Next | Op::Skip => {
                        let got = r.next();
                        if m.stopped {
                            if let Some(x) = got { return self.v(Of::Stop, "resumed", format!("the iteration delivered {} although an error was reported before and the reader was not repositioned since", if x.is_ok() { "a blob" } else { "another error" })); }
                            continue;
                        }
                        self.again(m, false, match &got { None => 0, Some(Ok(_)) => 1, Some(Err(_)) => 2 })?;
                        match (m.pos.clone(), got) {
                            (Pos::At(k), Some(Ok(b))) if k < self.n() => {
                                if b.offset().0 != self.start(k) { return self.v(Of::Offset, "wrong-offset", format!("blob {k} starts at byte {}, reported offset {}", self.start(k), b.offset().0)); }
                                if self.bad[k] { m.pos = if s.doc.blobs[k].prefix.is_none() && s.doc.blobs[k].datasize.is_none() { Pos::At(k + 1) } else { Pos::Unknown }; continue; }
                                if let Err(e) = check_map(&self.want[k], &b, false) { return self.v(if m.ever { Of::Both } else { Of::Offset }, "wrong-blob", format!("at {}: {e}", self.name(k))); }
                                m.pos = Pos::At(k + 1);
                            }
                            (Pos::At(k), None) if k == self.n() => {}
                            (Pos::At(k), x) if k == self.n() => return self.v(if m.ever { Of::Both } else { Of::Offset }, "extra", format!("at the end the iteration delivered {}", x.map_or("", |x| if x.is_ok() { "a blob" } else { "an error" }))),
                            (Pos::At(k), Some(Err(_))) if self.bad[k] => { m.stopped = true; m.ever = true; m.pos = Pos::Unknown; }
                            (Pos::At(k), Some(Err(e))) => return self.v(if m.ever { Of::Both } else { Of::Offset }, "refused", format!("at {}: {e}", self.name(k))),
                            (Pos::At(k), None) if self.bad[k] => m.pos = Pos::Unknown,
                            (Pos::At(k), None) => return self.v(if m.ever { Of::Both } else { Of::Offset }, "ended", format!("at {} the iteration yields nothing", self.name(k))),
                            (_, Some(Err(_))) => { m.stopped = true; m.ever = true; m.pos = Pos::Unknown; }
                            (p, Some(Ok(b))) => {
                                if let Pos::Byte(p) = p { if b.offset().0 != p { return self.v(Of::Offset, "wrong-offset", format!("read from byte {p}, reported offset {}", b.offset().0)); } }
                                m.pos = Pos::Unknown;
                            }
                            (_, None) => m.pos = Pos::Unknown,
                        }
                    }
                    Op::Seek(k) | Op::SeekCur(k) | Op::SeekEnd(k) | Op::From(k) => {
                        self.moved.set(self.moved.get() + 1);
                        let k = *k as usize % (self.n() + 1);
                        r.seek(osmpbf::ByteOffset(self.start(k)));
                        m.pos = Pos::At(k);
                        m.stopped = false;
                    }
                    Op::SeekByte(b) => {
                        self.moved.set(self.moved.get() + 1);
                        let b = self.base + *b as u64;
                        r.seek(osmpbf::ByteOffset(b));
                        m.pos = self.at(b);
                        m.stopped = false;
                    }
                    _ => {}
                }
            }
            Ok(())
        })();
        match res { Err(Stop::V(mut v)) => { v.detail = format!("memory map, call {opn} of {}: {}", s.ops.len(), v.detail); Err(Stop::V(v)) } x => x }
    }
}
#[allow(dead_code)]
fn unused() -> R { bail!("", "") }
