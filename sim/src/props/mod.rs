//! The properties: how runs are generated and what must hold in each.
use crate::canon;
use crate::doc::*;
use crate::gen::{self, Cfg, G};
use crate::scn::*;
use crate::stream::*;
use osmpbf::{BlobDecode, BlobReader, BlobType, ElementReader};
use std::fs::File;
use std::io::{BufReader, Read, Seek, SeekFrom};
use std::sync::Arc;

mod decode;
mod hist;
mod hostile;
mod index;
mod mem;
mod par;
mod pipe;
mod seq;
mod sys;

pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    /// Does it compare what the library delivers only with itself? Then long texts are shortened.
    fn compact(&self) -> bool { false }
    fn gen(&self, g: &mut G, i: u64, thorough: bool) -> Scn;
    fn run(&self, s: &Scn, c: &mut Ctx) -> R;
    /// Simulated runs per batch.
    fn runs(&self, thorough: bool) -> u64;
    fn step_limit(&self) -> u64 { 20_000_000 }
    /// Does the schedule matter?
    fn parallel(&self) -> bool { false }
    fn rule(&self) -> String;
    fn real(&self) -> Vec<&'static str> { vec!["osmpbf (all of /repo/src, built from the working tree)", "protobuf", "flate2 (zlib)", "byteorder", "std::io::BufReader and std::fs::File where a run uses them"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["the byte source (seeded in-memory stream, or the file system calls of a real file behind a fault layer)"] }
    fn assumptions(&self) -> Vec<String> { vec!["the encoder and the expected content come from an independent model of the file format in /verif/sim/src/doc.rs".into()] }
}
pub fn get(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(seq::C01),
        "C02" => Box::new(seq::C02),
        "C03" => Box::new(seq::C03),
        "C04" => Box::new(hostile::C04),
        "C05" => Box::new(hist::Hist { c6: false }),
        "C06" => Box::new(hist::Hist { c6: true }),
        "C07" => Box::new(hostile::C07),
        "C08" => Box::new(par::C08),
        "C09" => Box::new(par::C09),
        "C10" => Box::new(index::C10),
        "C11" => Box::new(index::C11),
        "C12" => Box::new(hostile::C12),
        "C13" => Box::new(seq::C13),
        "C14" => Box::new(decode::C14),
        "C15" => Box::new(sys::C15),
        "C19" => Box::new(pipe::C19),
        "C20" => Box::new(mem::C20),
        "C21" => Box::new(index::C21),
        _ => return None,
    })
}

// ---------------------------------------------------------------- shared pieces
/// Runs `$e` with `$r` bound to a source: the bare stream, or one behind a BufReader.
#[macro_export]
macro_rules! with_src {
    ($wrap:expr, $st:expr, $r:ident => $e:expr) => {
        match $wrap {
            $crate::scn::Wrap::Buf(cap) => { let $r = std::io::BufReader::with_capacity((*cap as usize).max(1), $st); $e }
            _ => { let $r = $st; $e }
        }
    };
}
pub fn write_file(path: &str, bytes: &[u8]) {
    let r = simrt::quiet(|| std::fs::write(path, bytes));
    if let Err(e) = r { panic!("harness: cannot write {path}: {e}"); }
}
/// The same with holes (see `SimStream`), which take no room.
pub fn write_holes(path: &str, bytes: &[u8], holes: &[crate::stream::Hole]) {
    use std::os::unix::fs::FileExt;
    let r = simrt::quiet(|| -> std::io::Result<()> {
        let f = File::create(path)?;
        let (mut at, mut done) = (0u64, 0usize);
        for h in holes {
            let n = (h.at - at) as usize;
            f.write_all_at(&bytes[done..done + n], at)?;
            done += n;
            at = h.at + h.len;
        }
        f.write_all_at(&bytes[done..], at)?;
        f.set_len(at + (bytes.len() - done) as u64)
    });
    if let Err(e) = r { panic!("harness: cannot write {path}: {e}"); }
}
pub fn gen_wrap(g: &mut G, path: bool) -> Wrap {
    match g.n(if path { 8 } else { 6 }) { 0..=2 => Wrap::Raw, 3..=5 => Wrap::Buf(g.pick(&[1, 2, 3, 7, 16, 100, 512, 4096, 8192])), _ => Wrap::Path }
}
/// Benign delivery: chunking, interruptions, delays.
pub fn gen_plan(g: &mut G, len: u64) -> Plan {
    let mut p = Plan { chunk: gen_chunk(g), seed: g.n(1 << 40), faults: vec![] };
    if g.p(45) {
        for _ in 0..1 + g.small(5) {
            let what = if g.p(75) { What::Eintr(g.pick(&[1, 1, 2, 5])) } else { What::Delay(g.pick(&[1, 50, 5000])) };
            let at = if g.p(70) { At::Byte(g.n(len + 1)) } else { At::Read(g.n(12) as u32) };
            p.faults.push(Fault { at, what });
        }
    }
    p
}
/// A position worth breaking at: near a boundary of something, or anywhere.
pub fn gen_pos(g: &mut G, e: &Enc) -> u64 {
    let len = e.bytes.len() as u64;
    if e.lay.is_empty() || g.p(30) { return g.n(len + 1); }
    let l = &e.lay[g.n(e.lay.len() as u64) as usize];
    let b = g.pick(&[l.start, l.start, l.hdr, l.body, l.body, l.payload.0, l.payload.1, l.payload.1, l.end, l.end]) as i64;
    (b + g.pick(&[0, 0, 0, 1, 2, 3, -1, -2, 4])).clamp(0, len as i64) as u64
}
/// An end of data in the middle of a blob that goes away again.
pub fn gen_pause(g: &mut G, e: &Enc) -> Option<Fault> {
    if e.lay.is_empty() { return None; }
    let l = &e.lay[g.n(e.lay.len() as u64) as usize];
    let b = g.pick(&[l.hdr, l.body, l.payload.0, l.payload.1, l.end, l.end]) as i64 + g.pick(&[0, 0, 1, 2, -1, -2]);
    let b = if g.p(30) { l.start as i64 + g.r(0, (l.end - l.start) as i64) } else { b };
    (b > l.start as i64 && b < l.end as i64).then(|| Fault { at: At::Byte(b as u64), what: What::Pause(g.pick(&[1, 1, 1, 2])) })
}
pub fn pauses_ok(p: &Plan, lay: &[Lay]) -> bool {
    p.faults.iter().all(|f| !matches!(f.what, What::Pause(_)) || matches!(f.at, At::Byte(b) if lay.iter().any(|l| (l.start as u64) < b && b < l.end as u64)))
}
pub fn type_ok(want: &Content, t: &BlobType) -> bool {
    match (want, t) {
        (Content::Header(_), BlobType::OsmHeader) | (Content::Data { .. }, BlobType::OsmData) => true,
        (Content::Other(a), BlobType::Unknown(b)) => a == b,
        _ => false,
    }
}
/// The blob decodes to this content, through the way `how` picks.
pub fn check_blob(want: &Content, b: &osmpbf::Blob, how: u64, all: bool) -> Result<(), String> {
    if !type_ok(want, &b.get_type()) { return Err(format!("blob type {:?} delivered for {:.60}", b.get_type(), format!("{want:?}"))); }
    let d = match (how % 3, want) {
        (0, Content::Data { .. }) => b.to_primitiveblock().map(BlobDecode::OsmData),
        (0, Content::Header(_)) => b.to_headerblock().map(|h| BlobDecode::OsmHeader(Box::new(h))),
        _ => b.decode(),
    };
    match d {
        Err(e) => Err(format!("decoding failed: {e}")),
        Ok(d) => canon::check(want, &d, all),
    }
}
pub fn check_map(want: &Content, b: &osmpbf::MmapBlob, all: bool) -> Result<(), String> {
    if !type_ok(want, &b.get_type()) { return Err(format!("blob type {:?} delivered for {:.60}", b.get_type(), format!("{want:?}"))); }
    match b.decode() {
        Err(e) => Err(format!("decoding failed: {e}")),
        Ok(d) => canon::check(want, &d, all),
    }
}
/// Elements of `blobs` in order; Ok if `got` is exactly that.
pub fn check_elems(blobs: &[Content], got: &[Elem]) -> Result<(), String> {
    let mut at = 0;
    for (k, b) in blobs.iter().enumerate() {
        let n = b.elems().len();
        let end = (at + n).min(got.len());
        b.match_elems(&got[at..end]).map_err(|e| format!("blob {k}: {e}"))?;
        at = end;
    }
    if at < got.len() { return Err(format!("{} extra elements, first: {}", got.len() - at, short(&got[at]))); }
    Ok(())
}
/// A reader over one of the three kinds of source, for call histories.
pub enum AnyReader { Raw(BlobReader<SimStream>), Buf(BlobReader<BufReader<SimStream>>), File(BlobReader<BufReader<File>>) }
#[macro_export]
macro_rules! any {
    ($a:expr, $r:ident => $e:expr) => {
        match $a { $crate::props::AnyReader::Raw($r) => $e, $crate::props::AnyReader::Buf($r) => $e, $crate::props::AnyReader::File($r) => $e }
    };
}
impl AnyReader {
    pub fn next(&mut self) -> Option<osmpbf::Result<osmpbf::Blob>> { any!(self, r => r.next()) }
    pub fn skip(&mut self) -> Option<osmpbf::Result<(osmpbf::BlobHeader, Option<osmpbf::ByteOffset>)>> { any!(self, r => r.next_header_skip_blob()) }
    pub fn seek(&mut self, p: u64) -> osmpbf::Result<()> { any!(self, r => r.seek(osmpbf::ByteOffset(p))) }
    pub fn seek_raw(&mut self, p: SeekFrom) -> osmpbf::Result<u64> { any!(self, r => r.seek_raw(p)) }
    pub fn from_offset(&mut self, p: u64) -> osmpbf::Result<osmpbf::Blob> { any!(self, r => r.blob_from_offset(osmpbf::ByteOffset(p))) }
}
/// Keeps what `for_each` hands out.
pub fn collect<S: Read + Send>(r: ElementReader<S>, out: &mut Vec<Elem>) -> osmpbf::Result<()> { r.for_each(|e| out.push(canon::elem(&e))) }
#[allow(dead_code)]
pub fn is_seek<T: Seek>(_: &T) {}
/// A damaged version of stored bytes.
pub fn gen_edit(g: &mut G, len: u64) -> Edit {
    let p = |g: &mut G| g.n(len.max(1)) as u32;
    match g.n(9) {
        0..=2 => Edit::Flip(p(g), g.n(8) as u8),
        3 => { let n = 1 + g.small(7); let b = (0..n).map(|_| if g.p(30) { g.pick(&[0, 0xff, 0x80, 0x7f, 1]) } else { g.n(256) as u8 }).collect(); Edit::Set(p(g), Bytes(b)) }
        4 => Edit::Zero(p(g), 1 + g.small(64) as u32),
        5 => Edit::Cut(p(g)),
        6 => Edit::Del(p(g), 1 + g.small(16) as u32),
        7 => Edit::Dup(p(g), 1 + g.small(16) as u32),
        _ => Edit::Swap(p(g), p(g), 1 + g.small(16) as u32),
    }
}
pub fn small_doc(g: &mut G) -> Doc {
    let mut c = Cfg::swarm(g);
    c.max_blobs = g.pick(&[1, 2, 3, 4, 6]);
    c.max_elems = g.pick(&[1, 3, 6]);
    gen::doc(g, &c)
}
pub fn arc(v: Vec<u8>) -> Arc<Vec<u8>> { Arc::new(v) }
