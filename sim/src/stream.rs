//! The simulated source: delivery behaviour, faults, and a log of what the reader did.
use crate::gen::G;
use serde::{Deserialize, Serialize};
use simrt::Rng;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

/// How many bytes one read call delivers.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub enum Chunk {
    #[default]
    All,
    One,
    Fixed(u32),
    Random(u32),
    /// Stops at multiples of n of the stream position (pages, packets).
    Align(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    /// Interrupted call, n times in a row.
    Eintr(u32),
    /// Error of this kind (index into KINDS), n times in a row; 0: for ever.
    Err(u8, u32),
    /// The source ends here (for good).
    Eof,
    /// Reads return 0 bytes here, n times in a row, although there is more later (a file still being written, a terminal).
    /// Only used inside blobs, where it is an end of the source that must be reported.
    Pause(u32),
    /// Seek call fails (kind), n times in a row.
    SeekErr(u8, u32),
    /// The call takes this long (virtual microseconds).
    Delay(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    /// When a read starts at this byte position (reads stop short of it).
    Byte(u64),
    /// At the n-th read call.
    Read(u32),
    /// At the n-th seek call.
    Seek(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault { pub at: At, pub what: What }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Plan { pub chunk: Chunk, pub seed: u64, pub faults: Vec<Fault> }

pub const KINDS: &[(ErrorKind, i32)] = &[
    (ErrorKind::Other, libc::EIO), (ErrorKind::UnexpectedEof, libc::EIO), (ErrorKind::WouldBlock, libc::EAGAIN), (ErrorKind::TimedOut, libc::ETIMEDOUT),
    (ErrorKind::ConnectionReset, libc::ECONNRESET), (ErrorKind::BrokenPipe, libc::EPIPE), (ErrorKind::PermissionDenied, libc::EACCES),
    (ErrorKind::InvalidData, libc::ESTALE), (ErrorKind::NotFound, libc::ENOENT), (ErrorKind::ConnectionAborted, libc::ECONNABORTED), (ErrorKind::InvalidInput, libc::EINVAL),
    (ErrorKind::OutOfMemory, libc::ENOMEM),
];
pub const FAULT_NAMES: &[&str] = &["eintr", "read-error", "truncation", "seek-error", "delay", "short-read", "pause"];

/// Outcome of asking the plan about one call.
pub enum Act { Give(usize), Eof, Fail(u8), Intr }

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub reads: u64,
    pub seeks: u64,
    /// Errors handed out that a reader must report (reads and seeks), with position.
    pub hard: Vec<(u64, u8)>,
    pub seek_hard: u64,
    pub fired: [u64; 7],
    /// Furthest byte handed out.
    pub high: u64,
    /// End of source reported, by cut or by the real end.
    pub eof_at: Option<u64>,
    /// (position, bytes) of every successful read, when recording.
    pub ops: Vec<(u64, u32)>,
    pub record: bool,
    /// Bytes handed out in total.
    pub given: u64,
    /// Furthest position at which a read was started, plus one.
    pub tried: u64,
}

/// Fault bookkeeping shared by the in-memory source and the system call layer.
#[derive(Clone, Debug)]
pub struct State { pub plan: Plan, pub rng: Rng, pub left: Vec<u32>, pub log: Log, pub seek_n: u32, pub read_n: u32, pub off: bool, pub limit: u64 }
impl State {
    pub fn new(plan: &Plan) -> State {
        let left = plan.faults.iter().map(|f| match f.what { What::Eintr(n) | What::Pause(n) => n, What::Err(_, n) | What::SeekErr(_, n) => if n == 0 { u32::MAX } else { n }, What::Eof => u32::MAX, What::Delay(_) => 1 }).collect();
        State { plan: plan.clone(), rng: Rng::new(plan.seed), left, log: Log::default(), seek_n: 0, read_n: 0, off: false, limit: u64::MAX }
    }
    /// Decides a read of up to `want` bytes at `pos` in a source of `len` bytes.
    pub fn on_read(&mut self, pos: u64, want: usize, len: u64) -> Act {
        self.read_n += 1;
        self.log.reads += 1;
        if self.log.reads > self.limit { simrt::abort_run("runaway-reads"); }
        if want > 0 { self.log.tried = self.log.tried.max(pos + 1); }
        let mut n = (want as u64).min(len.saturating_sub(pos));
        let mut avail_cut = u64::MAX;
        if !self.off {
            for k in 0..self.plan.faults.len() {
                if self.left[k] == 0 { continue; }
                let f = &self.plan.faults[k];
                let hit = match f.at {
                    At::Byte(b) => {
                        if pos == b || (pos > b && matches!(f.what, What::Eof)) { true } else { if pos < b { avail_cut = avail_cut.min(b - pos); } false }
                    }
                    At::Read(r) => self.read_n > r || (r == 0),
                    At::Seek(_) => false,
                };
                if !hit || want == 0 { continue; }
                match f.what {
                    What::Eintr(_) => { self.left[k] -= 1; self.log.fired[0] += 1; return Act::Intr; }
                    What::Err(e, _) => {
                        if self.left[k] != u32::MAX { self.left[k] -= 1; }
                        self.log.fired[1] += 1;
                        self.log.hard.push((pos, e));
                        return Act::Fail(e);
                    }
                    What::Pause(_) => {
                        self.left[k] -= 1;
                        self.log.fired[6] += 1;
                        self.log.hard.push((pos, 1));
                        return Act::Eof;
                    }
                    What::Eof => { self.log.fired[2] += 1; self.log.eof_at = Some(pos); return Act::Eof; }
                    What::Delay(us) => { self.left[k] -= 1; self.log.fired[4] += 1; simrt::sleep(us as u64 * 1000); }
                    What::SeekErr(..) => {}
                }
            }
            n = n.min(avail_cut);
        }
        if n == 0 { if want > 0 { self.log.eof_at = Some(pos); } return Act::Eof; }
        let full = n;
        let lim = match self.plan.chunk {
            Chunk::All => n,
            Chunk::One => 1,
            Chunk::Fixed(k) => (k as u64).max(1),
            Chunk::Random(k) => 1 + self.rng.below((k as u64).max(1)),
            Chunk::Align(k) => { let k = (k as u64).max(1); k - pos % k }
        };
        n = n.min(lim);
        if n < full || full < (want as u64).min(len - pos) { self.log.fired[5] += 1; }
        self.log.high = self.log.high.max(pos + n);
        self.log.given += n;
        if self.log.record { simrt::quiet(|| self.log.ops.push((pos, n as u32))); }
        Act::Give(n as usize)
    }
    pub fn on_seek(&mut self) -> Option<u8> {
        self.seek_n += 1;
        self.log.seeks += 1;
        if self.log.seeks > self.limit { simrt::abort_run("runaway-seeks"); }
        if self.off { return None; }
        for k in 0..self.plan.faults.len() {
            if self.left[k] == 0 { continue; }
            if let Fault { at: At::Seek(s), what: What::SeekErr(e, _) } = self.plan.faults[k] {
                if self.seek_n > s {
                    if self.left[k] != u32::MAX { self.left[k] -= 1; }
                    self.log.fired[3] += 1;
                    self.log.seek_hard += 1;
                    return Some(e);
                }
            }
        }
        None
    }
    /// Errors fired so far that a caller must have seen.
    pub fn hard(&self) -> u64 { self.log.hard.len() as u64 + self.log.seek_hard }
}
pub fn io_err(k: u8) -> io::Error { io::Error::new(KINDS[k as usize % KINDS.len()].0, format!("sim-fault-{k}")) }

/// An in-memory source. Clones have their own position and share the fault state.
#[derive(Clone, Debug)]
pub struct SimStream { pub data: Arc<Vec<u8>>, pub pos: u64, pub st: Arc<Mutex<State>>, pub holes: Arc<Vec<Hole>> }
/// A stretch of zeros that is not in `data`, so that a source can be larger than memory. Faults and the log count bytes of `data`.
#[derive(Clone, Copy, Debug)]
pub struct Hole { pub at: u64, pub len: u64 }
/// Where byte `pos` of a source with holes is in its data, or how many bytes of the hole it is in are left.
fn solid(holes: &[Hole], pos: u64) -> Result<u64, u64> {
    let mut gone = 0;
    for h in holes {
        if pos < h.at { break; }
        if pos < h.at + h.len { return Err(h.at + h.len - pos); }
        gone += h.len;
    }
    Ok(pos - gone)
}
impl SimStream {
    pub fn new(data: Arc<Vec<u8>>, plan: &Plan) -> SimStream { SimStream::with_holes(data, plan, vec![]) }
    pub fn with_holes(data: Arc<Vec<u8>>, plan: &Plan, holes: Vec<Hole>) -> SimStream { SimStream { data, pos: 0, st: Arc::new(Mutex::new(State::new(plan))), holes: Arc::new(holes) } }
    pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R { simrt::quiet(|| f(&mut self.st.lock().unwrap_or_else(|e| e.into_inner()))) }
    pub fn log(&self) -> Log { self.with(|s| s.log.clone()) }
    pub fn hard(&self) -> u64 { self.with(|s| s.hard()) }
    fn set_pos(&mut self, p: u64) { self.pos = p; POS.with(|c| c.set(p)); }
}
thread_local! {
    /// Cursor of the source used last on this thread (readers do not hand out their source).
    pub static POS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        simrt::point(simrt::K_IO);
        let len = self.data.len() as u64;
        let pos = match solid(&self.holes, self.pos) {
            Ok(p) => p,
            Err(left) => {
                let n = left.min(buf.len() as u64);
                self.with(|s| { s.log.reads += 1; if s.log.reads > s.limit { simrt::abort_run("runaway-reads"); } });
                buf[..n as usize].fill(0);
                self.set_pos(self.pos + n);
                simrt::event(0x401e << 20 ^ n);
                return Ok(n as usize);
            }
        };
        let mut max = buf.len();
        for h in self.holes.iter() { if h.at > self.pos { max = max.min((h.at - self.pos) as usize); } }
        let a = self.with(|s| s.on_read(pos, max, len));
        match a {
            Act::Give(n) => {
                buf[..n].copy_from_slice(&self.data[pos as usize..pos as usize + n]);
                self.set_pos(self.pos + n as u64);
                simrt::event(pos << 20 ^ n as u64);
                Ok(n)
            }
            Act::Eof => { simrt::event(0xe0f); Ok(0) }
            Act::Fail(k) => { simrt::event(0xfa00 + k as u64); Err(io_err(k)) }
            Act::Intr => { simrt::event(0x1111); Err(io::Error::from(ErrorKind::Interrupted)) }
        }
    }
}
impl Seek for SimStream {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        simrt::point(simrt::K_IO);
        if let Some(k) = self.with(|s| s.on_seek()) { return Err(io_err(k)); }
        let p = match to {
            SeekFrom::Start(p) => Some(p as i128),
            SeekFrom::End(d) => Some(self.data.len() as i128 + self.holes.iter().map(|h| h.len as i128).sum::<i128>() + d as i128),
            SeekFrom::Current(d) => Some(self.pos as i128 + d as i128),
        };
        match p {
            Some(p) if (0..=i64::MAX as i128).contains(&p) => { self.set_pos(p as u64); simrt::event(0x5ee0 ^ (p as u64) << 8); Ok(p as u64) }
            _ => Err(io::Error::new(ErrorKind::InvalidInput, "invalid seek to a negative or overflowing position")),
        }
    }
}

pub fn gen_chunk(g: &mut G) -> Chunk {
    match g.n(10) { 0 | 1 => Chunk::All, 2 | 3 => Chunk::One, 4 => Chunk::Fixed(g.r(2, 64) as u32), 5 | 6 => Chunk::Random(g.pick(&[2, 5, 17, 100, 5000])), 7 => Chunk::Align(g.pick(&[2, 4, 16, 512, 4096])), _ => Chunk::Fixed(g.pick(&[3, 4095, 4096, 8192])) }
}
