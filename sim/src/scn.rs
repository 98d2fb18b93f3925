//! A scenario: everything one simulated run depends on. One seed generates it,
//! a replay file stores it.
use crate::doc::{Doc, Edit};
use crate::interpose::SysFault;
use crate::stream::Plan;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub enum Wrap {
    #[default]
    Raw,
    Buf(u32),
    Path,
}
/// One call a simulated client makes. Which ones apply depends on the property.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Next,
    Skip,
    /// Seek to the start of blob k (modulo number of blobs + 1).
    Seek(u32),
    SeekCur(u32),
    SeekEnd(u32),
    /// Seek to an arbitrary byte.
    SeekByte(u32),
    From(u32),
    /// Clone reader k and go on with the clone / switch to another reader.
    Clone,
    Switch(u32),
    /// Stop all faults.
    Heal,
    // indexed reader
    Index,
    Nodes,
    /// Way filter: (kind, a, b)
    Ways(u8, i64, i64),
    /// Callback number n of the next query panics.
    Panic(u32),
    // decoding
    Decode(u32, u32),
    Advance(u32, u32),
    Fork(u32),
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub enum Strat {
    #[default]
    Default,
    Random(u32, u32, u32, u32),
    Pct(u32, u64),
    Starve(u32, u32),
    RoundRobin(u64),
    Replay(Vec<(u64, u32)>),
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Sched { pub seed: u64, pub strat: Strat, pub alloc: bool, pub spurious: u32, pub wake_random: bool }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Par {
    /// Threads in the pool.
    pub threads: u32,
    /// 0: install in the pool, 1: global pool, 2: join two calls inside one pool, 3: callers on several threads sharing a pool
    pub mode: u32,
    pub calls: u32,
    /// Closure to panic: 0 none, 1 map, 2 reduce, 3 identity; at its n-th invocation.
    pub panic_in: u32,
    pub panic_at: u32,
    /// Kind of result type.
    pub ty: u32,
    /// Virtual time the map closure takes on some elements (microseconds; 0: none).
    pub slow: u32,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Scn {
    pub prop: String,
    pub mode: u32,
    pub doc: Doc,
    pub edits: Vec<Edit>,
    pub wrap: Wrap,
    pub plan: Plan,
    pub ops: Vec<Op>,
    pub par: Par,
    pub sys: Vec<SysFault>,
    pub num: Vec<i64>,
    /// Runs in a process in which no code of the library ran before (first-use initialisation happens under the schedule).
    pub fresh: bool,
    pub sched: Sched,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol { pub class: String, pub detail: String }
pub type R = Result<(), Viol>;
pub fn viol(class: &str, detail: impl Into<String>) -> R { Err(Viol { class: class.into(), detail: detail.into() }) }
#[macro_export]
macro_rules! bail { ($c:expr, $($a:tt)*) => { return $crate::scn::viol($c, format!($($a)*)) } }

/// Counters of one run.
#[derive(Default, Debug)]
pub struct Ctx { pub stats: BTreeMap<&'static str, u64>, pub nontrivial: bool, pub sig: u64, pub path: String, pub skipped: bool }
impl Ctx {
    pub fn add(&mut self, k: &'static str, n: u64) { if n > 0 { *self.stats.entry(k).or_insert(0) += n; } }
    pub fn sig(&mut self, x: u64) { self.sig = simrt::mix(self.sig ^ x); }
    pub fn log(&mut self, l: &crate::stream::Log) {
        for (k, n) in crate::stream::FAULT_NAMES.iter().enumerate() { self.add(FAULT_KEYS[k], l.fired[k]); let _ = n; }
        self.add("source reads", l.reads);
        self.add("source seeks", l.seeks);
        self.sig(l.reads ^ l.seeks << 20 ^ l.fired.iter().fold(0, |a, b| a * 31 + b) << 32);
        if l.fired.iter().any(|n| *n > 0) { self.nontrivial = true; }
    }
}
pub const FAULT_KEYS: &[&str] = &["fault eintr", "fault read-error", "fault truncation", "fault seek-error", "fault delay", "fault short-read", "fault pause"];
/// The payload of panics injected by the simulator.
pub struct SimPanic(#[allow(dead_code)] pub u64);
