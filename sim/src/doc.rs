//! The model of a PBF file: what is stored, how it is encoded, and what a reader must deliver.
//! The encoder is written from the format definition and shares no code with the library.
use serde::{Deserialize, Serialize};
use simrt::Rng;

/// Bytes kept in JSON as a string of code points 0..=255.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Bytes(pub Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Bytes(String::deserialize(d)?.chars().map(|c| c as u32 as u8).collect()))
    }
}
impl From<&str> for Bytes { fn from(s: &str) -> Self { Bytes(s.as_bytes().to_vec()) } }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct InfoS { pub version: Option<i32>, pub ts: Option<i64>, pub cs: Option<i64>, pub uid: Option<i32>, pub user: Option<u32>, pub visible: Option<bool> }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct NodeS { pub id: i64, pub lat: i64, pub lon: i64, pub tags: Vec<(u32, u32)>, pub info: Option<InfoS> }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct DNodeS { pub id: i64, pub lat: i64, pub lon: i64, pub tags: Vec<(i32, i32)>, pub version: i32, pub ts: i64, pub cs: i64, pub uid: i32, pub user: i32, pub visible: bool }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct DenseS {
    pub nodes: Vec<DNodeS>, pub info: bool, pub vis: bool, pub kv: bool,
    /// Columns of the metadata that are left out (bit 0: version, 1: timestamp, 2: changeset, 3: user id, 4: user).
    pub no: u8,
}
impl DenseS {
    fn has(&self, col: u8) -> bool { self.info && self.no & 1 << col == 0 }
    fn any_info(&self) -> bool { self.info && (self.vis || (0..5).any(|c| self.has(c))) }
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct WayS { pub id: i64, pub tags: Vec<(u32, u32)>, pub info: Option<InfoS>, pub refs: Vec<i64>, pub locs: Vec<(i64, i64)> }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct RelS { pub id: i64, pub tags: Vec<(u32, u32)>, pub info: Option<InfoS>, pub members: Vec<(i32, i64, i32)> }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct GroupS { pub nodes: Vec<NodeS>, pub dense: Option<DenseS>, pub ways: Vec<WayS>, pub rels: Vec<RelS>, pub changesets: Vec<i64>,
    /// Hostile: bit k drops the last entry of column k (columns no longer agree).
    pub mangle: u32 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct BlockS { pub strings: Vec<Bytes>, pub groups: Vec<GroupS>, pub gran: Option<i32>, pub lat_off: Option<i64>, pub lon_off: Option<i64>, pub date_gran: Option<i32>,
    /// Length of an extra, unused string at the end of the string table; seed 0: all one byte.
    pub fill: u32, pub fill_seed: u64,
    /// This many synthetic strings after `strings`.
    pub more: u32, pub unpacked: bool, pub unknown: bool, pub order: u8 }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct HeaderS { pub bbox: Option<(i64, i64, i64, i64)>, pub req: Vec<Bytes>, pub opt: Vec<Bytes>, pub program: Option<Bytes>, pub source: Option<Bytes>, pub ts: Option<i64>, pub seq: Option<i64>, pub url: Option<Bytes>, pub unknown: bool }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body { Header(HeaderS), Data(BlockS), Other(Bytes, Bytes) }
impl Default for Body { fn default() -> Self { Body::Data(BlockS::default()) } }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit { Flip(u32, u8), Set(u32, Bytes), Zero(u32, u32), Cut(u32), Del(u32, u32), Dup(u32, u32), Swap(u32, u32, u32), Ins(u32, Bytes) }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct BlobS {
    pub body: Body,
    /// -1: raw; 0..=9: zlib level; -2: no data field at all; -3: lzma field; -4: raw, empty message before (never used for data)
    pub enc: i32,
    /// raw_size field: -1 absent, 0 true size, else the given value
    pub raw_size: i64,
    /// raw_size after the data
    pub size_last: bool,
    /// length of indexdata in the blob header (0: absent)
    pub indexdata: u32,
    pub hdr_order: u8,
    /// unknown fields in blob header / blob
    pub hdr_unknown: u32,
    pub blob_unknown: u32,
    /// Legal but unusual encodings: 1 long number for datasize, 2 fields given twice (the last counts), 4 long number for raw_size, 8 long length of the payload.
    pub pad: u8,
    /// Lies: replace the datasize / length prefix.
    pub datasize: Option<i64>,
    pub prefix: Option<u32>,
    /// Edits of the uncompressed message, and of the stored payload.
    pub inner: Vec<Edit>,
    pub damage: Vec<Edit>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Doc { pub blobs: Vec<BlobS> }

/// Where things ended up in the file.
#[derive(Clone, Debug, Default)]
pub struct Lay { pub start: usize, pub hdr: usize, pub body: usize, pub end: usize, pub payload: (usize, usize), pub plain_len: usize }
#[derive(Clone, Debug, Default)]
pub struct Enc { pub bytes: Vec<u8>, pub lay: Vec<Lay> }

// ------------------------------------------------------------------ wire format
pub fn varint(o: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8); }
/// A number with redundant continuation bytes.
pub fn long_varint(o: &mut Vec<u8>, v: u64, extra: usize) { varint(o, v); for _ in 0..extra { *o.last_mut().unwrap() |= 0x80; o.push(0); } }
pub fn zz(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }
pub fn key(o: &mut Vec<u8>, f: u32, w: u32) { varint(o, ((f << 3) | w) as u64); }
pub fn fv(o: &mut Vec<u8>, f: u32, v: u64) { key(o, f, 0); varint(o, v); }
pub fn fb(o: &mut Vec<u8>, f: u32, b: &[u8]) { key(o, f, 2); varint(o, b.len() as u64); o.extend_from_slice(b); }
fn rep(o: &mut Vec<u8>, f: u32, vals: &[u64], unpacked: bool) {
    if vals.is_empty() { return; }
    if unpacked { for v in vals { fv(o, f, *v); } } else {
        let mut b = vec![];
        for v in vals { varint(&mut b, *v); }
        fb(o, f, &b);
    }
}
fn unknown(o: &mut Vec<u8>, n: u32) {
    for k in 0..n {
        match k % 4 {
            0 => fv(o, 200 + k, 7 + k as u64),
            1 => fb(o, 300 + k, b"future"),
            2 => { key(o, 400 + k, 5); o.extend_from_slice(&[1, 2, 3, 4]); }
            _ => { key(o, 500 + k, 1); o.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]); }
        }
    }
}
fn deltas(v: impl Iterator<Item = i64>) -> Vec<u64> {
    let mut p = 0i64;
    v.map(|x| { let d = x.wrapping_sub(p); p = x; zz(d) }).collect()
}
fn i64v(v: i32) -> u64 { v as i64 as u64 }

fn info_bytes(i: &InfoS) -> Vec<u8> {
    let mut o = vec![];
    if let Some(v) = i.version { fv(&mut o, 1, i64v(v)); }
    if let Some(v) = i.ts { fv(&mut o, 2, v as u64); }
    if let Some(v) = i.cs { fv(&mut o, 3, v as u64); }
    if let Some(v) = i.uid { fv(&mut o, 4, i64v(v)); }
    if let Some(v) = i.user { fv(&mut o, 5, v as u64); }
    if let Some(v) = i.visible { fv(&mut o, 6, v as u64); }
    o
}
struct Cols { mangle: u32, n: u32 }
impl Cols {
    fn put(&mut self, o: &mut Vec<u8>, f: u32, mut v: Vec<u64>, unpacked: bool) {
        if self.mangle >> (self.n % 32) & 1 == 1 { v.pop(); }
        self.n += 1;
        rep(o, f, &v, unpacked);
    }
}
fn tags_bytes(o: &mut Vec<u8>, c: &mut Cols, tags: &[(u32, u32)], up: bool) {
    c.put(o, 2, tags.iter().map(|t| t.0 as u64).collect(), up);
    c.put(o, 3, tags.iter().map(|t| t.1 as u64).collect(), up);
}
fn group_bytes(g: &GroupS, up: bool, unk: bool, order: u8) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut c = Cols { mangle: g.mangle, n: 0 };
    let mut part = vec![];
    for n in &g.nodes {
        let mut o = vec![];
        if order & 1 == 0 { fv(&mut o, 1, zz(n.id)); }
        tags_bytes(&mut o, &mut c, &n.tags, up);
        if let Some(i) = &n.info { fb(&mut o, 4, &info_bytes(i)); }
        fv(&mut o, 8, zz(n.lat));
        fv(&mut o, 9, zz(n.lon));
        if order & 1 == 1 { fv(&mut o, 1, zz(n.id)); }
        if unk { unknown(&mut o, 2); }
        fb(&mut part, 1, &o);
    }
    parts.push(std::mem::take(&mut part));
    if let Some(d) = &g.dense {
        let mut o = vec![];
        c.put(&mut o, 1, deltas(d.nodes.iter().map(|n| n.id)), up);
        if d.info {
            let mut i = vec![];
            if d.has(0) { c.put(&mut i, 1, d.nodes.iter().map(|n| i64v(n.version)).collect(), up); }
            if d.has(1) { c.put(&mut i, 2, deltas(d.nodes.iter().map(|n| n.ts)), up); }
            if d.has(2) { c.put(&mut i, 3, deltas(d.nodes.iter().map(|n| n.cs)), up); }
            if d.has(3) { c.put(&mut i, 4, deltas(d.nodes.iter().map(|n| n.uid as i64)), up); }
            if d.has(4) { c.put(&mut i, 5, deltas(d.nodes.iter().map(|n| n.user as i64)), up); }
            if d.vis { c.put(&mut i, 6, d.nodes.iter().map(|n| n.visible as u64).collect(), up); }
            fb(&mut o, 5, &i);
        }
        let kv: Vec<u64> = if d.kv {
            d.nodes.iter().flat_map(|n| n.tags.iter().flat_map(|t| [i64v(t.0), i64v(t.1)]).chain([0]).collect::<Vec<_>>()).collect()
        } else { vec![] };
        if order & 2 == 0 {
            c.put(&mut o, 8, deltas(d.nodes.iter().map(|n| n.lat)), up);
            c.put(&mut o, 9, deltas(d.nodes.iter().map(|n| n.lon)), up);
            c.put(&mut o, 10, kv, up);
        } else {
            c.put(&mut o, 10, kv, up);
            c.put(&mut o, 9, deltas(d.nodes.iter().map(|n| n.lon)), up);
            c.put(&mut o, 8, deltas(d.nodes.iter().map(|n| n.lat)), up);
        }
        if unk { unknown(&mut o, 3); }
        fb(&mut part, 2, &o);
    }
    parts.push(std::mem::take(&mut part));
    for w in &g.ways {
        let mut o = vec![];
        fv(&mut o, 1, w.id as u64);
        tags_bytes(&mut o, &mut c, &w.tags, up);
        if let Some(i) = &w.info { fb(&mut o, 4, &info_bytes(i)); }
        c.put(&mut o, 8, deltas(w.refs.iter().copied()), up);
        c.put(&mut o, 9, deltas(w.locs.iter().map(|l| l.0)), up);
        c.put(&mut o, 10, deltas(w.locs.iter().map(|l| l.1)), up);
        if unk { unknown(&mut o, 1); }
        fb(&mut part, 3, &o);
    }
    parts.push(std::mem::take(&mut part));
    for r in &g.rels {
        let mut o = vec![];
        fv(&mut o, 1, r.id as u64);
        tags_bytes(&mut o, &mut c, &r.tags, up);
        if let Some(i) = &r.info { fb(&mut o, 4, &info_bytes(i)); }
        c.put(&mut o, 8, r.members.iter().map(|m| i64v(m.0)).collect(), up);
        c.put(&mut o, 9, deltas(r.members.iter().map(|m| m.1)), up);
        c.put(&mut o, 10, r.members.iter().map(|m| i64v(m.2)).collect(), up);
        fb(&mut part, 4, &o);
    }
    parts.push(std::mem::take(&mut part));
    for s in &g.changesets { let mut o = vec![]; fv(&mut o, 1, *s as u64); fb(&mut part, 5, &o); }
    parts.push(part);
    if order & 4 != 0 { parts.reverse(); }
    let mut o = parts.concat();
    if unk { unknown(&mut o, 1); }
    o
}
pub fn fill_bytes(n: u32, seed: u64) -> Vec<u8> {
    if seed == 0 { return vec![b'x'; n as usize]; }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n as usize + 8);
    while v.len() < n as usize { v.extend(r.next().to_le_bytes().iter().map(|b| b'a' + (b & 15))); }
    v.truncate(n as usize);
    v
}
fn more_string(k: u32) -> String { format!("s{k}") }
pub fn block_bytes(b: &BlockS) -> Vec<u8> {
    let mut st = vec![];
    for s in &b.strings { fb(&mut st, 1, &s.0); }
    for k in 0..b.more { fb(&mut st, 1, more_string(k).as_bytes()); }
    if b.fill > 0 { fb(&mut st, 1, &fill_bytes(b.fill, b.fill_seed)); }
    let mut o = vec![];
    let scal = |o: &mut Vec<u8>| {
        if let Some(v) = b.gran { fv(o, 17, i64v(v)); }
        if let Some(v) = b.date_gran { fv(o, 18, i64v(v)); }
        if let Some(v) = b.lat_off { fv(o, 19, v as u64); }
        if let Some(v) = b.lon_off { fv(o, 20, v as u64); }
        if b.unknown { unknown(o, 4); }
    };
    if b.order & 8 != 0 { scal(&mut o); }
    if b.order & 16 == 0 { fb(&mut o, 1, &st); }
    for g in &b.groups { fb(&mut o, 2, &group_bytes(g, b.unpacked, b.unknown, b.order)); }
    if b.order & 16 != 0 { fb(&mut o, 1, &st); }
    if b.order & 8 == 0 { scal(&mut o); }
    o
}
pub fn header_bytes(h: &HeaderS) -> Vec<u8> {
    let mut o = vec![];
    if let Some(b) = h.bbox {
        let mut i = vec![];
        fv(&mut i, 1, zz(b.0)); fv(&mut i, 2, zz(b.1)); fv(&mut i, 3, zz(b.2)); fv(&mut i, 4, zz(b.3));
        fb(&mut o, 1, &i);
    }
    for s in &h.req { fb(&mut o, 4, &s.0); }
    for s in &h.opt { fb(&mut o, 5, &s.0); }
    if let Some(s) = &h.program { fb(&mut o, 16, &s.0); }
    if let Some(s) = &h.source { fb(&mut o, 17, &s.0); }
    if let Some(s) = h.ts { fv(&mut o, 32, s as u64); }
    if let Some(s) = h.seq { fv(&mut o, 33, s as u64); }
    if let Some(s) = &h.url { fb(&mut o, 34, &s.0); }
    if h.unknown { unknown(&mut o, 4); }
    o
}
pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
/// Applies storage damage; positions are taken modulo the length.
pub fn apply_edits(v: &mut Vec<u8>, edits: &[Edit]) {
    for e in edits {
        let n = v.len();
        if n == 0 { if let Edit::Ins(_, b) = e { v.extend_from_slice(&b.0); } continue; }
        let at = |p: u32| p as usize % n;
        match e {
            Edit::Flip(p, b) => v[at(*p)] ^= 1 << (b % 8),
            Edit::Set(p, b) => for (k, x) in b.0.iter().enumerate() { if at(*p) + k < n { v[at(*p) + k] = *x; } },
            Edit::Zero(p, l) => { let a = at(*p); let z = (a + *l as usize).min(n); v[a..z].fill(0); }
            Edit::Cut(p) => v.truncate(at(*p)),
            Edit::Del(p, l) => { let a = at(*p); let z = (a + *l as usize).min(n); v.drain(a..z); }
            Edit::Dup(p, l) => { let a = at(*p); let z = (a + *l as usize).min(n); let c = v[a..z].to_vec(); v.splice(z..z, c); }
            Edit::Swap(p, q, l) => { for k in 0..*l as usize { let (a, b) = (at(*p) + k, at(*q) + k); if a < n && b < n { v.swap(a, b); } } }
            Edit::Ins(p, b) => { let a = at(*p); v.splice(a..a, b.0.iter().copied()); }
        }
    }
}
impl BlobS {
    pub fn type_name(&self) -> Vec<u8> {
        match &self.body { Body::Header(_) => b"OSMHeader".to_vec(), Body::Data(_) => b"OSMData".to_vec(), Body::Other(n, _) => n.0.clone() }
    }
    pub fn plain(&self) -> Vec<u8> {
        let mut v = match &self.body { Body::Header(h) => header_bytes(h), Body::Data(b) => block_bytes(b), Body::Other(_, b) => b.0.clone() };
        apply_edits(&mut v, &self.inner);
        v
    }
    /// Returns (blob message, payload range in it, plain length).
    pub fn blob_msg(&self) -> (Vec<u8>, (usize, usize), usize) {
        let plain = self.plain();
        let plain_len = plain.len();
        let mut payload = if self.enc >= 0 { zlib(&plain, self.enc as u32) } else { plain };
        apply_edits(&mut payload, &self.damage);
        let mut o = vec![];
        let rs = |o: &mut Vec<u8>| {
            let v = match self.raw_size { -1 => return, 0 => plain_len as u64, v => v as u64 };
            if self.pad & 2 != 0 { fv(o, 2, 1); }
            key(o, 2, 0);
            long_varint(o, v, if self.pad & 4 != 0 { 2 } else { 0 });
        };
        if !self.size_last { rs(&mut o); }
        unknown(&mut o, self.blob_unknown / 2);
        let mut range = (o.len(), o.len());
        if self.enc != -2 {
            let f = if self.enc >= 0 { 3 } else if self.enc == -3 { 4 } else { 1 };
            key(&mut o, f, 2);
            long_varint(&mut o, payload.len() as u64, if self.pad & 8 != 0 { 1 } else { 0 });
            o.extend_from_slice(&payload);
            range = (o.len() - payload.len(), o.len());
        }
        unknown(&mut o, self.blob_unknown - self.blob_unknown / 2);
        if self.size_last { rs(&mut o); }
        (o, range, plain_len)
    }
    pub fn header_msg(&self, datasize: usize) -> Vec<u8> {
        let ds = self.datasize.unwrap_or(datasize as i64);
        let mut parts: Vec<Vec<u8>> = vec![vec![], vec![], vec![]];
        if self.pad & 2 != 0 { fb(&mut parts[0], 1, b"OSMDat"); fv(&mut parts[2], 3, 3); }
        fb(&mut parts[0], 1, &self.type_name());
        if self.indexdata > 0 { fb(&mut parts[1], 2, &fill_bytes(self.indexdata, 0)); }
        key(&mut parts[2], 3, 0);
        long_varint(&mut parts[2], ds as u64, if self.pad & 1 != 0 && ds >= 0 { 1 + self.hdr_order as usize % 3 } else { 0 });
        match self.hdr_order % 6 { 1 => parts.swap(0, 2), 2 => parts.rotate_left(1), 3 => parts.rotate_right(1), 4 => parts.swap(0, 1), 5 => parts.swap(1, 2), _ => {} }
        let mut o = parts.concat();
        unknown(&mut o, self.hdr_unknown);
        o
    }
    pub fn append(&self, out: &mut Vec<u8>) -> Lay {
        let (msg, pr, plain_len) = self.blob_msg();
        let h = self.header_msg(msg.len());
        let start = out.len();
        out.extend_from_slice(&self.prefix.unwrap_or(h.len() as u32).to_be_bytes());
        out.extend_from_slice(&h);
        let body = out.len();
        out.extend_from_slice(&msg);
        Lay { start, hdr: start + 4, body, end: out.len(), payload: (body + pr.0, body + pr.1), plain_len }
    }
}
impl Doc {
    pub fn encode(&self) -> Enc {
        let mut e = Enc::default();
        for b in &self.blobs { let l = b.append(&mut e.bytes); e.lay.push(l); }
        e
    }
}

// ------------------------------------------------------------------ what a reader must deliver
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct InfoRec { pub version: Option<i32>, pub ts: Option<i64>, pub cs: Option<i64>, pub uid: Option<i32>, pub user: Option<Result<String, ()>>, pub visible: bool, pub deleted: bool }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Elem {
    /// 'N' node, 'D' dense node, 'W' way, 'R' relation
    pub kind: u8,
    pub id: i64,
    pub tags: Vec<(String, String)>,
    pub raw_tags: Vec<(i64, i64)>,
    pub nano: (i64, i64),
    pub deci: (i32, i32),
    pub deg_ok: bool,
    pub info: Option<InfoRec>,
    pub refs: Vec<i64>,
    pub raw_refs: Vec<i64>,
    pub locs: Vec<(i64, i64)>,
    pub members: Vec<(u8, i64, i32, Result<String, ()>)>,
}
impl Elem {
    pub fn hash(&self) -> u64 {
        let mut h = simrt::mix(self.kind as u64 ^ (self.id as u64).rotate_left(8));
        let mut add = |x: u64| h = simrt::mix(h ^ x);
        let st = |s: &str| s.bytes().fold(7u64, |a, b| simrt::mix(a ^ b as u64));
        for (k, v) in &self.tags { add(st(k)); add(st(v)); }
        add(1);
        for (k, v) in &self.raw_tags { add(*k as u64); add(*v as u64); }
        add(self.nano.0 as u64); add(self.nano.1 as u64); add(self.deg_ok as u64);
        for r in &self.refs { add(*r as u64); }
        add(2);
        for r in &self.locs { add(r.0 as u64); add(r.1 as u64); }
        add(3);
        for m in &self.members { add(m.0 as u64); add(m.1 as u64); add(m.2 as u64); if let Ok(s) = &m.3 { add(st(s)); } }
        if let Some(i) = &self.info {
            add(i.version.map_or(1, |v| (v as u64).wrapping_add(2))); add(i.ts.map_or(1, |v| (v as u64).wrapping_add(2))); add(i.cs.map_or(1, |v| (v as u64).wrapping_add(2)));
            add(i.uid.map_or(1, |v| (v as u64).wrapping_add(2))); add(i.visible as u64);
            if let Some(Ok(u)) = &i.user { add(st(u)); }
        }
        h
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct GroupRec { pub nodes: Vec<Elem>, pub dense: Vec<Elem>, pub ways: Vec<Elem>, pub rels: Vec<Elem> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct HeaderRec { pub bbox: Option<(i64, i64, i64, i64)>, pub bbox_ok: bool, pub req: Vec<String>, pub opt: Vec<String>, pub program: Option<String>, pub source: Option<String>, pub ts: Option<i64>, pub seq: Option<i64>, pub url: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub enum Content { Header(HeaderRec), Data { strings: Vec<Vec<u8>>, groups: Vec<GroupRec> }, Other(String) }

fn lossy(b: &Bytes) -> String { String::from_utf8_lossy(&b.0).into_owned() }
impl BlockS {
    fn string(&self, k: usize) -> Result<String, ()> {
        if let Some(s) = self.strings.get(k) { return String::from_utf8(s.0.clone()).map_err(|_| ()); }
        let k = k.wrapping_sub(self.strings.len());
        if k < self.more as usize { Ok(more_string(k as u32)) } else if k == self.more as usize && self.fill > 0 { String::from_utf8(fill_bytes(self.fill, self.fill_seed)).map_err(|_| ()) } else { Err(()) }
    }
    /// Length of the string table.
    pub fn len(&self) -> usize { self.strings.len() + self.more as usize + (self.fill > 0) as usize }
    fn tags<'a>(&self, t: impl Iterator<Item = (i64, i64)> + Clone + 'a) -> (Vec<(String, String)>, Vec<(i64, i64)>) {
        (t.clone().map(|(k, v)| (self.string(k as usize).unwrap_or_default(), self.string(v as usize).unwrap_or_default())).collect(), t.collect())
    }
    fn info(&self, i: &Option<InfoS>) -> InfoRec {
        let d = InfoS::default();
        let i = i.as_ref().unwrap_or(&d);
        let vis = i.visible.unwrap_or(true);
        InfoRec { version: i.version, ts: i.ts.map(|t| t.wrapping_mul(self.date_gran.unwrap_or(1000) as i64)), cs: i.cs, uid: i.uid, user: i.user.map(|u| self.string(u as usize)), visible: vis, deleted: !vis }
    }
    fn pos(&self, lat: i64, lon: i64) -> ((i64, i64), (i32, i32)) {
        let g = self.gran.unwrap_or(100) as i64;
        let a = self.lat_off.unwrap_or(0).wrapping_add(g.wrapping_mul(lat));
        let o = self.lon_off.unwrap_or(0).wrapping_add(g.wrapping_mul(lon));
        ((a, o), ((a / 100) as i32, (o / 100) as i32))
    }
    pub fn content(&self) -> Content {
        let groups = self.groups.iter().map(|g| {
            let mut r = GroupRec::default();
            for n in &g.nodes {
                let (tags, raw_tags) = self.tags(n.tags.iter().map(|t| (t.0 as i64, t.1 as i64)));
                let (nano, deci) = self.pos(n.lat, n.lon);
                r.nodes.push(Elem { kind: b'N', id: n.id, tags, raw_tags, nano, deci, deg_ok: true, info: Some(self.info(&n.info)), ..Elem::default() });
            }
            if let Some(d) = &g.dense {
                for n in &d.nodes {
                    let none = vec![];
                    let (tags, raw_tags) = self.tags(if d.kv { &n.tags } else { &none }.iter().map(|t| (t.0 as i64, t.1 as i64)));
                    let (nano, deci) = self.pos(n.lat, n.lon);
                    let vis = !d.vis || n.visible;
                    let col = |c: u8, v: i64, none: i64| if d.has(c) { v } else { none };
                    let info = d.any_info().then(|| InfoRec { version: Some(col(0, n.version as i64, -1) as i32), ts: Some(col(1, n.ts, 0).wrapping_mul(self.date_gran.unwrap_or(1000) as i64)), cs: Some(col(2, n.cs, 0)), uid: Some(col(3, n.uid as i64, 0) as i32), user: Some(self.string(col(4, n.user as i64, 0) as usize)), visible: vis, deleted: !vis });
                    r.dense.push(Elem { kind: b'D', id: n.id, tags, raw_tags, nano, deci, deg_ok: true, info, ..Elem::default() });
                }
            }
            for w in &g.ways {
                let (tags, raw_tags) = self.tags(w.tags.iter().map(|t| (t.0 as i64, t.1 as i64)));
                let mut p = 0;
                let raw_refs = w.refs.iter().map(|x| { let d = x.wrapping_sub(p); p = *x; d }).collect();
                r.ways.push(Elem { kind: b'W', id: w.id, tags, raw_tags, deg_ok: true, info: Some(self.info(&w.info)), refs: w.refs.clone(), raw_refs, locs: w.locs.iter().map(|l| self.pos(l.0, l.1).0).collect(), ..Elem::default() });
            }
            for x in &g.rels {
                let (tags, raw_tags) = self.tags(x.tags.iter().map(|t| (t.0 as i64, t.1 as i64)));
                r.rels.push(Elem { kind: b'R', id: x.id, tags, raw_tags, deg_ok: true, info: Some(self.info(&x.info)), members: x.members.iter().map(|m| (m.2 as u8, m.1, m.0, self.string(m.0 as usize))).collect(), ..Elem::default() });
            }
            r
        }).collect();
        let mut strings: Vec<Vec<u8>> = self.strings.iter().map(|s| s.0.clone()).collect();
        strings.extend((0..self.more).map(|k| more_string(k).into_bytes()));
        if self.fill > 0 { strings.push(fill_bytes(self.fill, self.fill_seed)); }
        Content::Data { strings, groups }
    }
    /// References stay inside the tables, arithmetic inside the number ranges.
    fn well_formed(&self) -> bool {
        let n = self.len() as i64;
        let ok = |k: i64| k >= 0 && k < n;
        let tagok = |t: &(u32, u32)| ok(t.0 as i64) && ok(t.1 as i64);
        let infook = |i: &Option<InfoS>| i.as_ref().is_none_or(|i| i.user.is_none_or(|u| ok(u as i64)) && i.ts.is_none_or(|t| t.unsigned_abs() < 1 << 40));
        let big = 1i64 << 62;
        let idok = |i: i64| i.checked_abs().is_some_and(|a| a < big);
        let (g, a, o) = (self.gran.unwrap_or(100) as i64, self.lat_off.unwrap_or(0), self.lon_off.unwrap_or(0));
        let posok = |lat: i64, lon: i64| {
            let f = |x: i64, off: i64| g.checked_mul(x).and_then(|v| v.checked_add(off)).is_some_and(|v| v.unsigned_abs() < 200_000_000_000);
            f(lat, a) && f(lon, o)
        };
        self.strings.iter().all(|s| std::str::from_utf8(&s.0).is_ok())
            && self.gran.is_none_or(|g| g > 0) && self.date_gran.is_none_or(|g| g > 0 && g <= 1_000_000)
            && self.groups.iter().all(|gr| {
                gr.mangle == 0
                    && gr.nodes.iter().all(|x| idok(x.id) && x.tags.iter().all(tagok) && infook(&x.info) && posok(x.lat, x.lon))
                    && gr.dense.as_ref().is_none_or(|d| d.nodes.iter().all(|x| {
                        idok(x.id) && posok(x.lat, x.lon) && (d.kv || x.tags.is_empty())
                            && x.tags.iter().all(|t| t.0 > 0 && ok(t.0 as i64) && ok(t.1 as i64))
                            && (!d.info || (ok(x.user as i64) && x.ts.unsigned_abs() < 1 << 40 && x.cs.checked_abs().is_some_and(|a| a < big) && (x.uid as i64).abs() <= 1 << 30))
                    }))
                    && gr.ways.iter().all(|x| idok(x.id) && x.tags.iter().all(tagok) && infook(&x.info) && x.refs.iter().all(|r| idok(*r)) && x.locs.iter().all(|l| posok(l.0, l.1)))
                    && gr.rels.iter().all(|x| idok(x.id) && x.tags.iter().all(tagok) && infook(&x.info) && x.members.iter().all(|m| ok(m.0 as i64) && idok(m.1) && (0..3).contains(&m.2)))
            })
    }
}
impl BlobS {
    pub fn content(&self) -> Content {
        match &self.body {
            Body::Header(h) => Content::Header(HeaderRec {
                bbox: h.bbox, bbox_ok: true, req: h.req.iter().map(lossy).collect(), opt: h.opt.iter().map(lossy).collect(),
                program: h.program.as_ref().map(lossy), source: h.source.as_ref().map(lossy), ts: h.ts, seq: h.seq, url: h.url.as_ref().map(lossy),
            }),
            Body::Data(b) => b.content(),
            Body::Other(n, _) => Content::Other(lossy(n)),
        }
    }
    pub fn well_formed(&self) -> bool {
        self.inner.is_empty() && self.damage.is_empty() && self.datasize.is_none() && self.prefix.is_none() && (-1..=9).contains(&self.enc)
            && match &self.body {
                Body::Data(b) => b.well_formed(),
                Body::Header(h) => {
                    let u = |s: &Bytes| std::str::from_utf8(&s.0).is_ok();
                    h.req.iter().all(u) && h.opt.iter().all(u) && h.program.as_ref().is_none_or(u) && h.source.as_ref().is_none_or(u) && h.url.as_ref().is_none_or(u)
                }
                Body::Other(n, _) => std::str::from_utf8(&n.0).is_ok() && n.0 != b"OSMData" && n.0 != b"OSMHeader",
            }
    }
}
impl Doc {
    pub fn well_formed(&self) -> bool { self.blobs.iter().all(|b| b.well_formed()) }
    pub fn contents(&self) -> Vec<Content> { self.blobs.iter().map(|b| b.content()).collect() }
}
impl Content {
    /// All elements in stored order (nodes before dense nodes within a group).
    pub fn elems(&self) -> Vec<&Elem> {
        match self {
            Content::Data { groups, .. } => groups.iter().flat_map(|g| g.nodes.iter().chain(&g.dense).chain(&g.ways).chain(&g.rels)).collect(),
            _ => vec![],
        }
    }
    /// Compares delivered elements of this block; plain and dense nodes of one group may come in either order.
    pub fn match_elems(&self, got: &[Elem]) -> Result<(), String> {
        let mut at = 0;
        let take = |at: &mut usize, want: &[Elem], what: &str| -> Result<(), String> {
            for w in want {
                match got.get(*at) {
                    None => return Err(format!("{what} {} missing (only {} elements delivered)", w.id, got.len())),
                    Some(g) if g == w => *at += 1,
                    Some(g) => return Err(format!("element {} differs: {}", *at, diff(w, g))),
                }
            }
            Ok(())
        };
        if let Content::Data { groups, .. } = self {
            for g in groups {
                let dense_first = !g.nodes.is_empty() && !g.dense.is_empty() && got.get(at).is_some_and(|e| e.kind == b'D');
                if dense_first { take(&mut at, &g.dense, "dense node")?; take(&mut at, &g.nodes, "node")?; }
                else { take(&mut at, &g.nodes, "node")?; take(&mut at, &g.dense, "dense node")?; }
                take(&mut at, &g.ways, "way")?;
                take(&mut at, &g.rels, "relation")?;
            }
        }
        if at < got.len() { return Err(format!("{} extra elements, first: {}", got.len() - at, short(&got[at]))); }
        Ok(())
    }
}
pub fn short(e: &Elem) -> String { format!("{}{}", e.kind as char, e.id) }
pub fn diff(want: &Elem, got: &Elem) -> String {
    if want.kind != got.kind || want.id != got.id { return format!("expected {}, got {}", short(want), short(got)); }
    let mut o = short(want);
    macro_rules! d { ($($f:ident),*) => { $( if want.$f != got.$f {
        let (a, b) = (format!("{:?}", want.$f), format!("{:?}", got.$f));
        o += &format!(" {}: expected {:.200}, got {:.200}", stringify!($f), a, b); } )* } }
    d!(tags, raw_tags, nano, deci, deg_ok, info, refs, raw_refs, locs, members);
    o
}
