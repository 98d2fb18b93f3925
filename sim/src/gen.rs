//! Seeded generators for the model files.
use crate::doc::*;
use simrt::Rng;

pub struct G(pub Rng);
impl G {
    pub fn new(seed: u64) -> G { G(Rng::new(seed)) }
    pub fn n(&mut self, n: u64) -> u64 { self.0.below(n) }
    /// Inclusive range.
    pub fn r(&mut self, a: i64, b: i64) -> i64 { a + self.0.below((b - a + 1) as u64) as i64 }
    pub fn p(&mut self, pct: u64) -> bool { self.0.below(100) < pct }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.0.below(v.len() as u64) as usize].clone() }
    /// Small numbers most of the time.
    pub fn small(&mut self, max: u64) -> u64 { let m = self.n(max + 1); self.n(m + 1) }
}

/// What kind of files to make.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_blobs: u64,
    pub max_elems: u64,
    pub mixed: bool,
    pub plain_and_dense: bool,
    pub other: bool,
    pub big: bool,
    pub extreme_ids: bool,
    pub id_span: i64,
    pub zlib_only: bool,
    /// Rare, large shapes: numbers of blobs, elements, strings, list entries around the thresholds code likes to have.
    pub scale: bool,
}
impl Cfg {
    /// A random, moderately sized mix.
    pub fn swarm(g: &mut G) -> Cfg {
        Cfg {
            max_blobs: g.pick(&[1, 2, 3, 5, 8, 12]), max_elems: g.pick(&[1, 3, 8, 8, 20]), mixed: g.p(40), plain_and_dense: g.p(20), other: g.p(40), big: g.p(12),
            extreme_ids: g.p(30), id_span: g.pick(&[3, 12, 40, 1000]), zlib_only: g.p(10), scale: true,
        }
    }
}
const WORDS: &[&str] = &["", "highway", "name", "residential", "Straße", "natural", "東京", "yes", "ref", "B 96", "\u{0}", "user", "outer", "🚲", "a", "addr:street"];

fn id(g: &mut G, c: &Cfg) -> i64 {
    if c.extreme_ids && g.p(10) { return g.pick(&[(1i64 << 62) - 1, -(1i64 << 62) + 1, 1 << 33, -(1 << 33), i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, 0, -1]); }
    if g.p(25) { -g.r(0, c.id_span) } else { g.r(0, c.id_span) }
}
/// Metadata as it is found, and as the types allow. (Dense blocks store differences, which have to fit, too.)
fn version(g: &mut G) -> i32 { if g.p(12) { g.pick(&[-1, 10, 127, 128, 255, 256, 300, 32_767, 32_768, 65_535, 65_536, 1 << 20, i32::MAX]) } else { g.r(0, 9) as i32 } }
fn stamp(g: &mut G) -> i64 { if g.p(8) { g.pick(&[-1, -86_400_000, 4_294_967_295, 4_294_967_296, 253_402_300_799, (1 << 40) - 1, -(1 << 39)]) } else { g.r(0, 2_000_000_000) } }
fn changeset(g: &mut G) -> i64 { if g.p(8) { g.pick(&[-1, 0, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64 + 1, 1 << 53, (1 << 53) + 1, (1 << 62) - 1, -(1 << 62) + 1]) } else { g.r(0, 1 << 40) } }
fn uid(g: &mut G) -> i32 { if g.p(8) { g.pick(&[0, -1, 65_535, 65_536, 16_777_217, (1 << 30) - 1, -(1 << 30) + 1]) } else { g.r(0, 1 << 30) as i32 } }
fn info(g: &mut G, ns: u64) -> Option<InfoS> {
    if g.p(40) { return None; }
    Some(InfoS {
        version: g.p(80).then(|| version(g)), ts: g.p(80).then(|| stamp(g)), cs: g.p(80).then(|| changeset(g)),
        uid: g.p(80).then(|| uid(g)), user: g.p(70).then(|| g.n(ns) as u32), visible: g.p(30).then(|| g.p(50)),
    })
}
fn tags(g: &mut G, ns: u64) -> Vec<(u32, u32)> {
    let n = if g.p(50) { 0 } else { g.small(4) };
    (0..n).map(|_| (g.n(ns) as u32, g.n(ns) as u32)).collect()
}
fn members(g: &mut G, c: &Cfg, ns: u64) -> Vec<(i32, i64, i32)> {
    let n = g.small(6);
    members_n(g, c, ns, n)
}
fn members_n(g: &mut G, c: &Cfg, ns: u64, n: u64) -> Vec<(i32, i64, i32)> {
    (0..n).map(|_| (g.n(ns) as i32, id(g, c), g.r(0, 2) as i32)).collect()
}
fn coord(g: &mut G, gran: i64, off: i64) -> i64 {
    let nano = match g.n(6) { 0 => 0, 1 => g.pick(&[180_000_000_000, -180_000_000_000, 90_000_000_000, -90_000_000_000]), _ => g.r(-180_000_000_000, 180_000_000_000) };
    let nano = nano.clamp(-180_000_000_000, 180_000_000_000);
    (nano - off) / gran.max(1)
}
fn text(g: &mut G) -> Bytes {
    let n = g.pick(&[100, 127, 128, 129, 255, 256, 1020, 1024, 16_383, 16_384, 65_535, 65_536, 70_000]);
    let unit = g.pick(&["x", "ß", "東", "🚲"]);
    Bytes::from(unit.repeat(n / unit.len()).as_str())
}
pub fn data(g: &mut G, c: &Cfg) -> BlockS {
    let ns = 2 + g.small(13);
    let mut b = BlockS { strings: (0..ns).map(|k| if k == 0 { Bytes::from("") } else { Bytes::from(g.pick(WORDS)) }).collect(), ..BlockS::default() };
    if g.p(4) {
        // A long text.
        let k = 1 + g.n(ns - 1) as usize;
        b.strings[k] = text(g);
    }
    if g.p(30) { b.gran = Some(g.pick(&[1, 100, 10, 7, 1000, 25_000])); }
    if g.p(20) { b.lat_off = Some(g.pick(&[0, 1, -1, 1_000_000_007, -5_000_000_000])); }
    if g.p(20) { b.lon_off = Some(g.pick(&[0, 1, -1, 999_999_937, -5_000_000_000])); }
    if g.p(20) { b.date_gran = Some(g.pick(&[1, 1000, 1, 60_000])); }
    b.unpacked = g.p(5);
    b.unknown = g.p(8);
    b.order = if g.p(30) { g.n(32) as u8 } else { 0 };
    let (gr, la, lo) = (b.gran.unwrap_or(100) as i64, b.lat_off.unwrap_or(0), b.lon_off.unwrap_or(0));
    let ng = g.pick(&[0, 1, 1, 1, 2, 3]);
    for _ in 0..ng {
        let mut x = GroupS::default();
        let kinds: Vec<u8> = if c.mixed && g.p(40) { (0..4).filter(|_| g.p(50)).collect() } else { vec![g.n(4) as u8] };
        for k in kinds {
            let n = g.small(c.max_elems);
            match k {
                0 if x.dense.is_none() || c.plain_and_dense => for _ in 0..n {
                    let t = tags(g, ns);
                    x.nodes.push(NodeS { id: id(g, c), lat: coord(g, gr, la), lon: coord(g, gr, lo), tags: t, info: info(g, ns) });
                },
                1 if x.nodes.is_empty() || c.plain_and_dense => {
                    let mut d = DenseS { nodes: vec![], info: g.p(60), vis: g.p(30), kv: g.p(70), no: 0 };
                    if g.p(20) { d.no = if g.p(40) { 0b11100 } else { g.n(32) as u8 }; }
                    for _ in 0..n {
                        let t = if d.kv && g.p(60) { let m = g.small(3); (0..m).map(|_| (1 + g.n(ns - 1) as i32, g.n(ns) as i32)).collect() } else { vec![] };
                        d.nodes.push(DNodeS { id: id(g, c), lat: coord(g, gr, la), lon: coord(g, gr, lo), tags: t, version: version(g), ts: stamp(g), cs: changeset(g), uid: uid(g), user: g.n(ns) as i32, visible: g.p(70) });
                    }
                    x.dense = Some(d);
                }
                2 => for _ in 0..n {
                    let nr = g.small(8);
                    let refs: Vec<i64> = (0..nr).map(|_| id(g, c)).collect();
                    let nl = if g.p(25) { g.small(6) } else { 0 };
                    let locs = (0..nl).map(|_| (coord(g, gr, la), coord(g, gr, lo))).collect();
                    let t = tags(g, ns);
                    x.ways.push(WayS { id: id(g, c), tags: t, info: info(g, ns), refs, locs });
                },
                3 => for _ in 0..n {
                    let t = tags(g, ns);
                    x.rels.push(RelS { id: id(g, c), tags: t, info: info(g, ns), members: members(g, c, ns) });
                },
                _ => {}
            }
        }
        if g.p(5) { x.changesets = vec![g.r(1, 99)]; }
        b.groups.push(x);
    }
    if c.big && g.p(40) {
        b.fill = match g.n(5) { 0 => g.r(1, 300), 1 => g.r(4000, 4200), 2 => g.r(8100, 8300), 3 => g.r(60_000, 70_000), _ => g.r(1, 200_000) } as u32;
        b.fill_seed = if g.p(50) { 1 + g.n(1 << 30) } else { 0 };
    }
    b
}
pub fn header(g: &mut G) -> HeaderS {
    let s = |g: &mut G| if g.p(3) { text(g) } else { Bytes::from(g.pick(WORDS)) };
    HeaderS {
        bbox: g.p(50).then(|| (g.r(-180_000_000_000, 180_000_000_000), g.r(-180_000_000_000, 180_000_000_000), g.r(-90_000_000_000, 90_000_000_000), g.r(-90_000_000_000, 90_000_000_000))),
        req: (0..g.small(3)).map(|_| Bytes::from(["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"][g.n(3) as usize])).collect(),
        opt: (0..g.small(3)).map(|_| s(g)).collect(),
        program: g.p(50).then(|| s(g)), source: g.p(40).then(|| s(g)), ts: g.p(30).then(|| changeset(g)), seq: g.p(30).then(|| changeset(g)), url: g.p(30).then(|| s(g)), unknown: g.p(10),
    }
}
pub fn blob(g: &mut G, c: &Cfg, first: bool) -> BlobS {
    let body = if first && g.p(75) { Body::Header(header(g)) } else {
        match g.n(20) {
            0 => Body::Header(header(g)),
            1 | 2 | 3 if c.other => Body::Other(Bytes::from(g.pick(&["", "OSMdata", "OSMHeader2", "Custom", "OSMData ", "_priv", "Ünknown"])), Bytes((0..g.small(40)).map(|_| g.n(256) as u8).collect())),
            _ => Body::Data(data(g, c)),
        }
    };
    BlobS {
        body, enc: if !c.zlib_only && g.p(35) { -1 } else { g.pick(&[0, 1, 6, 6, 9]) }, raw_size: g.pick(&[0, 0, 0, -1]), size_last: g.p(15),
        indexdata: if g.p(10) { g.pick(&[1, 7, 100, 3000]) } else { 0 }, hdr_order: if g.p(20) { g.n(6) as u8 } else { 0 },
        hdr_unknown: if g.p(10) { 1 + g.n(4) as u32 } else { 0 }, blob_unknown: if g.p(10) { 1 + g.n(5) as u32 } else { 0 }, pad: if g.p(8) { g.n(16) as u8 } else { 0 }, ..BlobS::default()
    }
}
pub fn doc(g: &mut G, c: &Cfg) -> Doc {
    if c.scale && g.n(1000) < 10 { return many(g, c); }
    let n = if g.p(4) { 0 } else { 1 + g.n(c.max_blobs) };
    let mut d = Doc { blobs: (0..n).map(|k| blob(g, c, k == 0)).collect() };
    if c.scale {
        match g.n(1000) { 0..=2 => tall(g, c, &mut d), 3..=6 => wide(g, &mut d), 7..=9 => long(g, c, &mut d), _ => {} }
    }
    d
}
/// A number just around one at which something might change.
pub fn edge(g: &mut G, of: &[i64]) -> u64 { let k = g.pick(of); (k + g.r(-1, 2)).max(1) as u64 }
/// Many small blobs.
fn many(g: &mut G, c: &Cfg) -> Doc {
    let n = edge(g, &[16, 32, 32, 64, 64, 100, 128, 128, 200, 256, 256, 300, 500, 512]);
    let c = Cfg { max_elems: g.pick(&[1, 2, 3]), big: false, scale: false, ..c.clone() };
    Doc { blobs: (0..n).map(|k| { let mut b = blob(g, &c, k == 0); if b.enc > 1 { b.enc = 1; } b }).collect() }
}
fn some_block<'a>(g: &mut G, d: &'a mut Doc) -> Option<&'a mut BlockS> {
    let ks: Vec<usize> = (0..d.blobs.len()).filter(|k| matches!(d.blobs[*k].body, Body::Data(_))).collect();
    if ks.is_empty() { return None; }
    match &mut d.blobs[g.pick(&ks)].body { Body::Data(b) => Some(b), _ => None }
}
/// One group with many elements, or one block with many groups.
fn tall(g: &mut G, c: &Cfg, d: &mut Doc) {
    let Some(b) = some_block(g, d) else { return };
    let c = Cfg { max_elems: 1, scale: false, ..c.clone() };
    let n = edge(g, &[32, 64, 100, 127, 128, 256, 256, 500, 512, 1000, 1024, 1024, 2048, 4096, 8000, 8192]);
    let ns = b.strings.len() as u64;
    let (gr, la, lo) = (b.gran.unwrap_or(100) as i64, b.lat_off.unwrap_or(0), b.lon_off.unwrap_or(0));
    let mut x = GroupS::default();
    let run = g.p(50);
    let mut next = g.r(-50, 50);
    let mut eid = |g: &mut G| if run { next += g.pick(&[1, 1, 1, 2]); next } else { id(g, &c) };
    match g.n(5) {
        0 => for _ in 0..n { let i = eid(g); x.nodes.push(NodeS { id: i, lat: coord(g, gr, la), lon: coord(g, gr, lo), tags: vec![], info: None }); },
        1 | 2 => {
            let info = g.p(30);
            x.dense = Some(DenseS { info, vis: g.p(30), kv: g.p(50), nodes: vec![], no: if g.p(20) { g.n(32) as u8 } else { 0 } });
            let dn = x.dense.as_mut().unwrap();
            for k in 0..n { let i = eid(g); dn.nodes.push(DNodeS { id: i, lat: coord(g, gr, la), lon: coord(g, gr, lo), tags: if dn.kv && ns > 1 && k % 7 == 3 { vec![(1, 0)] } else { vec![] }, version: 1, ts: k as i64, visible: k % 3 > 0, ..DNodeS::default() }); }
        }
        3 => for _ in 0..n { let i = eid(g); x.ways.push(WayS { id: i, refs: vec![id(g, &c)], ..WayS::default() }); },
        4 if n < 600 && g.p(50) => { for k in 0..n { let i = eid(g); b.groups.push(GroupS { ways: if k % 2 == 0 { vec![WayS { id: i, ..WayS::default() }] } else { vec![] }, rels: if k % 2 == 1 { vec![RelS { id: i, ..RelS::default() }] } else { vec![] }, ..GroupS::default() }); } return; }
        _ => for _ in 0..n { let i = eid(g); x.rels.push(RelS { id: i, members: vec![(0, id(g, &c), g.r(0, 2) as i32)], ..RelS::default() }); },
    }
    let at = g.n(b.groups.len() as u64 + 1) as usize;
    b.groups.insert(at, x);
}
/// A long string table, used up to its end.
fn wide(g: &mut G, d: &mut Doc) {
    let Some(b) = some_block(g, d) else { return };
    b.more = edge(g, &[100, 115, 127, 128, 250, 256, 1000, 1024, 4096, 16384, 32768, 65536]) as u32;
    let n = b.len() as u64;
    let pick = |g: &mut G| { let e = n - 1 - g.small(3).min(n - 1); let r = g.n(n); g.pick(&[e, r]) };
    for x in &mut b.groups {
        for t in x.nodes.iter_mut().flat_map(|n| &mut n.tags).chain(x.ways.iter_mut().flat_map(|n| &mut n.tags)).chain(x.rels.iter_mut().flat_map(|n| &mut n.tags)) { if g.p(70) { *t = (pick(g) as u32, pick(g) as u32); } }
        for i in x.nodes.iter_mut().filter_map(|n| n.info.as_mut()) { if i.user.is_some() { i.user = Some(pick(g) as u32); } }
        for m in x.rels.iter_mut().flat_map(|n| &mut n.members) { if g.p(70) { m.0 = pick(g) as i32; } }
        if let Some(dn) = &mut x.dense { for nd in &mut dn.nodes { nd.user = pick(g) as i32; for t in &mut nd.tags { *t = (pick(g).max(1) as i32, pick(g) as i32); } } }
    }
}
/// An element with a long list of something.
fn long(g: &mut G, c: &Cfg, d: &mut Doc) {
    let Some(b) = some_block(g, d) else { return };
    let n = edge(g, &[15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1024, 2000, 2001, 4096]);
    let ns = b.len() as u64;
    let (gr, la, lo) = (b.gran.unwrap_or(100) as i64, b.lat_off.unwrap_or(0), b.lon_off.unwrap_or(0));
    let tags = |g: &mut G| (0..n).map(|_| (g.n(ns) as u32, g.n(ns) as u32)).collect::<Vec<_>>();
    let mut x = GroupS::default();
    let i = id(g, c);
    match g.n(7) {
        0 => { let t = tags(g); x.nodes.push(NodeS { id: i, tags: t, lat: coord(g, gr, la), lon: coord(g, gr, lo), ..NodeS::default() }); }
        1 => { let t = tags(g); x.ways.push(WayS { id: i, tags: t, ..WayS::default() }); }
        2 => { let t = tags(g); x.rels.push(RelS { id: i, tags: t, ..RelS::default() }); }
        3 => x.ways.push(WayS { id: i, refs: (0..n).map(|_| id(g, c)).collect(), ..WayS::default() }),
        4 => x.ways.push(WayS { id: i, refs: vec![1, 2], locs: (0..n).map(|_| (coord(g, gr, la), coord(g, gr, lo))).collect(), ..WayS::default() }),
        5 if ns > 1 => {
            let t = (0..n).map(|_| (1 + g.n(ns - 1) as i32, g.n(ns) as i32)).collect();
            let node = |i: i64, t: Vec<(i32, i32)>, g: &mut G| DNodeS { id: i, lat: coord(g, gr, la), lon: coord(g, gr, lo), tags: t, visible: true, ..DNodeS::default() };
            let a = node(i, t, g);
            let z = node(i.wrapping_add(1), vec![(1, 0)], g);
            x.dense = Some(DenseS { kv: true, nodes: vec![a, z], ..DenseS::default() });
        }
        _ => x.rels.push(RelS { id: i, members: members_n(g, c, ns, n), ..RelS::default() }),
    }
    b.groups.push(x);
}
/// A file for index queries: many data blobs with overlapping id ranges.
pub fn index_doc(g: &mut G) -> Doc {
    let c = Cfg { max_blobs: g.pick(&[2, 4, 6, 10]), max_elems: g.pick(&[2, 5, 8]), mixed: g.p(60), plain_and_dense: false, other: g.p(25), big: g.p(5), extreme_ids: g.p(15), id_span: g.pick(&[4, 10, 25, 60]), zlib_only: false, scale: true };
    doc(g, &c)
}
