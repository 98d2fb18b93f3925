//! A tiny encoder for OSM PBF files.
#![allow(dead_code)]
pub fn vi(o: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8); }
pub fn zz(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }
pub fn num(o: &mut Vec<u8>, field: u32, v: u64) { vi(o, (field as u64) << 3); vi(o, v); }
pub fn bytes(o: &mut Vec<u8>, field: u32, b: &[u8]) { vi(o, (field as u64) << 3 | 2); vi(o, b.len() as u64); o.extend_from_slice(b); }
pub fn packed(o: &mut Vec<u8>, field: u32, v: &[u64]) { if v.is_empty() { return; } let mut b = vec![]; for x in v { vi(&mut b, *x); } bytes(o, field, &b); }
fn deltas(v: &[i64]) -> Vec<u64> { let mut last = 0; v.iter().map(|x| { let d = x - last; last = *x; zz(d) }).collect() }

pub fn node(id: i64, lat: i64, lon: i64, tags: &[(u32, u32)]) -> Vec<u8> {
    let mut o = vec![];
    num(&mut o, 1, zz(id));
    packed(&mut o, 2, &tags.iter().map(|t| t.0 as u64).collect::<Vec<_>>());
    packed(&mut o, 3, &tags.iter().map(|t| t.1 as u64).collect::<Vec<_>>());
    num(&mut o, 8, zz(lat));
    num(&mut o, 9, zz(lon));
    o
}
pub fn way(id: i64, tags: &[(u32, u32)], refs: &[i64]) -> Vec<u8> {
    let mut o = vec![];
    num(&mut o, 1, id as u64);
    packed(&mut o, 2, &tags.iter().map(|t| t.0 as u64).collect::<Vec<_>>());
    packed(&mut o, 3, &tags.iter().map(|t| t.1 as u64).collect::<Vec<_>>());
    packed(&mut o, 8, &deltas(refs));
    o
}
pub fn dense(ids: &[i64], keys_vals: &[i32]) -> Vec<u8> {
    let mut o = vec![];
    packed(&mut o, 1, &deltas(ids));
    packed(&mut o, 8, &deltas(&vec![10; ids.len()]));
    packed(&mut o, 9, &deltas(&vec![20; ids.len()]));
    packed(&mut o, 10, &keys_vals.iter().map(|v| *v as i64 as u64).collect::<Vec<_>>());
    o
}
#[derive(Default)]
pub struct Group { pub nodes: Vec<Vec<u8>>, pub dense: Option<Vec<u8>>, pub ways: Vec<Vec<u8>>, pub rels: Vec<Vec<u8>> }
pub fn block(strings: &[&str], groups: &[Group]) -> Vec<u8> {
    let mut st = vec![];
    for s in strings { bytes(&mut st, 1, s.as_bytes()); }
    let mut o = vec![];
    bytes(&mut o, 1, &st);
    for g in groups {
        let mut b = vec![];
        for n in &g.nodes { bytes(&mut b, 1, n); }
        if let Some(d) = &g.dense { bytes(&mut b, 2, d); }
        for w in &g.ways { bytes(&mut b, 3, w); }
        for r in &g.rels { bytes(&mut b, 4, r); }
        bytes(&mut o, 2, &b);
    }
    o
}
/// A block of plain nodes with these ids.
pub fn nodes(ids: &[i64]) -> Vec<u8> { block(&["", "k", "v"], &[Group { nodes: ids.iter().map(|i| node(*i, 1, 2, &[(1, 2)])).collect(), ..Default::default() }]) }
pub fn ways(w: &[(i64, &[i64])]) -> Vec<u8> { block(&["", "k", "v"], &[Group { ways: w.iter().map(|(i, r)| way(*i, &[(1, 2)], r)).collect(), ..Default::default() }]) }
pub fn raw(plain: &[u8]) -> Vec<u8> { let mut o = vec![]; bytes(&mut o, 1, plain); o }
pub fn zlib(plain: &[u8]) -> Vec<u8> { let mut o = vec![]; num(&mut o, 2, plain.len() as u64); bytes(&mut o, 3, &deflate(plain)); o }
pub fn deflate(plain: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
    e.write_all(plain).unwrap();
    e.finish().unwrap()
}
/// A framed blob of this type around an encoded Blob message.
pub fn framed(ty: &str, blob: &[u8]) -> Vec<u8> {
    let mut h = vec![];
    bytes(&mut h, 1, ty.as_bytes());
    num(&mut h, 3, blob.len() as u64);
    let mut o = (h.len() as u32).to_be_bytes().to_vec();
    o.extend(h);
    o.extend_from_slice(blob);
    o
}
pub fn data(plain: &[u8]) -> Vec<u8> { framed("OSMData", &zlib(plain)) }
pub fn id(e: &osmpbf::Element) -> i64 {
    match e { osmpbf::Element::Node(n) => n.id(), osmpbf::Element::DenseNode(n) => n.id(), osmpbf::Element::Way(w) => w.id(), osmpbf::Element::Relation(r) => r.id() }
}
/// Ends the demo with a failure if it hangs.
pub fn watchdog(s: u64) { std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(s)); eprintln!("hangs"); std::process::exit(1); }); }
