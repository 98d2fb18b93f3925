//! Reads everything the public accessors of the library offer into model records.
use crate::doc::{Content, Elem, GroupRec, HeaderRec, InfoRec};
use osmpbf::*;

/// Long texts are shortened (C04 and C07, where a damaged block may refer to one of them a million times).
pub static mut COMPACT: bool = false;
fn text(s: &str) -> String {
    if s.len() <= 64 || !unsafe { COMPACT } { return s.to_string(); }
    let b = s.as_bytes();
    let step = b.len() / 64;
    let h = b.iter().step_by(step).fold(b.len() as u64, |h, x| simrt::mix(h ^ *x as u64));
    format!("{}.. {h:x}", s.chars().take(16).collect::<String>())
}
fn close(deg: f64, nano: i64) -> bool {
    let w = nano as f64 * 1e-9;
    (deg - w).abs() <= 1e-12 * w.abs().max(1e-3)
}
fn info(i: Info) -> InfoRec {
    InfoRec { version: i.version(), ts: i.milli_timestamp(), cs: i.changeset(), uid: i.uid(), user: i.user().map(|u| u.map(text).map_err(|_| ())), visible: i.visible(), deleted: i.deleted() }
}
fn tags<'a>(t: impl Iterator<Item = (&'a str, &'a str)>) -> Vec<(String, String)> { t.map(|(k, v)| (text(k), text(v))).collect() }

pub fn node(n: &Node) -> Elem {
    let nano = (n.nano_lat(), n.nano_lon());
    Elem {
        kind: b'N', id: n.id(), tags: tags(n.tags()), raw_tags: n.raw_tags().map(|(k, v)| (k as i64, v as i64)).collect(), nano,
        deci: (n.decimicro_lat(), n.decimicro_lon()), deg_ok: close(n.lat(), nano.0) && close(n.lon(), nano.1), info: Some(info(n.info())), ..Elem::default()
    }
}
pub fn dense(n: &DenseNode) -> Elem {
    let nano = (n.nano_lat(), n.nano_lon());
    Elem {
        kind: b'D', id: n.id(), tags: tags(n.tags()), raw_tags: n.raw_tags().map(|(k, v)| (k as i64, v as i64)).collect(), nano,
        deci: (n.decimicro_lat(), n.decimicro_lon()), deg_ok: close(n.lat(), nano.0) && close(n.lon(), nano.1) && n.id == n.id(),
        info: n.info().map(|i| InfoRec { version: Some(i.version()), ts: Some(i.milli_timestamp()), cs: Some(i.changeset()), uid: Some(i.uid()), user: Some(i.user().map(text).map_err(|_| ())), visible: i.visible(), deleted: i.deleted() }),
        ..Elem::default()
    }
}
pub fn way(w: &Way) -> Elem {
    let mut ok = true;
    let locs = w.node_locations().map(|l| {
        let n = (l.nano_lat(), l.nano_lon());
        ok &= close(l.lat(), n.0) && close(l.lon(), n.1) && l.decimicro_lat() == (n.0 / 100) as i32 && l.decimicro_lon() == (n.1 / 100) as i32;
        n
    }).collect();
    Elem {
        kind: b'W', id: w.id(), tags: tags(w.tags()), raw_tags: w.raw_tags().map(|(k, v)| (k as i64, v as i64)).collect(), deg_ok: ok, info: Some(info(w.info())),
        refs: w.refs().collect(), raw_refs: w.raw_refs().to_vec(), locs, ..Elem::default()
    }
}
pub fn relation(r: &Relation) -> Elem {
    Elem {
        kind: b'R', id: r.id(), tags: tags(r.tags()), raw_tags: r.raw_tags().map(|(k, v)| (k as i64, v as i64)).collect(), deg_ok: true, info: Some(info(r.info())),
        members: r.members().map(|m| (match m.member_type { RelMemberType::Node => 0, RelMemberType::Way => 1, RelMemberType::Relation => 2 }, m.member_id, m.role_sid, m.role().map(text).map_err(|_| ()))).collect(),
        ..Elem::default()
    }
}
pub fn elem(e: &Element) -> Elem {
    match e { Element::Node(n) => node(n), Element::DenseNode(n) => dense(n), Element::Way(w) => way(w), Element::Relation(r) => relation(r) }
}
pub fn header(h: &HeaderBlock) -> HeaderRec {
    let n = |x: f64| (x * 1e9).round() as i64;
    let b = h.bbox().map(|b| (n(b.left), n(b.right), n(b.top), n(b.bottom)));
    HeaderRec {
        bbox: b, bbox_ok: true, req: h.required_features().to_vec(), opt: h.optional_features().to_vec(),
        program: h.writing_program().map(String::from), source: h.source().map(String::from),
        ts: h.osmosis_replication_timestamp(), seq: h.osmosis_replication_sequence_number(), url: h.osmosis_replication_base_url().map(String::from),
    }
}
pub fn groups(b: &PrimitiveBlock) -> Vec<GroupRec> {
    b.groups().map(|g| GroupRec {
        nodes: g.nodes().map(|n| node(&n)).collect(),
        dense: g.dense_nodes().map(|n| dense(&n)).collect(),
        ways: g.ways().map(|n| way(&n)).collect(),
        rels: g.relations().map(|n| relation(&n)).collect(),
    }).collect()
}
/// Groups, string table, and the two whole-block iterations.
pub fn content(d: &BlobDecode) -> Content {
    match d {
        BlobDecode::OsmHeader(h) => Content::Header(header(h)),
        BlobDecode::OsmData(b) => Content::Data { strings: b.raw_stringtable().to_vec(), groups: groups(b) },
        BlobDecode::Unknown(s) => Content::Other(s.to_string()),
    }
}
pub fn block_elements(b: &PrimitiveBlock) -> Vec<Elem> { b.elements().map(|e| elem(&e)).collect() }
pub fn block_for_each(b: &PrimitiveBlock) -> Vec<Elem> {
    let mut v = vec![];
    b.for_each_element(|e| v.push(elem(&e)));
    v
}
/// An iterator advanced in any other way than step by step yields what the steps yield; a clone taken in the
/// middle goes on from there, and neither of the two disturbs the other.
fn turns<I: Iterator + Clone, T: PartialEq>(what: &str, it: I, at: u64, rec: impl Fn(I::Item) -> T) -> std::result::Result<(), String> {
    let mut all = vec![];
    let mut a = it.clone();
    while let Some(x) = a.next() { all.push(rec(x)); }
    let n = all.len();
    let k = (simrt::mix(at ^ n as u64) % (n as u64 + 1)) as usize;
    let bad = |how: &str| Err(format!("{what}, {n} items, {how} at item {k}: differs from stepping through"));
    let mut a = it.clone();
    for _ in 0..k { a.next(); }
    let mut b = a.clone();
    let third = a.clone();
    for w in &all[k..] {
        if a.next().map(&rec).as_ref() != Some(w) { return bad("the original of a clone taken"); }
        if b.next().map(&rec).as_ref() != Some(w) { return bad("a clone taken"); }
    }
    if a.next().is_some() || b.next().is_some() { return bad("more items behind the end for a clone taken"); }
    if third.map(&rec).collect::<Vec<_>>() != all[k..] { return bad("collecting a clone taken"); }
    let mut a = it.clone();
    if a.nth(k).map(&rec).as_ref() != all.get(k) { return bad("nth()"); }
    if k < n && a.map(&rec).collect::<Vec<_>>() != all[k + 1..] { return bad("the items behind nth()"); }
    if it.clone().count() != n { return bad("count()"); }
    if it.clone().last().map(&rec).as_ref() != all.last() { return bad("last()"); }
    let mut v = vec![];
    it.clone().skip(k).for_each(|x| v.push(rec(x)));
    if v != all[k..] { return bad("skip() and for_each()"); }
    Ok(())
}
fn tag_pair((k, v): (&str, &str)) -> (String, String) { (text(k), text(v)) }
/// All the iterators of a block.
fn all_turns(b: &PrimitiveBlock, at: u64) -> std::result::Result<(), String> {
    turns("elements()", b.elements(), at, |e| elem(&e))?;
    turns("groups()", b.groups(), at, |g| (g.nodes().count(), g.dense_nodes().count(), g.ways().count(), g.relations().count()))?;
    for (i, g) in b.groups().enumerate() {
        let at = simrt::mix(at ^ i as u64);
        // The iterators of single elements: of one in the middle and of the first ones.
        let some = |n: usize| { let k = (at % (n as u64 + 1)) as usize; move |j: &usize| *j < 5 || *j == k };
        turns("nodes()", g.nodes(), at, |n| node(&n))?;
        turns("dense_nodes()", g.dense_nodes(), at, |n| dense(&n))?;
        turns("ways()", g.ways(), at, |n| way(&n))?;
        turns("relations()", g.relations(), at, |n| relation(&n))?;
        let pick = some(g.nodes().count());
        for (_, n) in g.nodes().enumerate().filter(|x| pick(&x.0)) {
            turns("tags() of a node", n.tags(), at, tag_pair)?;
            turns("raw_tags() of a node", n.raw_tags(), at, |x| x)?;
        }
        let pick = some(g.dense_nodes().count());
        for (_, n) in g.dense_nodes().enumerate().filter(|x| pick(&x.0)) {
            turns("tags() of a dense node", n.tags(), at, tag_pair)?;
            turns("raw_tags() of a dense node", n.raw_tags(), at, |x| x)?;
        }
        let pick = some(g.ways().count());
        for (_, w) in g.ways().enumerate().filter(|x| pick(&x.0)) {
            turns("tags() of a way", w.tags(), at, tag_pair)?;
            turns("raw_tags() of a way", w.raw_tags(), at, |x| x)?;
            turns("refs()", w.refs(), at, |x| x)?;
            turns("node_locations()", w.node_locations(), at, |l| (l.nano_lat(), l.nano_lon()))?;
        }
        let pick = some(g.relations().count());
        for (_, r) in g.relations().enumerate().filter(|x| pick(&x.0)) {
            turns("tags() of a relation", r.tags(), at, tag_pair)?;
            turns("raw_tags() of a relation", r.raw_tags(), at, |x| x)?;
            turns("members()", r.members(), at, |m| (m.role().map(text).ok(), m.member_id, m.role_sid, m.member_type as u8))?;
        }
    }
    Ok(())
}
/// Compares a decoded blob with the stored one through every interface; Err describes the difference.
pub fn check(want: &Content, d: &BlobDecode, all: bool) -> std::result::Result<(), String> {
    let got = content(d);
    if got != *want { return Err(explain(want, &got)); }
    if let (true, BlobDecode::OsmData(b)) = (all, d) {
        want.match_elems(&block_elements(b)).map_err(|e| format!("elements(): {e}"))?;
        want.match_elems(&block_for_each(b)).map_err(|e| format!("for_each_element(): {e}"))?;
        let at = b.elements().fold(b.raw_stringtable().len() as u64, |h, e| simrt::mix(h ^ match e { Element::Node(n) => n.id(), Element::DenseNode(n) => n.id, Element::Way(n) => n.id(), Element::Relation(n) => n.id() } as u64));
        all_turns(b, at)?;
        if let Some(e) = b.elements().next() {
            let st = match e {
                Element::Node(n) => n.raw_stringtable() == b.raw_stringtable(),
                Element::Way(n) => n.raw_stringtable() == b.raw_stringtable(),
                Element::Relation(n) => n.raw_stringtable() == b.raw_stringtable(),
                _ => true,
            };
            if !st { return Err("raw_stringtable() of an element differs from its block's".into()); }
        }
    }
    Ok(())
}
pub fn explain(want: &Content, got: &Content) -> String {
    match (want, got) {
        (Content::Data { strings: a, groups: g }, Content::Data { strings: b, groups: h }) => {
            if a != b { return format!("string table differs ({} vs {} entries)", a.len(), b.len()); }
            if g.len() != h.len() { return format!("{} groups expected, {} delivered", g.len(), h.len()); }
            for (k, (x, y)) in g.iter().zip(h).enumerate() {
                for (what, p, q) in [("nodes", &x.nodes, &y.nodes), ("dense nodes", &x.dense, &y.dense), ("ways", &x.ways, &y.ways), ("relations", &x.rels, &y.rels)] {
                    if p.len() != q.len() { return format!("group {k}: {} {what} expected, {} delivered", p.len(), q.len()); }
                    for (e, f) in p.iter().zip(q) { if e != f { return format!("group {k} {what}: {}", crate::doc::diff(e, f)); } }
                }
            }
            "blocks differ".into()
        }
        _ => format!("expected {:.200}, got {:.200}", format!("{want:?}"), format!("{got:?}")),
    }
}
