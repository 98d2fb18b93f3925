//! Indexed queries: C10 exactness over histories, C11 faults, panics and recovery.
use super::*;
use crate::bail;
use crate::interpose;
use osmpbf::{Element, IndexedReader};
use std::cell::RefCell;

pub struct C10;
pub struct C11;
enum Ix { Raw(IndexedReader<SimStream>), Buf(IndexedReader<BufReader<SimStream>>), File(IndexedReader<File>) }
macro_rules! ix { ($a:expr, $r:ident => $e:expr) => { match $a { Ix::Raw($r) => $e, Ix::Buf($r) => $e, Ix::File($r) => $e } } }

/// A way filter as a client would write it; some depend on how often they were asked.
fn accepts(kind: u8, a: i64, b: i64, n: usize, id: i64, refs: &[i64], tags: usize) -> bool {
    match kind % 9 {
        0 => true,
        1 => false,
        2 => id >= a.min(b) && id <= a.max(b),
        3 => id.rem_euclid(a.checked_abs().unwrap_or(1).max(1)) == b.rem_euclid(a.checked_abs().unwrap_or(1).max(1)),
        4 => refs.iter().any(|r| *r >= a.min(b) && *r <= a.max(b)),
        5 => (n as i64) < a.rem_euclid(5),
        6 => (n + (b & 1) as usize) % 2 == 0,
        7 => tags > 0,
        _ => refs.len() == 1,
    }
}
#[derive(Default)]
struct Seen { asked: Vec<(Elem, bool)>, ways: Vec<Elem>, nodes: Vec<Elem>, other: Option<String> }
#[derive(Clone, Copy, PartialEq)]
enum Q { Index, Nodes, Ways(u8, i64, i64) }
fn query(r: &mut Ix, q: Q, panic_at: u32, seen: &RefCell<Seen>) -> Result<osmpbf::Result<()>, ()> {
    let calls = std::cell::Cell::new(0u32);
    let tick = || {
        simrt::point(simrt::K_CALLBACK);
        calls.set(calls.get() + 1);
        if calls.get() == panic_at { std::panic::panic_any(SimPanic(calls.get() as u64)); }
    };
    let see = |e: &Element| {
        let x = canon::elem(e);
        let mut s = seen.borrow_mut();
        match e {
            Element::Node(_) | Element::DenseNode(_) => s.nodes.push(x),
            Element::Way(_) => s.ways.push(x),
            Element::Relation(_) => s.other = Some(short(&x)),
        }
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match q {
        Q::Index => ix!(r, r => r.create_index()),
        Q::Nodes => ix!(r, r => r.for_each_node(|e| { see(&e); tick(); })),
        Q::Ways(k, a, b) => ix!(r, r => r.read_ways_and_deps(
            |w| {
                let refs: Vec<i64> = w.refs().collect();
                let n = seen.borrow().asked.len();
                let x = accepts(k, a, b, n, w.id(), &refs, w.tags().count());
                tick();
                seen.borrow_mut().asked.push((canon::way(w), x));
                x
            },
            |e| { see(e); tick(); },
        )),
    }));
    match r {
        Ok(r) => Ok(r),
        Err(p) if p.is::<SimPanic>() => { crate::driver::last_panic(); Err(()) }
        Err(p) => std::panic::resume_unwind(p),
    }
}
/// The stored ways and nodes, in order, with the blob each is in.
struct Model { ways: Vec<(usize, Elem)>, nodes: Vec<(usize, Elem)> }
impl Model {
    fn new(want: &[Content]) -> Model {
        let mut m = Model { ways: vec![], nodes: vec![] };
        for (k, w) in want.iter().enumerate() {
            for e in w.elems() { match e.kind { b'W' => m.ways.push((k, e.clone())), b'N' | b'D' => m.nodes.push((k, e.clone())), _ => {} } }
        }
        m
    }
}
fn prefix(want: &[&Elem], got: &[Elem], what: &str, complete: bool) -> Result<(), String> {
    for (k, g) in got.iter().enumerate() {
        match want.get(k) {
            None => return Err(format!("{} {what} delivered, the complete answer has {}; the first surplus one is {}", got.len(), want.len(), short(g))),
            Some(w) if *w != g => return Err(format!("{what} {k} of the answer: {}", diff(w, g))),
            _ => {}
        }
    }
    if complete && got.len() < want.len() { return Err(format!("{} of {} {what} delivered, the first missing one is {}", got.len(), want.len(), short(want[got.len()]))); }
    Ok(())
}
/// Is what a query showed the complete answer (or, when broken off, the beginning of it)?
fn judge(m: &Model, q: Q, s: &Seen, complete: bool) -> Result<(), String> {
    if let Some(o) = &s.other { return Err(format!("a relation was delivered: {o}")); }
    match q {
        Q::Index => Ok(()),
        Q::Nodes => {
            let w: Vec<&Elem> = m.nodes.iter().map(|x| &x.1).collect();
            prefix(&w, &s.nodes, "nodes", complete)
        }
        Q::Ways(..) => {
            // Every stored way is asked about once.
            let in_order = s.asked.iter().zip(&m.ways).all(|(a, b)| a.0 == b.1) && s.asked.len() <= m.ways.len();
            if !in_order || (complete && s.asked.len() != m.ways.len()) {
                let mut left: Vec<&Elem> = m.ways.iter().map(|x| &x.1).collect();
                for (a, _) in &s.asked {
                    match left.iter().position(|x| *x == a) {
                        Some(p) => { left.remove(p); }
                        None => return Err(if m.ways.iter().any(|x| x.1 == *a) { format!("the filter was asked about {} more often than it is stored", short(a)) } else { format!("the filter was asked about {}, which is not stored like that", short(a)) }),
                    }
                }
                if complete && !left.is_empty() { return Err(format!("the filter was never asked about {} of {} stored ways, e.g. {}", left.len(), m.ways.len(), short(left[0]))); }
            }
            let acc: Vec<&Elem> = s.asked.iter().filter(|a| a.1).map(|a| &a.0).collect();
            if in_order { prefix(&acc, &s.ways, "accepted ways", complete)?; } else {
                let mut left = acc.clone();
                for w in &s.ways { match left.iter().position(|x| *x == w) { Some(p) => { left.remove(p); } None => return Err(format!("{} was delivered without having been accepted (or twice)", short(w))) } }
                if complete && !left.is_empty() { return Err(format!("accepted {} was not delivered", short(left[0]))); }
                let mut it = m.ways.iter();
                for w in &s.ways { if !it.any(|x| x.1 == *w) { return Err(format!("{} was delivered out of stored order", short(w))); } }
            }
            let ids: std::collections::BTreeSet<i64> = acc.iter().flat_map(|w| w.refs.iter().copied()).collect();
            let nodes: Vec<&Elem> = m.nodes.iter().map(|x| &x.1).filter(|n| ids.contains(&n.id)).collect();
            if !complete && !s.nodes.is_empty() && s.asked.len() < m.ways.len() { return Err(format!("nodes were delivered although only {} of {} ways had been asked about", s.asked.len(), m.ways.len())); }
            prefix(&nodes, &s.nodes, "referenced nodes", complete)
        }
    }
}
fn gen_query(g: &mut G, span: i64) -> Op {
    match g.n(10) {
        0 => Op::Index,
        1..=3 => Op::Nodes,
        _ => { let k = g.pick(&[0, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8]); Op::Ways(k, g.r(-span, span), g.r(-span, span)) }
    }
}
/// num[0] blobs of an unknown type, of 2 GiB each, before blob num[1]: the offsets behind them need more than 32 bits.
fn gen_giants(g: &mut G, n: usize) -> Vec<i64> { if g.p(6) { vec![g.pick(&[1, 2, 2, 3]), g.n(n as u64 + 1) as i64] } else { vec![] } }
fn giants(s: &Scn) -> (Vec<u8>, Vec<Hole>) {
    let e = s.doc.encode();
    let n = s.num.first().copied().unwrap_or(0).clamp(0, 4) as u64;
    if n == 0 { return (e.bytes, vec![]); }
    let k = (s.num.get(1).copied().unwrap_or(0).unsigned_abs() as usize).min(e.lay.len());
    let at = e.lay.get(k).map_or(e.bytes.len(), |l| l.start);
    let size = i32::MAX as u64;
    let h = BlobS { body: Body::Other(Bytes::from("giant"), Bytes(vec![])), ..BlobS::default() }.header_msg(size as usize);
    let (mut bytes, mut holes) = (e.bytes[..at].to_vec(), vec![]);
    for j in 0..n {
        bytes.extend_from_slice(&(h.len() as u32).to_be_bytes());
        bytes.extend_from_slice(&h);
        holes.push(Hole { at: bytes.len() as u64 + j * size, len: size });
    }
    bytes.extend_from_slice(&e.bytes[at..]);
    (bytes, holes)
}
fn open(s: &Scn, c: &Ctx) -> Result<(Ix, Option<SimStream>), Viol> {
    let (bytes, holes) = giants(s);
    let e = |e: osmpbf::Error| Viol { class: "error".into(), detail: format!("the constructor failed on a working source: {e}") };
    let lim = 200_000 + 400 * bytes.len() as u64;
    Ok(match &s.wrap {
        Wrap::Path => {
            write_holes(&c.path, &bytes, &holes);
            let mut plan = s.plan.clone();
            for f in &mut plan.faults { if let At::Byte(b) = &mut f.at { for h in &holes { if *b >= h.at { *b += h.len; } } } }
            interpose::start_files(&c.path, &plan, &[]);
            if let Some(f) = interpose::files() { f.st.off = true; f.st.limit = lim; }
            let r = IndexedReader::from_path(&c.path).map_err(e)?;
            if let Some(f) = interpose::files() { f.st.off = false; }
            (Ix::File(r), None)
        }
        w => {
            let st = SimStream::with_holes(arc(bytes), &s.plan, holes);
            st.with(|x| { x.limit = lim; x.off = true; });
            let h = st.clone();
            let r = match w { Wrap::Buf(n) => Ix::Buf(IndexedReader::new(BufReader::with_capacity((*n as usize).max(1), st)).map_err(e)?), _ => Ix::Raw(IndexedReader::new(st).map_err(e)?) };
            h.with(|x| x.off = false);
            (r, Some(h))
        }
    })
}
fn q_of(o: &Op) -> Option<Q> { match o { Op::Index => Some(Q::Index), Op::Nodes => Some(Q::Nodes), Op::Ways(k, a, b) => Some(Q::Ways(*k, *a, *b)), _ => None } }
fn name(q: Q) -> String { match q { Q::Index => "create_index".into(), Q::Nodes => "for_each_node".into(), Q::Ways(k, a, b) => format!("read_ways_and_deps(filter {k},{a},{b})") } }
fn gen_base(g: &mut G, big: bool) -> (Doc, i64) {
    let mut doc = gen::index_doc(g);
    if big { let d = gen::index_doc(g); doc.blobs.extend(d.blobs); }
    let mut span = 4;
    for c in doc.contents() { for e in c.elems() { if e.id.unsigned_abs() < 1 << 20 { span = span.max(e.id.abs()); } } }
    (doc, span + 2)
}
impl Prop for C10 {
    fn id(&self) -> &'static str { "C10" }
    fn runs(&self, t: bool) -> u64 { if t { 6_000_000 } else { 200_000 } }
    fn rule(&self) -> String { "one run: a seeded file and a seeded history of index, node and way queries on one reader; non-trivial: at least two queries, stored ways or nodes, and at least one way accepted or node delivered; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let (doc, span) = { let big = thorough && g.p(20); gen_base(g, big) };
        let len = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        if len > 4000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        let n = g.pick(&[1, 2, 3, 4, 6]) + if thorough { g.small(10) } else { 0 };
        let ops = (0..n).map(|_| gen_query(g, span)).collect();
        let num = gen_giants(g, doc.blobs.len());
        if !num.is_empty() { plan.faults.retain(|f| !matches!(f.what, What::Pause(_))); }
        Scn { doc, plan, ops, num, wrap: gen_wrap(g, true), ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        if !s.doc.well_formed() || s.plan.faults.iter().any(|f| !matches!(f.what, What::Eintr(_) | What::Delay(_))) || mixed(&s.doc) { c.skipped = true; return Ok(()); }
        let m = Model::new(&s.doc.contents());
        let (mut r, h) = match open(s, c) { Ok(x) => x, Err(v) => return Err(v) };
        let mut n = 0;
        let mut hits = 0;
        for (k, o) in s.ops.iter().enumerate() {
            let Some(q) = q_of(o) else { continue };
            let seen = RefCell::new(Seen::default());
            match query(&mut r, q, 0, &seen) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => bail!("error", "query {k}, {}, failed on a well-formed file: {e}", name(q)),
                Err(()) => unreachable!(),
            }
            let seen = seen.into_inner();
            if let Err(e) = judge(&m, q, &seen, true) { bail!("answer", "query {k} of the reader, {}: {e}", name(q)); }
            n += 1;
            hits += seen.ways.len() + seen.nodes.len();
            c.add("filter calls", seen.asked.len() as u64);
            c.add("ways delivered", seen.ways.len() as u64);
            c.add("nodes delivered", seen.nodes.len() as u64);
            c.sig(seen.asked.len() as u64 | (seen.ways.len() as u64) << 16 | (seen.nodes.len() as u64) << 32);
        }
        drop(r);
        c.log(&h.map_or_else(interpose::file_log, |h| h.log()));
        c.add("queries", n);
        c.add("runs with offsets beyond 2^31", !s.num.is_empty() as u64);
        c.nontrivial = n >= 2 && hits > 0;
        Ok(())
    }
}
/// Plain and dense nodes in one group: their relative order is not defined.
fn mixed(d: &Doc) -> bool { d.blobs.iter().any(|b| matches!(&b.body, Body::Data(x) if x.groups.iter().any(|g| !g.nodes.is_empty() && g.dense.as_ref().is_some_and(|d| !d.nodes.is_empty())))) }

impl Prop for C11 {
    fn id(&self) -> &'static str { "C11" }
    fn runs(&self, t: bool) -> u64 { if t { 6_000_000 } else { 200_000 } }
    fn rule(&self) -> String { "one run: a seeded file and a seeded history of queries on one indexed reader, with failing reads and seeks, panicking callbacks or an undecodable blob, ended by a repaired source and two full queries; non-trivial: at least one query was broken off and at least one followed; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let (mut doc, span) = { let big = thorough && g.p(20); gen_base(g, big) };
        if doc.blobs.is_empty() { let c = Cfg::swarm(g); doc.blobs.push(gen::blob(g, &c, false)); }
        let what = g.n(10);
        if what == 0 {
            let k = g.n(doc.blobs.len() as u64) as usize;
            if matches!(doc.blobs[k].body, Body::Data(_)) { doc.blobs[k].enc = g.pick(&[-2, -3]); }
        }
        let e = doc.encode();
        let mut plan = gen_plan(g, e.bytes.len() as u64);
        if what != 1 && what != 0 || g.p(20) {
            for _ in 0..1 + g.small(3) {
                let kind = g.n(KINDS.len() as u64) as u8;
                let times = g.pick(&[1, 1, 1, 2, 0]);
                plan.faults.push(match g.n(6) {
                    0 | 1 => Fault { at: At::Seek(g.small(60) as u32), what: What::SeekErr(kind, times) },
                    2 | 3 => Fault { at: At::Read(g.small(300) as u32), what: What::Err(kind, times) },
                    _ => Fault { at: At::Byte(gen_pos(g, &e)), what: What::Err(kind, times) },
                });
            }
        }
        if what > 1 && g.p(12) { plan.faults.extend(gen_pause(g, &e)); }
        if e.bytes.len() > 4000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        let mut ops = vec![];
        for _ in 0..g.pick(&[1, 2, 3, 4]) + if thorough { g.small(8) } else { 0 } {
            if what == 1 || g.p(20) { ops.push(Op::Panic(1 + g.small(14) as u32)); }
            ops.push(gen_query(g, span));
            if g.p(8) { ops.push(Op::Heal); }
        }
        let num = gen_giants(g, doc.blobs.len());
        if !num.is_empty() { plan.faults.retain(|f| !matches!(f.what, What::Pause(_))); }
        Scn { doc, plan, ops, num, wrap: gen_wrap(g, true), ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let mut clean = s.doc.clone();
        let mut bad = None;
        for (k, b) in clean.blobs.iter_mut().enumerate() {
            if matches!(b.enc, -2 | -3) { if bad.is_some() || !matches!(b.body, Body::Data(_)) { c.skipped = true; return Ok(()); } bad = Some(k); b.enc = -1; }
        }
        if !clean.well_formed() || s.plan.faults.iter().any(|f| matches!(f.what, What::Eof) || (!s.num.is_empty() && matches!(f.what, What::Pause(_)))) || mixed(&clean) || !pauses_ok(&s.plan, &s.doc.encode().lay) { c.skipped = true; return Ok(()); }
        let full = Model::new(&clean.contents());
        // What can be delivered at most: nothing from the blob that cannot be decoded, nothing behind it.
        let lim = bad.unwrap_or(usize::MAX);
        let m = Model { ways: full.ways.iter().filter(|x| x.0 < lim).cloned().collect(), nodes: full.nodes.iter().filter(|x| x.0 < lim).cloned().collect() };
        let (mut r, h) = match open(s, c) { Ok(x) => x, Err(v) => return Err(v) };
        let hard = || h.as_ref().map_or_else(interpose::file_hard, |h| h.hard());
        let heal = || match &h { Some(h) => h.with(|x| x.off = true), None => if let Some(f) = interpose::files() { f.st.off = true; } };
        let mut panic_at = 0;
        let (mut broken, mut after, mut panics) = (0u64, 0u64, 0u64);
        let tail = [Op::Heal, Op::Ways(0, 0, 0), Op::Nodes, Op::Ways(2, -3, 5), Op::Ways(0, 0, 0)];
        for (k, o) in s.ops.iter().chain(&tail).enumerate() {
            let q = match o {
                Op::Heal => { heal(); continue; }
                Op::Panic(n) => { panic_at = *n; continue; }
                o => match q_of(o) { Some(q) => q, None => continue },
            };
            let p = std::mem::take(&mut panic_at);
            let before = hard();
            let seen = RefCell::new(Seen::default());
            let res = query(&mut r, q, p, &seen);
            let failed = hard() - before;
            let seen = seen.into_inner();
            after += (broken > 0) as u64;
            c.sig(seen.asked.len() as u64 | (seen.ways.len() as u64) << 16 | (seen.nodes.len() as u64) << 32 | failed << 48);
            let how = format!("call {k}, {}, after {broken} broken-off calls", name(q));
            match res {
                Err(()) => {
                    panics += 1;
                    broken += 1;
                    if let Err(e) = judge(&m, q, &seen, false) { bail!("answer", "{how}, ended by a panicking callback: {e}"); }
                }
                Ok(Ok(())) => {
                    if failed > 0 { bail!("hidden-failure", "{how}: the source failed {failed} times, the call reported success"); }
                    if bad.is_some() && q != Q::Index { bail!("hidden-failure", "{how}: blob {lim} cannot be decoded, the call reported success"); }
                    if let Err(e) = judge(&m, q, &seen, true) { bail!("answer", "{how}, reported success: {e}"); }
                }
                Ok(Err(e)) => {
                    if failed == 0 && (bad.is_none() || q == Q::Index) { bail!("no-recovery", "{how}: the source did not fail during this call, but it reported: {e}"); }
                    broken += 1;
                    // Behind an undecodable blob nothing is complete, so no node can be asked for.
                    if bad.is_some() && matches!(q, Q::Ways(..)) && !seen.nodes.is_empty() { bail!("answer", "{how}, failed: nodes were delivered although not every way can be known"); }
                    if let Err(x) = judge(&m, q, &seen, false) { bail!("answer", "{how}, reported '{e}': {x}"); }
                }
            }
        }
        drop(r);
        c.log(&h.as_ref().map_or_else(interpose::file_log, |h| h.log()));
        c.add("queries broken off", broken);
        c.add("runs with offsets beyond 2^31", !s.num.is_empty() as u64);
        c.add("queries after a broken-off one", after);
        c.add("fault callback panic", panics);
        c.add("fault undecodable blob", bad.is_some() as u64);
        c.nontrivial = broken > 0 && after > 0;
        Ok(())
    }
}

/// Of which blobs a query on a reader that knows the file may read anything.
fn needed(m: &Model, q: Q, seen: &Seen) -> Vec<(usize, u32)> {
    let mut v: std::collections::BTreeMap<usize, u32> = Default::default();
    match q {
        Q::Index => {}
        Q::Nodes => for (k, _) in &m.nodes { v.insert(*k, 1); },
        Q::Ways(..) => {
            for (k, _) in &m.ways { v.insert(*k, 1); }
            let ids: std::collections::BTreeSet<i64> = seen.asked.iter().filter(|a| a.1).flat_map(|a| a.0.refs.iter().copied()).collect();
            let mut span: std::collections::BTreeMap<usize, (i64, i64)> = Default::default();
            for (k, n) in &m.nodes { let e = span.entry(*k).or_insert((n.id, n.id)); *e = (e.0.min(n.id), e.1.max(n.id)); }
            for (k, (a, b)) in span { if ids.range(a..=b).next().is_some() { *v.entry(k).or_insert(0) += 1; } }
        }
    }
    v.into_iter().collect()
}
pub struct C21;
impl Prop for C21 {
    fn id(&self) -> &'static str { "C21" }
    fn runs(&self, t: bool) -> u64 { if t { 6_000_000 } else { 200_000 } }
    fn assumptions(&self) -> Vec<String> { vec!["what the reader reads is seen at an unbuffered source".into(), "after a query that failed nothing is demanded until one has succeeded again".into()] }
    fn rule(&self) -> String { "one run: a seeded file and a seeded history of queries on one indexed reader over an unbuffered source, sometimes with transient failures; the bytes each query takes are held against the blobs that can contribute to it; non-trivial: a query that followed a successful one, and a blob it had no need of; distinct by event hash".into() }
    fn gen(&self, g: &mut G, _: u64, thorough: bool) -> Scn {
        let (doc, span) = { let big = thorough && g.p(20); gen_base(g, big) };
        let len = doc.encode().bytes.len() as u64;
        let mut plan = gen_plan(g, len);
        plan.chunk = if g.p(50) { Chunk::All } else { Chunk::Fixed(g.pick(&[61, 400])) };
        if g.p(25) {
            let kind = g.n(KINDS.len() as u64) as u8;
            plan.faults.push(match g.n(2) { 0 => Fault { at: At::Seek(g.small(60) as u32), what: What::SeekErr(kind, 1) }, _ => Fault { at: At::Read(g.small(200) as u32), what: What::Err(kind, 1) } });
        }
        let ops = (0..g.pick(&[2, 3, 4, 6]) + if thorough { g.small(10) } else { 0 }).map(|_| gen_query(g, span)).collect();
        Scn { doc, plan, ops, ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        if !s.doc.well_formed() || s.plan.faults.iter().any(|f| matches!(f.what, What::Eof | What::Pause(_))) || mixed(&s.doc) || !matches!(s.wrap, Wrap::Raw) || !s.num.is_empty() { c.skipped = true; return Ok(()); }
        let m = Model::new(&s.doc.contents());
        let lay = s.doc.encode().lay;
        let (mut r, h) = open(s, c)?;
        let h = h.expect("an unbuffered source");
        h.with(|x| x.log.record = true);
        let (mut known, mut indexed) = (false, false);
        let (mut later, mut spared) = (0u64, 0u64);
        for (k, o) in s.ops.iter().enumerate() {
            let Some(q) = q_of(o) else { continue };
            h.with(|x| x.log.ops.clear());
            let seen = RefCell::new(Seen::default());
            let ok = matches!(query(&mut r, q, 0, &seen), Ok(Ok(())));
            let seen = seen.into_inner();
            let ops = h.with(|x| std::mem::take(&mut x.log.ops));
            if !ok { known = false; indexed = false; c.add("queries that failed", 1); continue; }
            // Bytes taken of each blob, and of its body.
            let mut took = vec![(0u64, 0u64); lay.len()];
            for (p, n) in ops {
                for (t, l) in took.iter_mut().zip(&lay) {
                    let part = |a: usize, b: usize| (p + n as u64).min(b as u64).saturating_sub(p.max(a as u64));
                    t.0 += part(l.start, l.end);
                    t.1 += part(l.body, l.end);
                }
            }
            let need = needed(&m, q, &seen);
            let how = format!("query {k} of the reader, {}", name(q));
            for (j, (all, body)) in took.iter().enumerate() {
                let n = need.binary_search_by_key(&j, |x| x.0).map_or(0, |p| need[p].1);
                let size = (lay[j].end - lay[j].body) as u64;
                if known && n == 0 {
                    if *all > 0 { bail!("needless", "{how}: {all} bytes of blob {j} were read, which earlier queries have shown not to matter"); }
                    spared += 1;
                }
                if indexed && q == Q::Index && *all > 0 { bail!("needless", "{how}: the index is there, and {all} bytes of blob {j} were read"); }
                let passes = if known { n as u64 } else if matches!(q, Q::Ways(..)) { 2 } else { 1 };
                if q != Q::Index && *body > passes * size { bail!("again", "{how}: {body} bytes of the body of blob {j} were read, which has {size} and can contribute to {passes} passes"); }
            }
            later += known as u64;
            if q != Q::Index { known = true; }
            indexed = true;
            c.sig(took.iter().fold(0u64, |a, t| a.wrapping_mul(31).wrapping_add(t.0)));
        }
        drop(r);
        c.log(&h.log());
        c.add("queries on a reader that knew the file", later);
        c.add("blobs spared", spared);
        c.nontrivial = spared > 0;
        Ok(())
    }
}
