//! C15: failing system calls, descriptors and mappings.
use super::*;
use crate::interpose::{self, SysFault, CALLS};
use crate::bail;
use osmpbf::{ErrorKind, IndexedReader, Mmap};

pub struct C15;
const ERRNOS: &[&[i32]] = &[
    &[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOMEM, libc::EINTR, libc::EISDIR, libc::ELOOP],
    &[libc::ESPIPE, libc::EIO, libc::EOVERFLOW, libc::EINVAL],
    &[libc::EIO, libc::ENOMEM, libc::EACCES, libc::EOVERFLOW],
    &[libc::ENOMEM, libc::ENODEV, libc::EACCES, libc::EAGAIN, libc::EINVAL],
    &[libc::EIO, libc::EAGAIN, libc::EINTR, libc::EISDIR, libc::ESTALE],
];
const CTORS: &[&str] = &["BlobReader::from_path", "BlobReader::seekable_from_path", "BlobReader::new_seekable", "ElementReader::from_path", "IndexedReader::from_path", "IndexedReader::new", "Mmap::from_path", "Mmap::from_file", "File + BlobReader::new_seekable", "File + IndexedReader::new"];
/// The error a constructor must have reported, if any.
fn os_error(e: osmpbf::Error, want: i32) -> Result<(), String> {
    match e.into_kind() {
        ErrorKind::Io(x) if x.raw_os_error() == Some(want) => Ok(()),
        ErrorKind::Io(x) => Err(format!("an I/O error without the system's error {want}: {x}")),
        k => Err(format!("not an I/O error: {k:?}")),
    }
}
impl Prop for C15 {
    fn id(&self) -> &'static str { "C15" }
    fn runs(&self, t: bool) -> u64 { if t { 5_000_000 } else { 200_000 } }
    fn rule(&self) -> String { "one run: one constructor over one real file with seeded failures of its system calls, then (if there is a reader) reads with further failures; non-trivial: at least one call was made to fail; distinct by event hash".into() }
    fn real(&self) -> Vec<&'static str> { vec!["osmpbf (all of /repo/src)", "std::fs and std::io, memmap2", "the file system: a real file, through the system calls that were not made to fail"] }
    fn stubs(&self) -> Vec<&'static str> { vec!["open, lseek, statx/fstat, mmap, read: answered by the seeded fault layer when a fault is due"] }
    fn gen(&self, g: &mut G, _: u64, _: bool) -> Scn {
        let doc = small_doc(g);
        let e = doc.encode();
        let mut plan = gen_plan(g, e.bytes.len() as u64);
        if e.bytes.len() > 4000 { if let Chunk::One = plan.chunk { plan.chunk = Chunk::Fixed(61); } }
        let mode = g.n(CTORS.len() as u64) as u32;
        let mut sys = vec![];
        for _ in 0..g.pick(&[0, 1, 1, 1, 1, 2, 3]) {
            let call = match mode { 6 | 7 => g.pick(&[0u8, 2, 3, 3]), 3 | 0 => g.pick(&[0, 0, 4, 2]), _ => g.pick(&[0, 1, 1, 4, 2]) };
            let errno = g.pick(ERRNOS[call as usize]);
            let nth = match call { 0 => 0, 1 => g.small(6) as u32, 4 => g.small(30) as u32, _ => 0 };
            let count = if errno == libc::EINTR { 1 + g.n(3) as u32 } else { g.pick(&[1, 1, 3, u32::MAX]) };
            sys.push(SysFault { call, nth, errno, count });
        }
        if g.p(30) { plan.faults.push(Fault { at: At::Byte(gen_pos(g, &e)), what: if g.p(60) { What::Err(g.n(KINDS.len() as u64) as u8, g.pick(&[0, 1])) } else { What::Eof } }); }
        let nexist = g.p(5);
        let nops = 1 + g.n(8);
        let nb = doc.blobs.len() as u64;
        let ops = (0..nops).map(|_| { let k = g.n(nb + 1) as u32; match g.n(6) { 0..=2 => Op::Next, 3 => Op::Skip, 4 => Op::Seek(k), _ => Op::From(k) } }).collect();
        Scn { mode, doc, plan, sys, ops, num: vec![nexist as i64], ..Scn::default() }
    }
    fn run(&self, s: &Scn, c: &mut Ctx) -> R {
        let enc = s.doc.encode();
        let missing = s.num.first() == Some(&1);
        write_file(&c.path, &enc.bytes);
        let path = if missing { format!("{}.missing", c.path) } else { c.path.clone() };
        interpose::start_files(&c.path, &s.plan, &s.sys);
        if let Some(f) = interpose::files() { f.st.limit = 50_000 + 50 * enc.bytes.len() as u64; }
        let mode = s.mode as usize % CTORS.len();
        let fired = || interpose::files().as_ref().map(|f| f.fired.clone()).unwrap_or_default();
        let start = |k: u32| enc.lay.get(k as usize % (enc.lay.len() + 1)).map_or(enc.bytes.len() as u64, |l| l.start as u64);
        let most = enc.lay.len() + 4;
        // Which failing call a constructor must not swallow.
        let matters = |call: u8| match mode { 0 | 3 => call == 0, 1 | 4 => matches!(call, 0 | 1), 2 | 5 => call == 1, 6 => matches!(call, 0 | 2 | 3), 7 => matches!(call, 2 | 3), _ => call == 1 };
        let mut used = 0u64;
        let judge = |e: Option<osmpbf::Error>| -> R {
            let f = fired();
            let hit = f.iter().find(|x| matters(x.0) && !(x.0 == 0 && x.1 == libc::EINTR)).copied();
            match (e, hit) {
                (Some(e), Some((call, no))) => if let Err(t) = os_error(e, no) { bail!("wrong-error", "{}: {} failed with error {no}, reported was {t}", CTORS[mode], CALLS[call as usize]) },
                (None, Some((call, no))) => bail!("hidden-failure", "{}: {} failed with error {no}, but a reader was returned", CTORS[mode], CALLS[call as usize]),
                (Some(e), None) if missing => if let Err(t) = os_error(e, libc::ENOENT) { bail!("wrong-error", "{}: the file does not exist, reported was {t}", CTORS[mode]) },
                (None, None) if missing => bail!("hidden-failure", "{}: the file does not exist, but a reader was returned", CTORS[mode]),
                (Some(e), None) => if f.iter().all(|x| x.1 == libc::EINTR) && interpose::file_hard() == 0 { bail!("spurious-error", "{}: no call failed, but it reported {e}", CTORS[mode]) },
                (None, None) => {}
            }
            Ok(())
        };
        macro_rules! seekable { ($r:expr, $used:expr) => {
            for o in &s.ops {
                $used += 1;
                match o {
                    Op::Skip => { $r.next_header_skip_blob(); }
                    Op::Seek(k) => { let _ = $r.seek(osmpbf::ByteOffset(start(*k))); }
                    Op::From(k) => { let _ = $r.blob_from_offset(osmpbf::ByteOffset(start(*k))); }
                    _ => { if let Some(Ok(b)) = $r.next() { let _ = b.decode(); } }
                }
            }
        } }
        macro_rules! indexed { ($r:expr, $used:expr) => {
            for o in &s.ops {
                $used += 1;
                match o {
                    Op::Next => { let _ = $r.for_each_node(|_| {}); }
                    Op::Skip => { let _ = $r.create_index(); }
                    _ => { let _ = $r.read_ways_and_deps(|_| true, |_| {}); }
                }
            }
        } }
        let stream = SimStream::new(arc(enc.bytes.clone()), &s.plan);
        let seek_fails = s.sys.iter().any(|f| f.call == 1 && f.nth == 0);
        let mut err = None;
        let mut file_ok = true;
        // Inner block: everything is dropped at its end.
        let r: R = (|| {
            match mode {
                0 => match BlobReader::from_path(&path) { Err(e) => err = Some(e), Ok(mut r) => for _ in 0..most { used += 1; if let Some(Ok(b)) = r.next() { let _ = b.decode(); } } },
                1 => match BlobReader::<BufReader<File>>::seekable_from_path(&path) { Err(e) => err = Some(e), Ok(mut r) => seekable!(r, used) },
                2 | 5 => {
                    // A seekable source that refuses to seek.
                    let mut p = s.plan.clone();
                    p.faults.clear();
                    if seek_fails { p.faults.push(Fault { at: At::Seek(0), what: What::SeekErr(0, 1) }); }
                    let st = SimStream::new(stream.data.clone(), &p);
                    let e = if mode == 2 { BlobReader::new_seekable(st).map(|_| ()).err() } else { IndexedReader::new(st).map(|_| ()).err() };
                    used += 1;
                    match (seek_fails, e) {
                        (true, None) => bail!("hidden-failure", "{}: the source cannot seek, but a reader was returned", CTORS[mode]),
                        (false, Some(e)) => bail!("spurious-error", "{}: nothing failed, but it reported {e}", CTORS[mode]),
                        (true, Some(e)) => match e.into_kind() { ErrorKind::Io(x) if x.to_string().contains("sim-fault") => {} k => bail!("wrong-error", "{}: the seek error was reported as {k:?}", CTORS[mode]) },
                        _ => {}
                    }
                    return Ok(());
                }
                3 => match ElementReader::from_path(&path) { Err(e) => err = Some(e), Ok(r) => { used += 1; let _ = r.for_each(|e| { canon::elem(&e); }); } },
                4 => match IndexedReader::from_path(&path) { Err(e) => err = Some(e), Ok(mut r) => indexed!(r, used) },
                6 | 7 => {
                    let m = if mode == 6 { unsafe { Mmap::from_path(&path) } } else {
                        match File::open(&path) { Err(_) => { file_ok = false; return Ok(()); } Ok(f) => unsafe { Mmap::from_file(&f) } }
                    };
                    match m {
                        Err(e) => err = Some(e),
                        Ok(m) => {
                            let mut it = m.blob_iter();
                            for o in &s.ops {
                                used += 1;
                                match o { Op::Seek(k) | Op::From(k) => it.seek(osmpbf::ByteOffset(start(*k))), _ => if let Some(Ok(b)) = it.next() { let _ = b.decode(); } }
                            }
                        }
                    }
                }
                8 => match File::open(&path) { Err(_) => file_ok = false, Ok(f) => match BlobReader::new_seekable(f) { Err(e) => err = Some(e), Ok(mut r) => seekable!(r, used) } },
                _ => match File::open(&path) { Err(_) => file_ok = false, Ok(f) => match IndexedReader::new(f) { Err(e) => err = Some(e), Ok(mut r) => indexed!(r, used) } },
            }
            Ok(())
        })();
        r?;
        // A reader that was made and used may have met failing calls later: only the constructor's own count.
        if !matches!(mode, 2 | 5) && file_ok && (err.is_some() || used == 0 || early(&fired(), mode)) { judge(err)?; }
        let f = match interpose::stop_files() { Some(f) => f, None => bail!("error", "file layer gone") };
        if let Some(l) = f.leaks() { bail!("leak", "{}: after everything was dropped, {l}", CTORS[mode]); }
        c.log(&f.st.log);
        for (call, no) in &f.fired {
            c.add(["fault open", "fault lseek", "fault stat", "fault mmap", "fault read"][*call as usize], 1);
            c.sig(*call as u64 ^ (*no as u64) << 8);
        }
        c.add("descriptors opened", f.opens as u64);
        c.add("descriptors closed", f.closes as u64);
        c.add("mappings made", f.mmaps as u64);
        c.add("mappings removed", f.munmaps as u64);
        c.add("calls on readers", used);
        c.sig(mode as u64);
        c.nontrivial = !f.fired.is_empty() || f.st.log.fired.iter().take(4).any(|x| *x > 0);
        Ok(())
    }
}
/// Did a call fail that only the constructor makes (it opens, and maps, once)?
fn early(f: &[(u8, i32)], mode: usize) -> bool { f.iter().any(|x| (x.0 == 0 && x.1 != libc::EINTR) || (matches!(mode, 6 | 7) && matches!(x.0, 2 | 3))) }
