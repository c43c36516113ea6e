//! C11 injected I/O faults, C12 short transfers and interruptions, C13 histories of the partition list.
use crate::blob::Blob;
use crate::engine::*;
use crate::io::*;
use crate::model::*;
use crate::props::build::{check_disc_read, Disc};
use crate::props::dirs;
use crate::props::reader;
use crate::refimage::*;
use crate::sut::*;
use crate::wiiref::*;
use disc_riider::builder::{build_from_directory, PartitionAddError, WiiDiscBuilder};
use disc_riider::{IOWindow, WiiIsoReader};
use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, Write};

fn small_parts(ctx: &mut Ctx, max: usize, aimed: bool) -> Vec<PartDef> {
    let n = ctx.src.usize(1, max);
    let o = TreeOpts { max_nodes: 6, max_depth: 3, no_case_collisions: true, big: false };
    let mut v = vec![];
    for _ in 0..n {
        let mut d = gen_part(&mut ctx.src, &o, 4);
        if aimed && ctx.src.chance(1, 3) {
            let a = aim(&mut ctx.src, &mut d, 3);
            ctx.label(a);
        }
        ctx.describe(describe_part(&d));
        v.push(d);
    }
    v
}

/// the image lists and holds exactly these partitions
fn holds(img: &[u8], hdr: &RHdr, region: &[u8; 32], parts: &[&PartDef]) -> Result<(), String> {
    let di = decode_image(img)?;
    if di.hdr != *hdr {
        return Err(show("disc header", di.hdr, hdr.clone()));
    }
    if di.region != *region {
        return Err(show("region", di.region, *region));
    }
    if di.parts.len() != parts.len() {
        return Err(format!("the image lists {} partitions instead of the {} that were added", di.parts.len(), parts.len()));
    }
    for (i, (p, d)) in di.parts.iter().zip(parts).enumerate() {
        check_decoded_part(p, d).map_err(|e| format!("partition {i}: {e}"))?;
    }
    Ok(())
}

const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData];

/// how a caller goes on after a failed call
#[derive(Clone, Copy, PartialEq, Debug)]
enum Then {
    GiveUp,
    Retry,
    Skip,
}

/// one build with faults; returns whether some call failed
fn faulty_build<'a, WS: Read + Write + Seek>(ws: WS, hdr: &RHdr, region: [u8; 32], parts: &'a [PartDef], then: Then) -> (Vec<&'a PartDef>, bool, bool) {
    let mut b = WiiDiscBuilder::create(ws, lib_hdr(hdr), region);
    let mut added = vec![];
    let mut failed = false;
    for d in parts {
        let mut tries = 0;
        loop {
            let mut def = Def::new(d);
            match add(&mut b, &mut def, &mut |_| {}) {
                Ok(()) => {
                    added.push(d);
                    break;
                }
                Err(_) => {
                    failed = true;
                    tries += 1;
                    match then {
                        Then::GiveUp => return (added, failed, false),
                        Then::Retry if tries < 2 => continue,
                        _ => break,
                    }
                }
            }
        }
    }
    let mut fin = b.finish().is_ok();
    if !fin {
        failed = true;
        if then != Then::GiveUp {
            fin = b.finish().is_ok();
        }
    }
    (added, failed, fin)
}

fn build_faults(ctx: &mut Ctx) -> Result<(), String> {
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let parts = small_parts(ctx, 2, true);
    let then = *ctx.src.pick(&[Then::GiveUp, Then::Retry, Then::Skip]);
    ctx.label(match then {
        Then::GiveUp => "caller gives up",
        Then::Retry => "caller retries",
        Then::Skip => "caller goes on without the partition",
    });
    let mut probe = FaultIo::new(WriteBack::new(false), u64::MAX, FaultMode::Once);
    let (_, f, _) = faulty_build(&mut probe, &hdr, region, &parts, then);
    if f {
        return Err("the build fails without a fault".into());
    }
    let total = probe.ops;
    let all: Vec<&PartDef> = parts.iter().collect();
    holds(&probe.inner.file.data, &hdr, &region, &all).map_err(|e| format!("without a fault: {e}"))?;
    if probe.inner.unflushed() > 0 {
        return Err(format!("finish reports success but {} bytes were never flushed", probe.inner.unflushed()));
    }
    // a caller that goes on needs a stream that keeps what it accepted
    let lossy = then == Then::GiveUp;
    ctx.nontrivial();
    let mut state = ctx.src.below(1 << 32);
    // all fault points; if there are unexpectedly many, every n-th from a random start
    let step = (total / 900).max(1);
    let mut k = if step > 1 { state % step } else { 0 };
    while k < total {
        state = mix(state);
        let mode = if state % 4 == 0 { FaultMode::Forever } else { FaultMode::Once };
        let kind = KINDS[(state >> 8) as usize % KINDS.len()];
        let torn = match (state >> 16) % 3 {
            0 => 0,
            1 => 1 + (state >> 24) as usize % 64,
            _ => (state >> 24) as usize % GROUP,
        };
        let mut io = FaultIo::new(WriteBack::new(lossy), k, mode);
        io.kind = kind;
        io.torn = torn;
        let (added, failed, fin) = faulty_build(&mut io, &hdr, region, &parts, then);
        ctx.subcases += 1;
        let what = || format!("fault at operation {k} of {total} ({mode:?}, {kind:?}, torn {torn}, caller {then:?})");
        if !failed && io.hit > 0 {
            // nothing reported: then the result must be right
            ctx.label("fault absorbed");
            if !fin || added.len() != parts.len() {
                return Err(format!("{}: inconsistent results", what()));
            }
        }
        ctx.label_if(failed, "fault reported");
        if fin {
            holds(&io.inner.file.data, &hdr, &region, &added).map_err(|e| format!("{}: the calls report success for {} partitions but {e}", what(), added.len()))?;
            ctx.label_if(failed, "finished after a reported fault");
        }
        k += step;
    }
    Ok(())
}

/// the same for building from a directory
fn dir_faults(ctx: &mut Ctx) -> Result<(), String> {
    let o = TreeOpts { max_nodes: 5, max_depth: 3, no_case_collisions: true, big: false };
    let d = dirs::gen_dir(ctx, &o);
    let dir = ctx.fresh_dir();
    dirs::write_dir(&dir, &d, 0);
    let mut probe = FaultIo::new(WriteBack::new(true), u64::MAX, FaultMode::Once);
    build_from_directory(&dir, &mut probe, &mut |_| {}).map_err(|e| format!("the build fails without a fault: {e}"))?;
    if probe.inner.unflushed() > 0 {
        return Err(format!("the build reports success but {} bytes were never flushed", probe.inner.unflushed()));
    }
    let total = probe.ops;
    ctx.nontrivial();
    let mut state = ctx.src.below(1 << 32);
    let step = (total / 600).max(1);
    let mut k = if step > 1 { state % step } else { 0 };
    while k < total {
        state = mix(state);
        let mode = if state % 2 == 0 { FaultMode::Forever } else { FaultMode::Once };
        let mut io = FaultIo::new(WriteBack::new(true), k, mode);
        io.kind = KINDS[(state >> 8) as usize % KINDS.len()];
        io.torn = (state >> 24) as usize % 0x3000;
        let r = build_from_directory(&dir, &mut io, &mut |_| {});
        ctx.subcases += 1;
        match r {
            Err(_) => ctx.label("fault reported"),
            Ok(()) => {
                ctx.label_if(io.hit > 0, "fault absorbed");
                dirs::check_dir_image(&io.inner.file.data, &d).map_err(|e| format!("fault at operation {k} of {total} ({mode:?}, {:?}): success is reported but {e}", io.kind))?;
            }
        }
        k += step;
    }
    Ok(())
}


/// A reading session step by step. Every step may fail while the fault is pending; a step that succeeds has to give the
/// right result, and after a failure the step is repeated on the same objects.
fn session<RS: Read + Seek>(rs: &mut RS, img: &RefImage, order: u64) -> Result<u32, String> {
    let mut errs = 0;
    // run a step up to three times; Ok(None) = it failed every time
    macro_rules! step {
        ($name:expr, $e:expr) => {{
            let mut out = None;
            for _ in 0..3 {
                match $e {
                    Ok(v) => {
                        out = Some(v);
                        break;
                    }
                    Err(_) => errs += 1,
                }
            }
            match out {
                Some(v) => v,
                None => return Ok(errs),
            }
        }};
    }
    let mut opened = None;
    for _ in 0..3 {
        match WiiIsoReader::open(&mut *rs) {
            Ok(_) => {
                opened = Some(());
                break;
            }
            Err(_) => errs += 1,
        }
    }
    if opened.is_none() {
        return Ok(errs);
    }
    let mut r = match WiiIsoReader::open(&mut *rs) {
        Ok(r) => r,
        Err(_) => return Ok(errs + 1),
    };
    reader::check_top(&r, img)?;
    for (i, w) in img.parts.iter().enumerate() {
        let e = r.partitions()[i].clone();
        let mut p = step!("open_partition", r.open_partition(e.clone()));
        reader::check_meta(&p, w)?;
        for part in 0..6 {
            match (part + order) % 6 {
                0 => short_diff("bi2", &step!("bi2", p.read_bi2(&mut r)), &w.def.bi2)?,
                1 => short_diff("apploader", &step!("apploader", p.read_apploader(&mut r)), &w.def.app)?,
                2 => short_diff("DOL", &step!("dol", p.read_dol(&mut r)), &w.def.dol)?,
                3 => {
                    let t = from_tmd(&step!("tmd", p.read_tmd(&mut r)));
                    if t != w.def.tmd {
                        return Err(show("TMD", t, w.def.tmd.clone()));
                    }
                }
                4 => {
                    let c: Vec<RCert> = step!("certs", p.read_certificates(&mut r)).iter().map(from_cert).collect();
                    if c != w.def.certs {
                        return Err("certificates differ".into());
                    }
                }
                _ => {
                    for (path, off, len) in flat(&w.fst) {
                        let name = path.join("/");
                        // a handle that is read on after an error
                        let mut f = p.open_file(&mut r, &name).ok_or_else(|| format!("{name:?} cannot be opened"))?;
                        let mut v = vec![];
                        let mut buf = vec![0u8; 0x3001];
                        let mut bad = 0;
                        loop {
                            match f.read(&mut buf) {
                                Ok(0) => break,
                                Ok(n) => v.extend_from_slice(&buf[..n]),
                                Err(_) => {
                                    errs += 1;
                                    bad += 1;
                                    if bad > 3 {
                                        return Ok(errs);
                                    }
                                }
                            }
                            if v.len() as u64 > len as u64 {
                                return Err(format!("{name:?} is longer than it should be"));
                            }
                        }
                        short_diff(&format!("{name:?} (read on after {bad} errors)"), &v, &w.plain.slice(off, len as u64))?;
                        drop(f);
                        let mut v = vec![];
                        step!("read_into_vec", p.get_crypto_reader(&mut r).read_into_vec(off, len as u64, &mut v));
                        short_diff("read_into_vec", &v, &w.plain.slice(off, len as u64))?;
                    }
                    // alternate between groups so that groups are loaded again
                    let mut last: Option<u64> = None;
                    for g in [0, w.readable() - 0x100, 0x500, w.readable() / 2, w.readable() - 0x100, 0x7000] {
                        let mut tries = 0;
                        loop {
                            let mut v = vec![];
                            match p.get_crypto_reader(&mut r).read_into_vec(g, 0x100, &mut v) {
                                Ok(_) => {
                                    short_diff(&format!("read_into_vec at {g:#x}"), &v, &w.plain.slice(g, 0x100))?;
                                    break;
                                }
                                Err(_) => {
                                    errs += 1;
                                    tries += 1;
                                }
                            }
                            if tries > 3 {
                                return Ok(errs);
                            }
                            // what could be read before the failure is still right
                            if let Some(l) = last {
                                let mut v = vec![];
                                match p.get_crypto_reader(&mut r).read_into_vec(l, 0x100, &mut v) {
                                    Ok(_) => short_diff(&format!("read_into_vec at {l:#x} after a failed read at {g:#x}"), &v, &w.plain.slice(l, 0x100))?,
                                    Err(_) => errs += 1,
                                }
                            }
                        }
                        last = Some(g);
                    }
                }
            }
        }
    }
    Ok(errs)
}

fn read_faults(ctx: &mut Ctx) -> Result<(), String> {
    let mut o = IMG;
    o.max_parts = 2;
    o.max_groups = 2;
    o.max_contents = 3;
    o.tree = TreeOpts { max_nodes: 5, max_depth: 3, no_case_collisions: false, big: false };
    let mut img = gen_image(&mut ctx.src, &o);
    // sizes that count encrypted bytes leave reads at the end open
    for p in img.parts.iter_mut() {
        if p.data_size > p.plain.size {
            return Ok(());
        }
    }
    ctx.describe(img.describe());
    ctx.nontrivial();
    let bytes = img.to_vec();
    let order = ctx.src.below(6);
    let chunk = *ctx.src.pick(&[usize::MAX, 0x90000, 0x8000]);
    let mut probe = FaultIo::new(Cursor::new(&bytes[..]), u64::MAX, FaultMode::Once);
    probe.chunk = chunk;
    let errs = session(&mut probe, &img, order).map_err(|e| format!("without a fault: {e}"))?;
    if errs != 0 {
        return Err("reading fails without a fault".into());
    }
    let total = probe.ops;
    let mut state = ctx.src.below(1 << 32);
    let step = (total / 400).max(1);
    let mut k = if step > 1 { state % step } else { 0 };
    while k < total {
        state = mix(state);
        let mode = if state % 8 == 0 { FaultMode::Forever } else { FaultMode::Once };
        let mut io = FaultIo::new(Cursor::new(&bytes[..]), k, mode);
        io.kind = KINDS[(state >> 8) as usize % KINDS.len()];
        io.chunk = chunk;
        let kind = io.kind;
        let errs = session(&mut io, &img, order).map_err(|e| format!("fault at operation {k} of {total} ({mode:?}, {kind:?}): {e}"))?;
        ctx.label_if(errs > 0, "fault reported");
        ctx.label_if(errs == 0 && io.hit > 0, "fault absorbed");
        ctx.subcases += 1;
        // sparse and dense regions alike
        k += 1 + if step > 1 { mix(state) % (2 * step - 1) } else { 0 };
    }
    Ok(())
}

/// errors of the partition definition come out unchanged
fn supplier(ctx: &mut Ctx) -> Result<(), String> {
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let parts = small_parts(ctx, 2, false);
    let victim = ctx.src.usize(0, parts.len() - 1);
    let nfiles = files(&parts[victim].tree).len();
    let mut stages = vec![Stage::Header, Stage::Bi2, Stage::App, Stage::Fst, Stage::Dol];
    stages.extend((0..nfiles).map(Stage::File));
    ctx.nontrivial();
    for (si, st) in stages.iter().enumerate() {
        for io_fail in [false, true] {
            ctx.subcases += 1;
            let code = 1000 + si as u32;
            let mut mem = MemFile::default();
            let mut b = WiiDiscBuilder::create(&mut mem, lib_hdr(&hdr), region);
            let mut added = vec![];
            for (i, d) in parts.iter().enumerate() {
                let mut def = Def::new(d);
                if i == victim {
                    def.fail = Some((*st, code));
                    def.io_fail = io_fail;
                }
                match add(&mut b, &mut def, &mut |_| {}) {
                    Ok(()) => {
                        if i == victim {
                            return Err(format!("the definition failed at {st:?} but add_partition reports success (asked: {})", def.fired));
                        }
                        added.push(d);
                    }
                    Err(e) => {
                        if i != victim {
                            return Err(format!("add_partition fails for the next partition after an error at {st:?}: {e}"));
                        }
                        let same = match &e {
                            PartitionAddError::Custom(SupErr(c)) => !io_fail && *c == code,
                            PartitionAddError::IO(e) => io_fail && e.get_ref().and_then(|x| x.downcast_ref::<SupErr>()) == Some(&SupErr(code)),
                            _ => false,
                        };
                        if !same {
                            return Err(format!("the definition's error at {st:?} comes out as {e:?}"));
                        }
                    }
                }
            }
            b.finish().map_err(|e| format!("finish: {e}"))?;
            drop(b);
            holds(&mem.data, &hdr, &region, &added).map_err(|e| format!("after an error of the definition at {st:?}: {e}"))?;
        }
    }
    ctx.label("definition error");
    Ok(())
}

pub fn c11() -> Property {
    let mut p = Property::new(
        "C11",
        "one case = one generated disc, directory or image; the number of stream operations N of the complete build or reading session is measured and the same run is repeated with a failing operation at every k < N (every n-th from a random start when N exceeds a few hundred), once or from then on, with torn writes and several error kinds; what the calls report is compared with the decoded image or the plaintext; non-trivial = a case with fault points; the number of faulty runs is reported separately",
        vec![
            Suite::new("build", 40, 800, build_faults),
            Suite::new("directory", 40, 500, dir_faults),
            Suite::new("read", 80, 1200, read_faults),
            Suite::new("definition", 300, 1500, supplier),
            Suite::new("storage", 400, 6000, crate::props::tool::storage),
        ],
    );
    p.address_space = None;
    p.level = "fault_enumeration";
    p.assumptions = &["an error of kind Interrupted is a request to retry, not a failure (C12)", "a torn write may leave any prefix of the data", "data written but not flushed when a flush fails may be lost (write-back cache); the caller then gives up"];
    p
}

// ---------------------------------------------------------------- C12

fn gen_throttle<T>(ctx: &mut Ctx, inner: T) -> ThrottleIo<T> {
    let seed = ctx.src.below(1 << 32);
    let max = *ctx.src.pick(&[1usize, 2, 3, 7, 16, 17, 100, 0x400, 0x7C00, 0x8000]);
    let intr = *ctx.src.pick(&[0u64, 8, 64, 128]);
    ThrottleIo::new(inner, seed, max, intr)
}

fn count_throttle<T>(ctx: &mut Ctx, t: &ThrottleIo<T>) {
    ctx.label_if(t.short > 0, "short transfers");
    ctx.label_if(t.intrs > 0, "interruptions");
    if t.short > 0 || t.intrs > 0 {
        ctx.nontrivial();
    }
}

fn thr_build(ctx: &mut Ctx) -> Result<(), String> {
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let parts = small_parts(ctx, 2, true);
    let mut plain = MemFile::default();
    build_on(&mut plain, &hdr, region, &parts, Lens::Real)?;
    let mut t = gen_throttle(ctx, MemFile::default());
    build_on(&mut t, &hdr, region, &parts, Lens::Real).map_err(|e| format!("on a stream with short transfers: {e}"))?;
    count_throttle(ctx, &t);
    short_diff("image built with short transfers", &t.inner.data, &plain.data)
}

fn thr_dir(ctx: &mut Ctx) -> Result<(), String> {
    let o = TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: true, big: ctx.src.chance(1, 4) };
    let d = dirs::gen_dir(ctx, &o);
    let dir = ctx.fresh_dir();
    dirs::write_dir(&dir, &d, 0);
    let mut plain = MemFile::default();
    build_from_directory(&dir, &mut plain, &mut |_| {}).map_err(|e| format!("{e}"))?;
    let mut t = gen_throttle(ctx, MemFile::default());
    build_from_directory(&dir, &mut t, &mut |_| {}).map_err(|e| format!("on a stream with short transfers: {e}"))?;
    count_throttle(ctx, &t);
    short_diff("image built with short transfers", &t.inner.data, &plain.data)
}

fn thr_read(ctx: &mut Ctx) -> Result<(), String> {
    let mut o = IMG;
    o.max_groups = 3;
    o.tree.big = ctx.src.chance(1, 4);
    let img = gen_image(&mut ctx.src, &o);
    ctx.describe(img.describe());
    let v = if img.parts.iter().map(|p| p.groups).sum::<u64>() <= 8 { img.to_vec() } else { return Ok(()) };
    let mut t = gen_throttle(ctx, Cursor::new(v));
    if ctx.src.bool() {
        let mut r = WiiIsoReader::open(&mut t).map_err(|e| format!("open: {e}"))?;
        reader::read_everything(&mut r, &img)?;
    } else {
        let steps = ctx.src.usize(3, 20);
        reader::history(ctx, &mut t, &img, steps)?;
    }
    count_throttle(ctx, &t);
    Ok(())
}

/// exact reads and complete writes through a window
fn thr_window(ctx: &mut Ctx) -> Result<(), String> {
    let size = ctx.src.usize(16, 600);
    let data = Blob::new(size as u64, 0, ctx.src.below(1 << 16)).to_vec();
    let start = ctx.src.usize(0, size);
    let len = if ctx.src.bool() { Some(ctx.src.usize(0, size - start)) } else { None };
    let mut want = data.clone();
    let end = len.map_or(size, |l| start + l);
    let mut t = gen_throttle(ctx, MemFile::new(data));
    let mut log = vec![format!("stream of {size}, window {start}+{len:?}")];
    {
        let mut w = IOWindow::new(&mut t, start as u64, len.map(|l| l as u64));
        let mut pos = 0usize;
        for i in 0..ctx.src.usize(2, 12) {
            let room = end.saturating_sub(start + pos);
            match ctx.src.below(4) {
                0 => {
                    pos = ctx.src.usize(0, end - start);
                    w.seek(SeekFrom::Start(pos as u64)).map_err(|e| format!("seek: {e}"))?;
                    log.push(format!("seek {pos}"));
                }
                1 => {
                    let n = ctx.src.usize(0, room);
                    log.push(format!("read_exact {n} at {pos}"));
                    let mut b = vec![0xAAu8; n];
                    w.read_exact(&mut b).map_err(|e| format!("{}: {e}", log.join(", ")))?;
                    short_diff(&log.join(", "), &b, &want[start + pos..start + pos + n])?;
                    pos += n;
                }
                2 => {
                    let n = ctx.src.usize(0, room);
                    log.push(format!("write_all {n} at {pos}"));
                    let b = Blob::new(n as u64, 0, 70 + i as u64).to_vec();
                    w.write_all(&b).map_err(|e| format!("{}: {e}", log.join(", ")))?;
                    want[start + pos..start + pos + n].copy_from_slice(&b);
                    pos += n;
                }
                _ => {
                    log.push(format!("read_to_end at {pos}"));
                    let mut b = vec![];
                    w.read_to_end(&mut b).map_err(|e| format!("{}: {e}", log.join(", ")))?;
                    short_diff(&log.join(", "), &b, &want[start + pos..end.max(start + pos)])?;
                    pos += b.len();
                }
            }
            let at = w.stream_position().map_err(|e| format!("{e}"))?;
            if at != pos as u64 {
                return Err(format!("{}: position {at} instead of {pos}", log.join(", ")));
            }
        }
    }
    ctx.describe(log.join(", "));
    count_throttle(ctx, &t);
    short_diff(&format!("{}: stream afterwards", log.join(", ")), &t.inner.data, &want)
}

pub fn c12() -> Property {
    let mut p = Property::new(
        "C12",
        "one case = one generated disc, directory, image or window history run on a stream that, by a generated schedule, transfers fewer bytes than asked and reports Interrupted for reads and writes; the built image must equal the one built on an ordinary stream byte for byte and every read must equal the plaintext; non-trivial = at least one short transfer or interruption happened",
        vec![
            Suite::new("build", 5000, 30000, thr_build),
            Suite::new("directory", 2500, 15000, thr_dir),
            Suite::new("read", 5000, 30000, thr_read),
            Suite::new("window", 500000, 3000000, thr_window),
        ],
    );
    p.assumptions = &["only reads and writes are interrupted, seeks and flushes are not (as with files on the supported systems)", "a read of a window handle may itself report Interrupted, which the caller retries"];
    p
}

// ---------------------------------------------------------------- C13

/// a definition that the builder has to refuse
fn spoil(ctx: &mut Ctx, d: &mut PartDef) -> Option<(Stage, u32)> {
    let n = files(&d.tree).len();
    match ctx.src.below(7) {
        0 => {
            d.tmd.contents.clear();
            None
        }
        1 => {
            let c = d.tmd.contents[0].clone();
            d.tmd.contents.resize(1500, c);
            None
        }
        2 => {
            d.tree.push(Node::File { name: "\u{1F600}".into(), data: Blob::new(3, 0, 1), pad: 0 });
            None
        }
        3 => {
            d.bi2 = vec![1; 0x2001];
            None
        }
        4 if n > 0 => Some((Stage::File(ctx.src.usize(0, n - 1)), 5)),
        5 => Some((Stage::Dol, 6)),
        _ => Some((*ctx.src.pick(&[Stage::Header, Stage::Bi2, Stage::App, Stage::Fst]), 7)),
    }
}

fn list_history(ctx: &mut Ctx) -> Result<(), String> {
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let start = match ctx.src.below(4) {
        0 => 0,
        1 => ctx.src.below(0x60000),
        2 => ctx.src.below(1 << 24),
        _ => ctx.src.below(1 << 40),
    };
    let mut mem = MemFile::default();
    mem.pos = start;
    let o = TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: false, big: false };
    let steps = ctx.src.usize(1, 6);
    let mut log = vec![format!("initial position {start:#x}")];
    let mut added: Vec<PartDef> = vec![];
    let mut fails = 0;
    let mut finishes = 0;
    {
        let mem = &mut mem;
        let mut b = WiiDiscBuilder::create(&mut *mem, lib_hdr(&hdr), region);
        for _ in 0..steps {
            match ctx.src.weighted(&[5, 3, 2]) {
                0 => {
                    let mut d = gen_part(&mut ctx.src, &o, 5);
                    if ctx.src.chance(1, 4) {
                        aim(&mut ctx.src, &mut d, 3);
                    }
                    let mut def = Def::new(&d);
                    let r = add(&mut b, &mut def, &mut |_| {});
                    drop(def);
                    r.map_err(|e| format!("{}: add_partition fails: {e}", log.join(", ")))?;
                    log.push(format!("add {}", describe_part(&d)));
                    added.push(d);
                }
                1 => {
                    let mut d = gen_part(&mut ctx.src, &o, 5);
                    if ctx.src.chance(1, 3) {
                        // a large one that leaves a lot behind
                        aim(&mut ctx.src, &mut d, 3);
                    }
                    let fail = spoil(ctx, &mut d);
                    let mut def = Def::new(&d);
                    def.fail = fail;
                    def.io_fail = ctx.src.bool();
                    if add(&mut b, &mut def, &mut |_| {}).is_ok() {
                        return Err(format!("{}: a definition that must fail ({fail:?}, {}) is added", log.join(", "), describe_part(&d)));
                    }
                    fails += 1;
                    log.push("failed add".into());
                }
                _ => {
                    b.finish().map_err(|e| format!("finish: {e}"))?;
                    finishes += 1;
                    log.push("finish".into());
                }
            }
        }
        for _ in 0..ctx.src.usize(1, 2) {
            b.finish().map_err(|e| format!("finish: {e}"))?;
            finishes += 1;
        }
    }
    ctx.describe(log.join(", "));
    ctx.label_if(fails > 0, "failed additions");
    ctx.label_if(finishes > 1, "repeated finish");
    ctx.label_if(added.len() > 1, "several partitions");
    ctx.label_if(added.is_empty(), "empty list");
    ctx.label_if(start > 0, "initial position not zero");
    if added.len() > 1 || (fails > 0 && !added.is_empty()) {
        ctx.nontrivial();
    }
    let refs: Vec<&PartDef> = added.iter().collect();
    holds(&mem.data, &hdr, &region, &refs).map_err(|e| format!("{}: {e}", log.join(", ")))?;
    let d = Disc { hdr, region, parts: added, lens: Lens::Real };
    let mut r = WiiIsoReader::open(Cursor::new(&mem.data)).map_err(|e| format!("open: {e}"))?;
    check_disc_read(&mut r, &d)?;
    // as if it had been built alone
    let di = decode_image(&mem.data)?;
    for (i, (p, def)) in di.parts.iter().zip(&d.parts).enumerate().take(2) {
        let alone = build_vec(&d.hdr, d.region, std::slice::from_ref(def), Lens::Real)?;
        let al = decode_image(&alone)?;
        let q = &al.parts[0];
        if q.hdr != p.hdr || q.fst != p.fst || q.plain.len() != p.plain.len() || q.fst_len != p.fst_len {
            return Err(format!("partition {i} differs from the same partition built alone"));
        }
    }
    Ok(())
}

/// a snapshot after each finish is a valid image of what had been added until then
fn snapshots(ctx: &mut Ctx) -> Result<(), String> {
    struct Shared<'a>(&'a std::cell::RefCell<MemFile>);
    impl Read for Shared<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            self.0.borrow_mut().read(b)
        }
    }
    impl Write for Shared<'_> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.borrow_mut().write(b)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl Seek for Shared<'_> {
        fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
            self.0.borrow_mut().seek(p)
        }
    }
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let cell = std::cell::RefCell::new(MemFile::default());
    let o = TreeOpts { max_nodes: 6, max_depth: 3, no_case_collisions: false, big: false };
    let n = ctx.src.usize(1, 4);
    let mut added: Vec<PartDef> = vec![];
    let mut b = WiiDiscBuilder::create(Shared(&cell), lib_hdr(&hdr), region);
    for i in 0..n {
        let mut d = gen_part(&mut ctx.src, &o, 5);
        let fail = if ctx.src.chance(1, 3) { spoil(ctx, &mut d) } else { None };
        let spoiled = fail.is_some() || d.tmd.contents.is_empty() || d.tmd.contents.len() > 900 || d.bi2.len() > 0x2000 || d.tree.iter().any(|n| !sjis_exact(n.name()));
        let mut def = Def::new(&d);
        def.fail = fail;
        let r = add(&mut b, &mut def, &mut |_| {});
        drop(def);
        if r.is_ok() == spoiled {
            return Err(format!("addition {i}: {}", if spoiled { "a bad definition was accepted".to_string() } else { format!("fails: {}", r.unwrap_err()) }));
        }
        if !spoiled {
            ctx.describe(describe_part(&d));
            added.push(d);
        } else {
            ctx.describe("failed add");
            ctx.label("failed additions");
            // an image that was finished before stays what it was (the list is not extended before the next finish)
        }
        b.finish().map_err(|e| format!("finish: {e}"))?;
        let refs: Vec<&PartDef> = added.iter().collect();
        let snap = cell.borrow().data.clone();
        holds(&snap, &hdr, &region, &refs).map_err(|e| format!("after finish {i}: {e}"))?;
        ctx.subcases += 1;
        // use the stream in between
        cell.borrow_mut().pos = ctx.src.below(1 << 22);
    }
    ctx.label_if(added.len() > 1, "several partitions");
    if n > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

/// many partitions
fn many(ctx: &mut Ctx) -> Result<(), String> {
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let n = ctx.src.usize(5, 24);
    let o = TreeOpts { max_nodes: 2, max_depth: 2, no_case_collisions: false, big: false };
    let parts: Vec<PartDef> = (0..n).map(|_| gen_part(&mut ctx.src, &o, 2)).collect();
    ctx.describe(format!("{n} partitions"));
    ctx.nontrivial();
    ctx.label("five or more partitions");
    let img = build_vec(&hdr, region, &parts, Lens::Real)?;
    let refs: Vec<&PartDef> = parts.iter().collect();
    holds(&img, &hdr, &region, &refs)?;
    let d = Disc { hdr, region, parts, lens: Lens::Real };
    let mut r = WiiIsoReader::open(Cursor::new(&img)).map_err(|e| format!("open: {e}"))?;
    check_disc_read(&mut r, &d)
}

static ZEROS: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();

/// limits of the format: more data than a hash table can cover, partitions that cannot be addressed any more
fn limits(ctx: &mut Ctx) -> Result<(), String> {
    let v = ctx.src.below(2);
    let z: &'static [u8] = ZEROS.get_or_init(|| vec![0u8; 1 << 30]);
    let o = TreeOpts { max_nodes: 2, max_depth: 2, no_case_collisions: false, big: false };
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let mut mk = |gib: u64| {
        let mut d = gen_part(&mut ctx.src, &o, 2);
        for i in 0..gib {
            d.tree.push(Node::File { name: format!("zz{i:02}"), data: Blob::new(1 << 30, 1, 0), pad: 0 });
        }
        d
    };
    // variant 0: one partition beyond the hash table; variant 1: two large ones, a third has no address
    let defs: Vec<PartDef> = if v == 0 { vec![mk(0), mk(10), mk(0)] } else { vec![mk(9), mk(8), mk(0)] };
    ctx.describe(if v == 0 { "10 GiB in one partition" } else { "a partition that would start beyond 16 GiB" });
    ctx.nontrivial();
    let mut st = DedupStore::new(0x70000);
    let mut added = vec![];
    {
        let mut b = WiiDiscBuilder::create(&mut st, lib_hdr(&hdr), region);
        for d in &defs {
            let mut def = Def::new(d);
            def.zeros = Some(z);
            if add(&mut b, &mut def, &mut |_| {}).is_ok() {
                added.push(d);
            }
        }
        b.finish().map_err(|e| format!("finish: {e}"))?;
    }
    let want = 2;
    if added.len() != want {
        return Err(format!("{} of 3 partitions were added, 1 cannot be represented", added.len()));
    }
    let mut r = WiiIsoReader::open(st).map_err(|e| format!("open: {e}"))?;
    let ps = r.partitions().to_vec();
    if ps.len() != want {
        return Err(format!("the image lists {} partitions instead of {want}", ps.len()));
    }
    for (e, d) in ps.into_iter().zip(&added) {
        let mut p = r.open_partition(e).map_err(|e| format!("open_partition: {e}"))?;
        if type_num(p.get_partition_type()) != d.ptype {
            return Err("partition type".into());
        }
        short_diff("DOL", &p.read_dol(&mut r).map_err(|e| format!("{e}"))?, &d.dol)?;
        same_tree(p.get_fst().get_entries(), &d.tree)?;
        for (path, blob) in files(&d.tree) {
            if blob.len < 1 << 30 {
                read_file(&mut r, &mut p, &path, &blob)?;
            }
        }
    }
    Ok(())
}

/// more partitions than the table has room for
fn full_table(ctx: &mut Ctx) -> Result<(), String> {
    const ROOM: usize = (0x4E000 - 0x40020) / 8;
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let mut d = gen_part(&mut ctx.src, &TreeOpts { max_nodes: 2, max_depth: 2, no_case_collisions: false, big: false }, 2);
    d.tree.clear();
    ctx.describe(format!("{ROOM} small partitions and some more"));
    ctx.nontrivial();
    let mut st = DedupStore::new(0x70000);
    let mut types = vec![];
    {
        let mut b = WiiDiscBuilder::create(&mut st, lib_hdr(&hdr), region);
        for i in 0..ROOM + 3 {
            d.ptype = (mix(i as u64) % 3) as u32;
            if add(&mut b, &mut Def::new(&d), &mut |_| {}).is_ok() {
                types.push(d.ptype);
            }
        }
        b.finish().map_err(|e| format!("finish: {e}"))?;
    }
    let r = WiiIsoReader::open(st).map_err(|e| format!("open: {e}"))?;
    let got: Vec<u32> = r.partitions().iter().map(|p| type_num(p.get_type())).collect();
    if got != types {
        return Err(format!("{} partitions were added, the image lists {} (or other types)", types.len(), got.len()));
    }
    if *r.get_region() != region {
        return Err(format!("the region is damaged by {} partitions", types.len()));
    }
    Ok(())
}

/// more partitions than a byte counts
fn long_list(ctx: &mut Ctx) -> Result<(), String> {
    let hdr = gen_hdr(&mut ctx.src);
    let region = ctx.src.arr();
    let n = ctx.src.usize(257, 330);
    let o = TreeOpts { max_nodes: 2, max_depth: 2, no_case_collisions: false, big: false };
    let defs: Vec<PartDef> = (0..5).map(|_| gen_part(&mut ctx.src, &o, 2)).collect();
    ctx.describe(format!("{n} small partitions"));
    ctx.nontrivial();
    let mut st = DedupStore::new(0x70000);
    {
        let mut b = WiiDiscBuilder::create(&mut st, lib_hdr(&hdr), region);
        for i in 0..n {
            add(&mut b, &mut Def::new(&defs[i % defs.len()]), &mut |_| {}).map_err(|e| format!("addition {i}: {e}"))?;
        }
        b.finish().map_err(|e| format!("finish: {e}"))?;
    }
    let mut r = WiiIsoReader::open(st).map_err(|e| format!("open: {e}"))?;
    if *r.get_region() != region {
        return Err("region".into());
    }
    let ps = r.partitions().to_vec();
    if ps.len() != n {
        return Err(format!("{n} partitions were added, the image lists {}", ps.len()));
    }
    for (i, e) in ps.into_iter().enumerate() {
        let d = &defs[i % defs.len()];
        if type_num(e.get_type()) != d.ptype {
            return Err(format!("type of partition {i}"));
        }
        if i % 16 == 0 || i >= 250 {
            let mut p = r.open_partition(e).map_err(|e| format!("open_partition {i}: {e}"))?;
            short_diff("DOL", &p.read_dol(&mut r).map_err(|e| format!("{e}"))?, &d.dol)?;
            same_tree(p.get_fst().get_entries(), &d.tree)?;
            for (path, blob) in files(&d.tree) {
                read_file(&mut r, &mut p, &path, &blob)?;
            }
        }
    }
    Ok(())
}

pub fn c13() -> Property {
    let mut p = Property::new(
        "C13",
        "one case = one history of additions (good definitions, definitions that fail at a generated stage or cannot be represented) and finish calls on one builder, on a stream with a generated initial position; the image is decoded independently after the history (suite snapshots: after every finish), read with the library and compared with the list of successful additions and with each partition built alone; non-trivial = two or more partitions, or a failed addition besides a successful one",
        vec![
            Suite::new("history", 2500, 40000, list_history),
            Suite::new("snapshots", 2000, 30000, snapshots),
            Suite::new("many", 120, 1500, many),
            Suite::enumerate("limits", 2, limits).threads(2),
            Suite::new("long-list", 2, 8, long_list).threads(2),
            Suite::new("full-table", 0, 1, full_table),
        ],
    );
    p.assumptions = &["the image is built on an empty stream (the three unused partition tables are not written)"];
    p
}
