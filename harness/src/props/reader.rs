//! C03: the reader against the plaintext model of images from the reference encoder.
use crate::engine::*;
use crate::model::*;
use crate::refimage::*;
use crate::sut::*;
use crate::wiiref::*;
use disc_riider::{FstNode, WiiIsoReader, WiiPartitionReadInfo};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::Arc;

pub fn same_fst(got: &[FstNode], want: &[FNode]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("directory has {} entries {:?} instead of {}", got.len(), got.iter().map(|n| n.get_name()).take(20).collect::<Vec<_>>(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        match (g, w) {
            (FstNode::File { name, offset, length }, FNode::File { name: n, off, len }) => {
                if name != n || offset != off || length != len {
                    return Err(format!("file {name:?} at {offset:#x}+{length:#x} instead of {n:?} at {off:#x}+{len:#x}"));
                }
            }
            (FstNode::Directory { name, files }, FNode::Dir { name: n, kids }) => {
                if name != n {
                    return Err(format!("directory {name:?} instead of {n:?}"));
                }
                same_fst(files, kids)?;
            }
            _ => return Err(format!("{:?} has the wrong node type", w.name())),
        }
    }
    Ok(())
}

pub fn check_top<RS: Read + Seek>(r: &WiiIsoReader<RS>, img: &RefImage) -> Result<(), String> {
    let h = from_hdr(r.get_header());
    if h != img.hdr {
        return Err(show("disc header", h, img.hdr.clone()));
    }
    if *r.get_region() != img.region {
        return Err(show("region", *r.get_region(), img.region));
    }
    let got: Vec<(u32, u64)> = r.partitions().iter().map(|p| (type_num(p.get_type()), p.get_offset())).collect();
    let want: Vec<(u32, u64)> = img.parts.iter().map(|p| (p.def.ptype, p.off)).collect();
    if got != want {
        return Err(show("partitions (type, offset)", got, want));
    }
    Ok(())
}

pub fn check_meta(p: &WiiPartitionReadInfo, w: &RefPart) -> Result<(), String> {
    if type_num(p.get_partition_type()) != w.def.ptype || p.get_partition_offset() != w.off {
        return Err(format!("partition type {:?} offset {:#x}", p.get_partition_type(), p.get_partition_offset()));
    }
    let h = p.get_partition_header();
    let t = from_ticket(&h.ticket);
    if t != w.def.ticket {
        return Err(show("ticket", t, w.def.ticket.clone()));
    }
    let f = [h.tmd_size as u64, *h.tmd_off, h.cert_chain_size as u64, *h.cert_chain_off, *h.global_hash_table_off, *h.data_off, *h.data_size];
    let g: Vec<u64> = (0..7).map(|i| {
        let v = get32(&w.part_header, 0x2A4 + 4 * i) as u64;
        if i == 0 || i == 2 { v } else { v << 2 }
    }).collect();
    if f[..] != g[..] {
        return Err(show("partition header fields", f.to_vec(), g));
    }
    let h = from_hdr(p.get_encrypted_header());
    if h != w.hdr {
        return Err(show("partition disc header", h, w.hdr.clone()));
    }
    same_fst(p.get_fst().get_entries(), &w.fst)
}

/// outcome of a read at `off` for `len` bytes in a stream of the partition
fn judge(what: &str, w: &RefPart, off: u64, got: &[u8]) -> Result<(), String> {
    if !got.is_empty() && off.saturating_add(got.len() as u64) > w.readable() {
        if w.data_size > w.plain.size {
            // the declared size is larger than the stored data: only the stored part is specified
            let keep = w.plain.size.saturating_sub(off) as usize;
            return short_diff(what, &got[..keep.min(got.len())], &w.plain.slice(off, keep as u64));
        }
        return Err(format!("{what}: {:#x} bytes at {off:#x}, beyond the end of the data at {:#x}", got.len(), w.readable()));
    }
    short_diff(what, got, &w.plain.slice(off, got.len() as u64))
}

/// positions worth reading at
fn gen_pos(src: &mut Src, w: &RefPart) -> u64 {
    let end = w.plain.size;
    let p = match src.weighted(&[3, 3, 3, 1, 2]) {
        0 => {
            let (o, s) = src.pick(&w.plain.segs);
            let e = o + s.len();
            *src.pick(&[*o, e]) as i64 + src.range(0, 64) as i64 - 32
        }
        1 => {
            let step = *src.pick(&[BDATA as u64, GDATA as u64, 0x400]);
            (step * src.below(end / step + 1)) as i64 + *src.pick(&[0i64, -1, 1, -16, 16, -0x400])
        }
        2 => src.below(end) as i64,
        3 => end as i64 + *src.pick(&[0i64, -1, 1, -5, 0x7C00, -0x7C00, 0x1F0000]),
        _ => {
            let (o, s) = src.pick(&w.plain.segs);
            (o + src.below(s.len().max(1))) as i64
        }
    };
    p.max(0) as u64
}

fn gen_rlen(src: &mut Src, max: u64) -> u64 {
    match src.weighted(&[4, 3, 2, 1]) {
        0 => src.range(0, 300),
        1 => src.range(1, 0x9000),
        2 => *src.pick(&[BDATA as u64, 2 * BDATA as u64 + 1, 0x8000, 0x400, 1, 0x10000]),
        _ => src.range(1, max),
    }
}

/// read `len` bytes with read(); short reads are allowed while they make progress
pub fn read_n(r: &mut impl Read, len: u64) -> std::io::Result<Vec<u8>> {
    let mut v = vec![0xEEu8; len as usize];
    let mut n = 0;
    while n < v.len() {
        match r.read(&mut v[n..]) {
            Ok(0) => break,
            Ok(k) => n += k,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e),
        }
    }
    v.truncate(n);
    Ok(v)
}

fn want_len(w: &RefPart, off: u64, len: u64) -> u64 {
    len.min(w.readable().saturating_sub(off))
}

pub fn one_op<RS: Read + Seek>(ctx: &mut Ctx, r: &mut WiiIsoReader<RS>, p: &mut WiiPartitionReadInfo, w: &RefPart, log: &mut Vec<String>) -> Result<(), String> {
    let src = &mut ctx.src;
    let ambiguous = w.data_size > w.plain.size;
    match src.weighted(&[4, 4, 4, 6, 1, 1, 1, 1, 1, 1]) {
        0 => {
            let off = gen_pos(src, w);
            let len = gen_rlen(src, 0x300000);
            log.push(format!("read_into_vec({off:#x}, {len:#x})"));
            let mut v = vec![7u8; src.usize(0, 40)];
            let res = p.get_crypto_reader(r).read_into_vec(off, len, &mut v);
            match res {
                Ok(()) => {
                    if v.len() as u64 != want_len(w, off, len) && !(ambiguous && off + len > w.plain.size) {
                        return Err(format!("read_into_vec({off:#x}, {len:#x}) gives {:#x} bytes", v.len()));
                    }
                    judge("read_into_vec", w, off, &v)?;
                }
                Err(e) => {
                    if off + len <= w.readable() {
                        return Err(format!("read_into_vec({off:#x}, {len:#x}) fails: {e}"));
                    }
                }
            }
        }
        1 => {
            // raw stream session
            let mut c = p.get_crypto_reader(r);
            let mut pos = gen_pos(src, w);
            log.push(format!("stream at {pos:#x}"));
            let at = c.seek(SeekFrom::Start(pos)).map_err(|e| format!("seek: {e}"))?;
            if at != pos {
                return Err(format!("seek to {pos:#x} reports {at:#x}"));
            }
            for _ in 0..src.usize(1, 5) {
                match src.weighted(&[4, 2, 1, 1, 1]) {
                    0 => {
                        let len = gen_rlen(src, 0x200000);
                        match read_n(&mut c, len) {
                            Ok(v) => {
                                if ambiguous && pos + len > w.plain.size {
                                    judge("stream read", w, pos, &v)?;
                                    return Ok(());
                                }
                                if v.len() as u64 != want_len(w, pos, len) {
                                    return Err(format!("stream read of {len:#x} at {pos:#x} gives {:#x} bytes (end {:#x})", v.len(), w.readable()));
                                }
                                judge("stream read", w, pos, &v)?;
                                pos += v.len() as u64;
                            }
                            Err(e) => {
                                if ambiguous && pos + len > w.plain.size {
                                    return Ok(());
                                }
                                return Err(format!("stream read of {len:#x} at {pos:#x} fails: {e}"));
                            }
                        }
                    }
                    1 => {
                        let d = src.range(0, 0x20000) as i64 - 0x10000;
                        if pos as i64 + d < 0 {
                            // before the start: refused, or the position is some place that is not further on
                            log.push(format!("stream seek by {d} at {pos:#x}"));
                            match c.seek(SeekFrom::Current(d)) {
                                Ok(at) if at > pos => return Err(format!("seek by {d} at {pos:#x} reports {at:#x}")),
                                Ok(at) => pos = at,
                                Err(_) => {}
                            }
                            continue;
                        }
                        let at = c.seek(SeekFrom::Current(d)).map_err(|e| format!("relative seek: {e}"))?;
                        pos = (pos as i64 + d) as u64;
                        if at != pos {
                            return Err(format!("relative seek by {d} reports {at:#x} instead of {pos:#x}"));
                        }
                    }
                    2 => {
                        pos = gen_pos(src, w);
                        c.seek(SeekFrom::Start(pos)).map_err(|e| format!("seek: {e}"))?;
                    }
                    4 => {
                        // far beyond the end: refused, or nothing is read there
                        let to = if src.bool() { SeekFrom::Start(u64::MAX - src.below(0x40000)) } else { SeekFrom::Current(i64::MAX - src.below(0x40000) as i64) };
                        log.push(format!("stream seek {to:?}"));
                        if let Ok(at) = c.seek(to) {
                            if at <= w.readable() {
                                return Err(format!("seek {to:?} reports {at:#x}"));
                            }
                            if let Ok(v) = read_n(&mut c, 0x100) {
                                if !v.is_empty() {
                                    return Err(format!("read {} bytes after seek {to:?} to {at:#x}", v.len()));
                                }
                            }
                        }
                        pos = gen_pos(src, w);
                        let at = c.seek(SeekFrom::Start(pos)).map_err(|e| format!("seek: {e}"))?;
                        if at != pos {
                            return Err(format!("seek to {pos:#x} reports {at:#x}"));
                        }
                    }
                    _ => {
                        // a positioned read in between leaves the stream position alone
                        let off = gen_pos(src, w);
                        let mut v = vec![];
                        if off + 0x100 <= w.readable() {
                            c.read_into_vec(off, 0x100, &mut v).map_err(|e| format!("read_into_vec: {e}"))?;
                            judge("positioned read", w, off, &v)?;
                        }
                        let at = c.stream_position().map_err(|e| format!("{e}"))?;
                        if at != pos {
                            return Err(format!("position {at:#x} instead of {pos:#x} after a positioned read"));
                        }
                    }
                }
            }
        }
        2 => {
            // window
            let start = gen_pos(src, w);
            let len = if src.chance(1, 4) { None } else { Some(gen_rlen(src, 0x200000)) };
            log.push(format!("window {start:#x} {len:x?}"));
            let size = w.readable().saturating_sub(start).min(len.unwrap_or(u64::MAX));
            let mut f = p.open_window(r, start, len);
            let mut pos = 0u64;
            for _ in 0..src.usize(1, 4) {
                if src.bool() {
                    pos = src.below(size.min(1 << 22) + 3);
                    let at = f.seek(SeekFrom::Start(pos)).map_err(|e| format!("window seek: {e}"))?;
                    if at != pos {
                        return Err(format!("window seek to {pos:#x} reports {at:#x}"));
                    }
                }
                let n = gen_rlen(src, 0x100000);
                let want = n.min(size.saturating_sub(pos));
                match read_n(&mut f, n) {
                    Ok(v) => {
                        if ambiguous && start + pos + n > w.plain.size {
                            judge("window read", w, start + pos, &v)?;
                            return Ok(());
                        }
                        if v.len() as u64 != want {
                            return Err(format!("window {start:#x} {len:x?}: read of {n:#x} at {pos:#x} gives {:#x} bytes instead of {want:#x}", v.len()));
                        }
                        judge("window read", w, start + pos, &v)?;
                        pos += want;
                    }
                    Err(e) => {
                        if ambiguous && start + pos + n > w.plain.size {
                            return Ok(());
                        }
                        return Err(format!("window read fails: {e}"));
                    }
                }
            }
        }
        3 => {
            // file
            let fl = flat(&w.fst);
            if fl.is_empty() {
                return Ok(());
            }
            let (path, off, len) = src.pick(&fl).clone();
            let name = path.join("/");
            log.push(format!("file {name:?} {off:#x}+{len:#x}"));
            let mut f = p.open_file(r, &name).ok_or_else(|| format!("{name:?} cannot be opened"))?;
            let len = len as u64;
            if src.chance(1, 3) && len < 64 << 20 {
                let mut v = vec![];
                f.read_to_end(&mut v).map_err(|e| format!("{name:?}: {e}"))?;
                return short_diff(&name, &v, &w.plain.slice(off, len));
            }
            let mut pos = 0u64;
            for _ in 0..src.usize(1, 4) {
                match src.below(3) {
                    0 => {
                        pos = src.below(len + 2);
                        f.seek(SeekFrom::Start(pos)).map_err(|e| format!("{name:?}: {e}"))?;
                    }
                    1 => {
                        let back = src.below(len + 1);
                        let at = f.seek(SeekFrom::End(-(back as i64))).map_err(|e| format!("{name:?}: {e}"))?;
                        pos = len - back;
                        if at != pos {
                            return Err(format!("{name:?}: seek from the end reports {at:#x} instead of {pos:#x}"));
                        }
                    }
                    _ => {}
                }
                let n = gen_rlen(src, len.clamp(1, 1 << 22));
                let v = read_n(&mut f, n).map_err(|e| format!("{name:?}: {e}"))?;
                let want = n.min(len.saturating_sub(pos));
                if v.len() as u64 != want {
                    return Err(format!("{name:?}: read of {n:#x} at {pos:#x} of {len:#x} gives {:#x} bytes", v.len()));
                }
                short_diff(&name, &v, &w.plain.slice(off + pos, want))?;
                pos += want;
            }
        }
        4 => {
            log.push("bi2".into());
            short_diff("bi2", &p.read_bi2(r).map_err(|e| format!("read_bi2: {e}"))?, &w.def.bi2)?
        }
        5 => {
            log.push("apploader".into());
            short_diff("apploader", &p.read_apploader(r).map_err(|e| format!("read_apploader: {e}"))?, &w.def.app)?
        }
        6 => {
            log.push("dol".into());
            short_diff("DOL", &p.read_dol(r).map_err(|e| format!("read_dol: {e}"))?, &w.def.dol)?
        }
        7 => {
            log.push("tmd".into());
            let t = from_tmd(&p.read_tmd(r).map_err(|e| format!("read_tmd: {e}"))?);
            if t != w.def.tmd {
                return Err(show("TMD", t, w.def.tmd.clone()));
            }
        }
        8 => {
            log.push("certificates".into());
            let c: Vec<RCert> = p.read_certificates(r).map_err(|e| format!("read_certificates: {e}"))?.iter().map(from_cert).collect();
            if c != w.def.certs {
                return Err("certificates differ".into());
            }
        }
        _ => {
            log.push("open absent".into());
            // directories and names that are not there cannot be opened as files
            fn dirs(t: &[FNode], pre: &str, out: &mut Vec<String>) {
                for n in t {
                    if let FNode::Dir { name, kids } = n {
                        let p = format!("{pre}{name}");
                        dirs(kids, &format!("{p}/"), out);
                        out.push(p);
                    }
                }
            }
            let mut d = vec![];
            dirs(&w.fst, "", &mut d);
            d.push("definitely/not/there".into());
            let n = src.pick(&d).clone();
            if p.open_file(r, &n).is_some() {
                return Err(format!("{n:?} opens as a file"));
            }
        }
    }
    Ok(())
}

pub fn history<RS: Read + Seek>(ctx: &mut Ctx, rs: RS, img: &RefImage, steps: usize) -> Result<(), String> {
    let mut r = WiiIsoReader::open(rs).map_err(|e| format!("open: {e}"))?;
    check_top(&r, img)?;
    let mut open: Vec<(usize, WiiPartitionReadInfo)> = vec![];
    let mut log = vec![];
    for s in 0..steps {
        if open.is_empty() || (open.len() < 4 && ctx.src.chance(1, 4)) {
            let i = ctx.src.usize(0, img.parts.len() - 1);
            let e = r.partitions()[i].clone();
            let p = r.open_partition(e).map_err(|e| format!("open_partition {i}: {e}"))?;
            check_meta(&p, &img.parts[i]).map_err(|e| format!("partition {i}: {e}"))?;
            open.push((i, p));
        }
        let k = ctx.src.usize(0, open.len() - 1);
        let (i, p) = &mut open[k];
        log.push(format!("#{s} handle {k} part {i}"));
        let pi = *i;
        one_op(ctx, &mut r, p, &img.parts[pi], &mut log).map_err(|e| format!("partition {pi}, history {}: {e}", log[log.len().saturating_sub(8)..].join(", ")))?;
    }
    ctx.label_if(open.len() > 1, "several partition handles interleaved");
    ctx.describe(log.join(", "));
    Ok(())
}

fn classify(ctx: &mut Ctx, img: &RefImage) {
    ctx.label_if(img.parts.len() > 1, "several partitions");
    for p in &img.parts {
        ctx.label_if(p.groups > 1, "several groups");
        ctx.label_if(p.off >= 4 << 30, "partition beyond 4 GiB");
        ctx.label_if(p.hdr.fst_off >= 4 << 30, "file table beyond 4 GiB inside the partition");
        ctx.label_if(flat(&p.fst).iter().any(|f| f.1 >= 4 << 30), "file beyond 4 GiB inside the partition");
        ctx.label_if(flat(&p.fst).iter().any(|f| f.2 >= 1 << 31), "file of 2 GiB or more");
        ctx.label_if(p.off + p.data_off >= 1 << 34, "data beyond 16 GiB");
        ctx.label_if(p.data_size < p.plain.size, "data size ends inside the last group");
        ctx.label_if(p.data_size > p.plain.size, "data size counts encrypted bytes");
        ctx.label_if(p.data_off % 0x8000 != 0, "data not block aligned");
        ctx.label_if(p.hdr.fst_off < p.hdr.dol_off, "file table before the executable");
        if p.groups > 1 || img.parts.len() > 1 || count(&p.def.tree).0 > 1 {
            ctx.nontrivial();
        }
    }
    ctx.label_if(img.parts.len() > 4, "long partition table");
    ctx.describe(img.describe());
}

fn small(ctx: &mut Ctx) -> Result<(), String> {
    let mut o = IMG;
    o.max_parts = 3;
    o.max_groups = 3;
    o.tree.no_case_collisions = false;
    o.tree.big = ctx.src.chance(1, 4);
    o.many = true;
    let img = gen_image(&mut ctx.src, &o);
    classify(ctx, &img);
    let steps = ctx.src.usize(4, 40);
    if img.parts.iter().map(|p| p.groups).sum::<u64>() <= 6 {
        let v = img.to_vec();
        return history(ctx, Cursor::new(v), &img, steps);
    }
    let img = Arc::new(img);
    history(ctx, VReader::new(img.clone()), &img, steps)
}

fn giant(ctx: &mut Ctx) -> Result<(), String> {
    let mut o = IMG;
    o.max_parts = 3;
    o.giant = true;
    o.tree.max_nodes = 8;
    o.huge = ctx.src.chance(1, 3);
    let img = Arc::new(gen_image(&mut ctx.src, &o));
    classify(ctx, &img);
    let steps = ctx.src.usize(4, 30);
    history(ctx, VReader::new(img.clone()), &img, steps)
}

/// every file and area of an image read completely, in tree order
pub fn read_everything<RS: Read + Seek>(r: &mut WiiIsoReader<RS>, img: &RefImage) -> Result<(), String> {
    check_top(r, img)?;
    for (i, w) in img.parts.iter().enumerate() {
        let e = r.partitions()[i].clone();
        let mut p = r.open_partition(e).map_err(|e| format!("open_partition {i}: {e}"))?;
        check_meta(&p, w).map_err(|e| format!("partition {i}: {e}"))?;
        short_diff("bi2", &p.read_bi2(r).map_err(|e| format!("read_bi2: {e}"))?, &w.def.bi2)?;
        short_diff("apploader", &p.read_apploader(r).map_err(|e| format!("read_apploader: {e}"))?, &w.def.app)?;
        short_diff("DOL", &p.read_dol(r).map_err(|e| format!("read_dol: {e}"))?, &w.def.dol)?;
        let t = from_tmd(&p.read_tmd(r).map_err(|e| format!("read_tmd: {e}"))?);
        if t != w.def.tmd {
            return Err(show("TMD", t, w.def.tmd.clone()));
        }
        let c: Vec<RCert> = p.read_certificates(r).map_err(|e| format!("read_certificates: {e}"))?.iter().map(from_cert).collect();
        if c != w.def.certs {
            return Err("certificates differ".into());
        }
        for (path, off, len) in flat(&w.fst) {
            let name = path.join("/");
            let mut f = p.open_file(r, &name).ok_or_else(|| format!("{name:?} cannot be opened"))?;
            let mut v = vec![];
            f.read_to_end(&mut v).map_err(|e| format!("{name:?}: {e}"))?;
            short_diff(&name, &v, &w.plain.slice(off, len as u64))?;
        }
        // the raw stream from start to end
        let mut c = p.get_crypto_reader(r);
        c.seek(SeekFrom::Start(0)).map_err(|e| format!("seek: {e}"))?;
        let mut pos = 0u64;
        while pos < w.readable().min(4 * GDATA as u64) {
            let v = read_n(&mut c, 0x23456.min(w.readable() - pos)).map_err(|e| format!("stream at {pos:#x}: {e}"))?;
            if v.is_empty() {
                return Err(format!("the stream ends at {pos:#x} instead of {:#x}", w.readable()));
            }
            judge("stream", w, pos, &v)?;
            pos += v.len() as u64;
        }
    }
    Ok(())
}

fn whole(ctx: &mut Ctx) -> Result<(), String> {
    let mut o = IMG;
    o.max_parts = 3;
    o.max_groups = 4;
    o.tree.no_case_collisions = false;
    let img = Arc::new(gen_image(&mut ctx.src, &o));
    classify(ctx, &img);
    // the stream's position before opening does not matter
    let mut v = VReader::new(img.clone());
    v.pos = ctx.src.int(36);
    let mut r = WiiIsoReader::open(v).map_err(|e| format!("open: {e}"))?;
    read_everything(&mut r, &img)
}

pub fn c03() -> Property {
    let mut p = Property::new(
        "C03",
        "one case = one well-formed image from the reference encoder (random placement of tables, partitions, metadata, system areas, file table and files; both common keys; data-size conventions; offsets beyond 4 GiB) and one history of reads and seeks over several partition handles, files, windows and raw streams, each result compared with the plaintext model; non-trivial = several partitions, several groups or more than one file",
        vec![
            Suite::new("small", 3000, 60000, small),
            Suite::new("whole", 700, 12000, whole),
            Suite::new("giant", 320, 6000, giant),
        ],
    );
    p.assumptions = &[
        "well-formed = encrypted Wii disc with partition types 0, 1, 2 and common keys 0 or 1; data size a whole number of blocks; when the data size field counts encrypted bytes, reads behind the stored plaintext are not judged",
        "seeking a raw partition stream from its end is not supported and not judged",
    ];
    p
}
