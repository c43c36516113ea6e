//! C04: windows and opened files against a bounded-file model.
use crate::engine::*;
use crate::io::MemFile;
use crate::refimage::*;
use disc_riider::{IOWindow, WiiIsoReader};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

/// Bytes of a source: in memory, or given by their position with what was written on top of it.
enum Bytes {
    Mem(Vec<u8>),
    Far(FarFile),
}
impl Bytes {
    fn len(&self) -> usize {
        match self {
            Bytes::Mem(d) => d.len(),
            Bytes::Far(f) => f.size as usize,
        }
    }
    fn get(&self, a: usize, n: usize) -> std::borrow::Cow<'_, [u8]> {
        match self {
            Bytes::Mem(d) => std::borrow::Cow::Borrowed(&d[a..a + n]),
            Bytes::Far(f) => std::borrow::Cow::Owned((a..a + n).map(|p| f.at(p as u64)).collect()),
        }
    }
    fn put(&mut self, a: usize, b: &[u8]) {
        match self {
            Bytes::Mem(d) => {
                if d.len() < a + b.len() {
                    d.resize(a + b.len(), 0);
                }
                d[a..a + b.len()].copy_from_slice(b);
            }
            Bytes::Far(f) => f.put(a as u64, b),
        }
    }
    fn mem(&self) -> &Vec<u8> {
        match self {
            Bytes::Mem(d) => d,
            Bytes::Far(_) => panic!("HARNESS: not in memory"),
        }
    }
}

/// A file of many gigabytes whose bytes follow from their position.
#[derive(Clone, PartialEq)]
struct FarFile {
    size: u64,
    pos: u64,
    over: std::collections::BTreeMap<u64, u8>,
}
impl FarFile {
    fn at(&self, p: u64) -> u8 {
        self.over.get(&p).copied().unwrap_or_else(|| mix(p / 8).to_le_bytes()[(p % 8) as usize])
    }
    fn put(&mut self, a: u64, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        for (i, x) in b.iter().enumerate() {
            self.over.insert(a + i as u64, *x);
        }
        self.size = self.size.max(a + b.len() as u64);
    }
}
impl Read for FarFile {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.size.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = self.at(self.pos + i as u64);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for FarFile {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.size.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        let p = self.pos;
        self.put(p, &buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for FarFile {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let t = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(o) => self.size as i128 + o as i128,
        };
        if t < 0 || t > i64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

/// A file of fixed or open size inside a byte array.
struct Model {
    data: Bytes,
    start: u64,
    len: Option<u64>,
    pos: u64,
}

impl Model {
    /// bytes that exist from pos on inside the window
    fn avail(&self) -> u64 {
        let src_left = (self.data.len() as u64).saturating_sub(self.start.saturating_add(self.pos));
        match self.len {
            Some(l) => src_left.min(l.saturating_sub(self.pos)),
            None => src_left,
        }
    }
    /// no file can be positioned here: a transfer may find nothing or fail
    fn unreachable(&self) -> bool {
        self.start.saturating_add(self.pos) > i64::MAX as u64 - 256
    }
    fn peek(&self, n: u64) -> std::borrow::Cow<'_, [u8]> {
        let a = self.start.saturating_add(self.pos).min(self.data.len() as u64) as usize;
        let n = n.min(self.avail()) as usize;
        self.data.get(a, n)
    }
}

#[derive(Debug, Clone)]
enum Op {
    Read(usize),
    ReadExact(usize),
    ReadToEnd,
    Write(usize),
    WriteAll(usize),
    Start(u64),
    Cur(i64),
    End(i64),
    Tell,
    Flush,
}

fn gen_op(src: &mut Src, wlen: u64, writable: bool, far: bool) -> Op {
    let n = |src: &mut Src| -> usize {
        match src.weighted(&[4, 2, 1]) {
            0 => src.usize(0, 12),
            1 => src.usize(0, 80),
            _ => wlen.min(200) as usize + src.usize(0, 2),
        }
    };
    match src.weighted(&[5, 4, 1, if writable { 4 } else { 0 }, if writable { 2 } else { 0 }, 4, 4, 3, 2, 1, if far { 1 } else { 0 }]) {
        0 => Op::Read(n(src)),
        1 => Op::ReadExact(n(src)),
        2 => Op::ReadToEnd,
        3 => Op::Write(n(src)),
        4 => Op::WriteAll(n(src)),
        5 => Op::Start(src.range(0, wlen + 6)),
        6 => Op::Cur(src.range(0, 2 * wlen + 12) as i64 - wlen as i64 - 6),
        7 => Op::End(src.range(0, wlen + 12) as i64 - wlen as i64 - 6),
        8 => Op::Tell,
        9 => Op::Flush,
        _ => {
            let d = 1u64 << src.range(31, 61);
            match src.below(7) {
                0 => Op::Start(d + src.below(3) - 1),
                1 => Op::Cur(d as i64),
                2 => Op::Cur(-(d as i64)),
                3 => Op::Start(u64::MAX - src.below(2 * wlen + 20)),
                4 => Op::Start((1u64 << 63) - 10 + src.below(wlen + 20)),
                5 => Op::Cur(i64::MAX - src.below(12) as i64),
                _ => Op::Cur(i64::MIN + src.below(12) as i64),
            }
        }
    }
}

/// `offset` must not be moved by a failing seek; a seek before the start may also clamp to 0.
/// Targets beyond what any file can have may be refused or end up at the largest position, but not elsewhere.
fn check_seek(m: &mut Model, target: i128, r: std::io::Result<u64>, what: &str) -> Result<(), String> {
    let limit = i64::MAX as i128 - m.start as i128 - 256;
    if target > limit {
        if let Ok(p) = r {
            if (p as i128) < limit {
                return Err(format!("{what} to {target} reports position {p}"));
            }
            m.pos = p;
        }
        return Ok(());
    }
    match r {
        Ok(p) => {
            if target < 0 {
                if p != 0 {
                    return Err(format!("{what} before the start reports position {p}"));
                }
                m.pos = 0;
            } else {
                if p as i128 != target {
                    return Err(format!("{what} reports position {p} instead of {target}"));
                }
                m.pos = p;
            }
            Ok(())
        }
        Err(_) if target < 0 => Ok(()),
        Err(e) => Err(format!("{what} to {target} failed: {e}")),
    }
}

/// drive one stream with generated operations
fn drive<S: Read + Seek>(ctx: &mut Ctx, s: &mut S, m: &mut Model, ops: &[Op], mut wr: impl FnMut(&mut S, &[u8], bool) -> std::io::Result<usize>, growable: bool, base: usize) -> Result<(), String> {
    let mut wcount = base as u8;
    for (i, op) in ops.iter().enumerate() {
        let e = |x: String| format!("op {i} {op:?} at position {} of window start {} len {:?}: {x}", m.pos, m.start, m.len);
        match op {
            Op::Read(n) => {
                let mut b = vec![0xEE; *n];
                let k = match s.read(&mut b) {
                    Ok(k) => k,
                    Err(_) if m.unreachable() => 0,
                    Err(x) => return Err(e(format!("failed: {x}"))),
                };
                let want = m.peek(*n as u64);
                if k > want.len() || b[..k] != want[..k] {
                    return Err(e(format!("returned {k} bytes {:?}, the window holds {:?}", &b[..k.min(16)], &want[..want.len().min(16)])));
                }
                if k == 0 && !want.is_empty() {
                    return Err(e("returned end of file early".into()));
                }
                if b[k..].iter().any(|x| *x != 0xEE) {
                    return Err(e("changed the buffer beyond the bytes it reports".into()));
                }
                m.pos += k as u64;
            }
            Op::ReadExact(n) => {
                let mut b = vec![0xEE; *n];
                let r = s.read_exact(&mut b);
                let enough = m.avail() >= *n as u64;
                match r {
                    Ok(()) => {
                        if !enough {
                            return Err(e(format!("succeeded although only {} bytes remain", m.avail())));
                        }
                        if b[..] != m.peek(*n as u64)[..] {
                            return Err(e("returned wrong bytes".into()));
                        }
                        m.pos += *n as u64;
                    }
                    Err(x) => {
                        if enough && !m.unreachable() {
                            return Err(e(format!("failed ({x}) although {} bytes remain", m.avail())));
                        }
                        // the position is unspecified after a failed exact read: but inside the window data
                        let p = s.stream_position().map_err(|x| e(format!("position: {x}")))?;
                        if p < m.pos || p > m.pos + m.avail() {
                            return Err(e(format!("a failed exact read left the position at {p}")));
                        }
                        m.pos = p;
                        ctx.label("exact read beyond the end");
                    }
                }
            }
            Op::ReadToEnd => {
                let mut b = vec![];
                match s.read_to_end(&mut b) {
                    Err(x) if !m.unreachable() => return Err(e(format!("failed: {x}"))),
                    _ => {}
                }
                let want = m.peek(u64::MAX);
                if b[..] != want[..] {
                    return Err(e(format!("returned {} bytes instead of {}", b.len(), want.len())));
                }
                m.pos += b.len() as u64;
            }
            Op::Write(n) | Op::WriteAll(n) => {
                let all = matches!(op, Op::WriteAll(_));
                wcount = wcount.wrapping_add(1);
                let data: Vec<u8> = (0..*n).map(|j| wcount.wrapping_mul(31).wrapping_add(j as u8) | 0x80).collect();
                let room = match m.len {
                    Some(l) => l.saturating_sub(m.pos),
                    None => u64::MAX,
                };
                let src_room = if growable { u64::MAX } else { (m.data.len() as u64).saturating_sub(m.start.saturating_add(m.pos)) };
                let room = room.min(src_room);
                let r = wr(s, &data, all);
                let k = match r {
                    Ok(k) => k,
                    Err(x) => {
                        if all && (*n as u64) > room {
                            // everything that fits may have been written
                            let p = s.stream_position().map_err(|x| e(format!("position: {x}")))?;
                            if p < m.pos || p > m.pos + room {
                                return Err(e(format!("a failed write_all left the position at {p}")));
                            }
                            ctx.label("write beyond the end");
                            (p - m.pos) as usize
                        } else if m.unreachable() {
                            0
                        } else {
                            return Err(e(format!("failed: {x}")));
                        }
                    }
                };
                if k as u64 > room || k > *n {
                    return Err(e(format!("claims to have written {k} bytes, the window has room for {room}")));
                }
                if k == 0 && *n > 0 && room > 0 && !m.unreachable() {
                    return Err(e("wrote nothing although there is room".into()));
                }
                let a = m.start.saturating_add(m.pos) as usize;
                if k > 0 {
                    m.data.put(a, &data[..k]);
                }
                m.pos += k as u64;
            }
            Op::Start(o) => check_seek(m, *o as i128, s.seek(SeekFrom::Start(*o)), "seek from start").map_err(|x| format!("op {i}: {x}"))?,
            Op::Cur(o) => {
                let t = m.pos as i128 + *o as i128;
                check_seek(m, t, s.seek(SeekFrom::Current(*o)), "relative seek").map_err(|x| format!("op {i}: {x}"))?
            }
            Op::End(o) => match m.len {
                Some(l) => {
                    let t = l as i128 + *o as i128;
                    check_seek(m, t, s.seek(SeekFrom::End(*o)), "seek from end").map_err(|x| format!("op {i}: {x}"))?
                }
                None => {
                    if let Ok(p) = s.seek(SeekFrom::End(*o)) {
                        // size of an unbounded window is the rest of the source
                        let t = m.data.len() as i128 - m.start as i128 + *o as i128;
                        if p as i128 != t.max(0) {
                            return Err(e(format!("went to {p}")));
                        }
                        m.pos = p;
                    }
                }
            },
            Op::Tell => {}
            Op::Flush => {}
        }
        let p = s.stream_position().map_err(|x| format!("op {i} {op:?}: position: {x}"))?;
        if p != m.pos {
            return Err(format!("op {i} {op:?}: reported position is {p} instead of {}", m.pos));
        }
    }
    Ok(())
}

/// window over an in-memory source, read and write
fn cursor_window(ctx: &mut Ctx) -> Result<(), String> {
    let total = ctx.src.usize(0, 120);
    let mut data = vec![0u8; total];
    for (i, b) in data.iter_mut().enumerate() {
        *b = (i * 3 + 1) as u8 & 0x7f;
    }
    let start = ctx.src.usize(0, total);
    let len = match ctx.src.weighted(&[6, 2, 1]) {
        0 => Some(ctx.src.usize(0, total - start) as u64),
        1 => None,
        // window reaching past the end of the source
        _ => Some((total - start + ctx.src.usize(0, 10)) as u64),
    };
    let initial = ctx.src.range(0, total as u64 + 5);
    let growable = ctx.src.bool();
    let n = ctx.src.usize(1, 30);
    let wlen = len.unwrap_or((total - start) as u64);
    let ops: Vec<Op> = (0..n).map(|_| gen_op(&mut ctx.src, wlen, true, len.is_some() || !growable)).collect();
    ctx.describe(format!("source {total} initial position {initial} window {start}+{len:?} growable {growable}: {ops:?}"));
    let first_rel = matches!(ops.first(), Some(Op::Cur(_)));
    ctx.label_if(first_rel, "relative seek before any read");
    ctx.label_if(len.is_none(), "unbounded window");
    ctx.label_if(ops.iter().any(|o| matches!(o, Op::Write(_) | Op::WriteAll(_))), "with writes");
    if n >= 3 && wlen > 0 {
        ctx.nontrivial();
    }
    let mut m = Model { data: Bytes::Mem(data.clone()), start: start as u64, len, pos: 0 };
    let after = if growable {
        let mut cur = MemFile::new(data.clone());
        cur.pos = initial;
        {
            let mut w = IOWindow::new(&mut cur, start as u64, len);
            drive(ctx, &mut w, &mut m, &ops, |s, d, all| if all { s.write_all(d).map(|_| d.len()) } else { s.write(d) }, true, 0)?;
            w.flush().map_err(|e| format!("flush: {e}"))?;
        }
        cur.data
    } else {
        let mut buf = data.clone();
        {
            let mut cur = Cursor::new(&mut buf[..]);
            cur.set_position(initial);
            let mut w = IOWindow::new(&mut cur, start as u64, len);
            drive(ctx, &mut w, &mut m, &ops, |s, d, all| if all { s.write_all(d).map(|_| d.len()) } else { s.write(d) }, false, 0)?;
            w.flush().map_err(|e| format!("flush: {e}"))?;
        }
        buf
    };
    if after != *m.data.mem() {
        let i = after.iter().zip(m.data.mem()).position(|(a, b)| a != b).unwrap_or(after.len().min(m.data.len()));
        return Err(format!("source bytes differ at {i} after the history (window starts at {start}, len {len:?}): size {} instead of {}", after.len(), m.data.len()));
    }
    Ok(())
}

/// a window inside a window, over a file that is also used between operations only through the windows
fn nested(ctx: &mut Ctx) -> Result<(), String> {
    let total = 100usize;
    let data: Vec<u8> = (0..total).map(|i| (i * 7 + 3) as u8 & 0x7f).collect();
    let s1 = ctx.src.usize(0, 60);
    let l1 = if ctx.src.bool() { Some(ctx.src.range(0, (total - s1) as u64)) } else { None };
    let inner_total = l1.unwrap_or((total - s1) as u64);
    let s2 = ctx.src.range(0, inner_total);
    let l2 = if ctx.src.chance(2, 3) { Some(ctx.src.range(0, inner_total - s2)) } else { None };
    let n = ctx.src.usize(1, 20);
    let wl = l2.unwrap_or(inner_total - s2);
    let ops: Vec<Op> = (0..n).map(|_| gen_op(&mut ctx.src, wl, true, l1.is_some() || l2.is_some())).collect();
    ctx.describe(format!("outer {s1}+{l1:?} inner {s2}+{l2:?}: {ops:?}"));
    if n >= 3 && wl > 0 {
        ctx.nontrivial();
    }
    // the inner window sees the outer window as its source: bounded by it
    let bound = match (l1, l2) {
        (_, Some(l)) => Some(l),
        (Some(_), None) => None,
        _ => None,
    };
    let hard_end = s1 as u64 + inner_total;
    let mut m = Model { data: Bytes::Mem(data[..hard_end as usize].to_vec()), start: s1 as u64 + s2, len: bound, pos: 0 };
    let mut cur = MemFile::new(data.clone());
    cur.pos = ctx.src.range(0, 100);
    let growable = l1.is_none();
    {
        let mut outer = IOWindow::new(&mut cur, s1 as u64, l1);
        let _ = outer.seek(SeekFrom::Start(ctx.src.range(0, inner_total)));
        let mut w = IOWindow::new(outer, s2, l2);
        drive(ctx, &mut w, &mut m, &ops, |s, d, all| if all { s.write_all(d).map(|_| d.len()) } else { s.write(d) }, growable, 7)?;
    }
    let after = cur.data;
    let mut want = m.data.mem().clone();
    if want.len() < total {
        want.extend_from_slice(&data[want.len()..]);
    }
    if after != want {
        return Err("source bytes differ after the history".into());
    }
    Ok(())
}

/// windows that start and end beyond 4 GiB, over a source whose bytes follow from their position
fn far_window(ctx: &mut Ctx) -> Result<(), String> {
    let near = |src: &mut Src, max: u64| -> u64 {
        // around a multiple of 2^31 or a power of two, or anywhere
        let c = match src.weighted(&[4, 2, 1]) {
            0 => (1u64 << 31) * src.range(0, 9),
            1 => 1u64 << src.range(0, 42),
            _ => src.range(0, max),
        };
        (c + src.range(0, 40)).saturating_sub(20).min(max)
    };
    let size = (1u64 << 31) * ctx.src.range(2, 20) + ctx.src.range(0, 200);
    let start = near(&mut ctx.src, size);
    let len = match ctx.src.weighted(&[5, 1, 1]) {
        0 => Some(near(&mut ctx.src, size - start)),
        1 => None,
        // longer than any file
        _ => Some(match ctx.src.below(3) {
            0 => u64::MAX - ctx.src.range(0, 40),
            1 => (u64::MAX - start).saturating_add(ctx.src.range(0, 20)).saturating_sub(10),
            _ => 1u64 << ctx.src.range(40, 63),
        }),
    };
    let wlen = len.unwrap_or(u64::MAX).min(size - start);
    let from_end = len.unwrap_or(wlen);
    let n = ctx.src.usize(1, 16);
    let mut ops = vec![];
    for _ in 0..n {
        let k = ctx.src.usize(0, 60);
        let t = match ctx.src.weighted(&[3, 2]) {
            0 => near(&mut ctx.src, wlen + 30),
            // where the rest of the window is near a multiple of 2^31
            _ => wlen.saturating_sub(near(&mut ctx.src, wlen)),
        };
        ops.push(match ctx.src.weighted(&[5, 3, 2, 1, 5, 3, 3, 1]) {
            0 => Op::Read(k),
            1 => Op::ReadExact(k),
            2 => Op::Write(k),
            3 => Op::WriteAll(k),
            4 => Op::Start(t),
            5 => Op::Cur(if ctx.src.bool() { t as i64 } else { -(t as i64) }),
            6 => Op::End((t as i128 - from_end as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64 + ctx.src.range(0, 2) as i64),
            _ => Op::Tell,
        });
    }
    ctx.describe(format!("source {size:#x} window {start:#x}+{len:x?}: {ops:?}"));
    ctx.label_if(wlen > u32::MAX as u64, "window longer than 4 GiB");
    ctx.label_if(start > u32::MAX as u64, "window starts beyond 4 GiB");
    ctx.label_if(from_end > i64::MAX as u64, "window longer than any file");
    if n >= 3 && wlen > 0 {
        ctx.nontrivial();
    }
    let mut far = FarFile { size, pos: near(&mut ctx.src, size), over: Default::default() };
    let mut m = Model { data: Bytes::Far(far.clone()), start, len, pos: 0 };
    {
        let mut w = IOWindow::new(&mut far, start, len);
        drive(ctx, &mut w, &mut m, &ops, |s, d, all| if all { s.write_all(d).map(|_| d.len()) } else { s.write(d) }, false, 3)?;
        w.flush().map_err(|e| format!("flush: {e}"))?;
    }
    let Bytes::Far(want) = m.data else { unreachable!() };
    if far.over != want.over || far.size != want.size {
        return Err("source bytes differ after the history".into());
    }
    Ok(())
}

/// files and raw windows of an encrypted partition
fn partition_files(ctx: &mut Ctx) -> Result<(), String> {
    let mut o = IMG;
    o.max_parts = 1;
    o.max_groups = 3;
    o.tree.max_nodes = 8;
    o.tree.max_depth = 3;
    let img = Arc::new(gen_image(&mut ctx.src, &o));
    ctx.describe(img.describe());
    let p = &img.parts[0];
    let mut r = WiiIsoReader::open(VReader::new(img.clone())).map_err(|e| format!("open: {e}"))?;
    let e = r.partitions()[0].clone();
    let mut pi = r.open_partition(e).map_err(|e| format!("open_partition: {e}"))?;
    let fl = crate::wiiref::flat(&p.fst);
    let rounds = ctx.src.usize(1, 6);
    let readable = p.readable();
    let plain_all = p.plain.slice(0, readable);
    for _ in 0..rounds {
        let use_file = !fl.is_empty() && ctx.src.chance(3, 4);
        let n = ctx.src.usize(1, 12);
        if use_file {
            let (path, off, len) = ctx.src.pick(&fl).clone();
            let ops: Vec<Op> = (0..n).map(|_| gen_op(&mut ctx.src, len as u64, false, true)).collect();
            ctx.describe(format!("file {} {:?}", path.join("/"), ops));
            let mut m = Model { data: Bytes::Mem(plain_all.clone()), start: off, len: Some(len as u64), pos: 0 };
            let mut f = pi.open_file(&mut r, &path.join("/")).ok_or("open_file found nothing")?;
            drive(ctx, &mut f, &mut m, &ops, |_, _, _| Ok(0), false, 0).map_err(|x| format!("file {path:?}: {x}"))?;
            if len > 0 {
                ctx.nontrivial();
            }
        } else {
            let off = ctx.src.range(0, readable);
            let len = if ctx.src.bool() { Some(ctx.src.range(0, (readable - off).min(0x12000))) } else { None };
            // an unbounded window over partition data that ends with the data size field
            if len.is_none() && p.data_size > p.plain.size {
                continue;
            }
            let wl = len.unwrap_or(readable - off);
            let ops: Vec<Op> = (0..n).map(|_| gen_op(&mut ctx.src, wl, false, true)).collect();
            ctx.describe(format!("window {off:#x}+{len:?} {ops:?}"));
            let mut m = Model { data: Bytes::Mem(plain_all.clone()), start: off, len, pos: 0 };
            if ctx.src.bool() {
                let mut f = pi.open_window(&mut r, off, len);
                drive(ctx, &mut f, &mut m, &ops, |_, _, _| Ok(0), false, 0).map_err(|x| format!("window {off:#x}+{len:?}: {x}"))?;
            } else {
                let mut c = pi.get_crypto_reader(&mut r);
                let _ = c.seek(SeekFrom::Start(ctx.src.range(0, readable)));
                let mut f = c.into_window(off, len);
                drive(ctx, &mut f, &mut m, &ops, |_, _, _| Ok(0), false, 0).map_err(|x| format!("window {off:#x}+{len:?}: {x}"))?;
            }
        }
    }
    Ok(())
}

pub fn c04() -> Property {
    let mut p = Property::new(
        "C04",
        "one case = one window (or file of a generated image) with a generated history of reads, exact reads, reads to the end, writes, seeks and position queries, compared with a bounded-file model after every operation and byte for byte at the end; non-trivial = at least three operations on a non-empty window, or a file with content",
        vec![
            Suite::new("cursor-window", 1200000, 20000000, cursor_window),
            Suite::new("far-window", 200000, 3000000, far_window),
            Suite::new("nested-window", 400000, 5000000, nested),
            Suite::new("partition-files", 6000, 60000, partition_files),
        ],
    );
    p.assumptions = &["a seek to before the window start may either fail and leave the position, or clamp to the window start", "a plain read or write may transfer less than asked, but not nothing unless nothing remains"];
    p
}
