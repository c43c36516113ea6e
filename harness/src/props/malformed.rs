//! C10: malformed images and structures give an error or a value, never a panic, a crash, or an allocation sized by an
//! untrusted field.
use crate::alloc;
use crate::engine::*;
use crate::model::*;
use crate::refimage::*;
use crate::wiiref::*;
use binrw::BinReaderExt;
use disc_riider::structs::*;
use disc_riider::{Fst, FstNode, WiiIsoReader};
use serde_json::json;
use std::convert::Infallible;
use std::io::{Cursor, Read, Seek, SeekFrom};

/// largest single allocation tolerated for a stream of `len` bytes
fn allowance(len: usize) -> usize {
    (64 << 20) + 16 * len
}

#[derive(Default)]
struct Seen {
    opened: bool,
    part_opened: u32,
    part_refused: u32,
    reads: u32,
    refused: u32,
}

fn collect(nodes: &[FstNode], at: &str, out: &mut Vec<(String, u64, u32)>) {
    for n in nodes {
        if out.len() >= 4000 {
            return;
        }
        match n {
            FstNode::File { name, offset, length } => out.push((format!("{at}{name}"), *offset, *length)),
            FstNode::Directory { name, files } => collect(files, &format!("{at}{name}/"), out),
        }
    }
}

fn tally<T, E: std::fmt::Display>(s: &mut Seen, r: Result<T, E>) {
    match r {
        Ok(_) => s.reads += 1,
        Err(e) => {
            // messages must be printable as well
            let _ = e.to_string();
            s.refused += 1
        }
    }
}

/// everything a user of the reader can ask of an image
fn exercise(ctx: &mut Ctx, img: &[u8]) -> Seen {
    let mut s = Seen::default();
    let mut r = match WiiIsoReader::open(Cursor::new(img)) {
        Ok(r) => r,
        Err(e) => {
            let _ = format!("{e} {e:?}");
            return s;
        }
    };
    s.opened = true;
    let _ = format!("{:?} {:?}", r.get_header(), r.get_region());
    let parts = r.partitions().to_vec();
    for e in parts.iter().take(5).chain(parts.last()) {
        let _ = format!("{:?} {:X}", e.get_type(), e.get_offset());
        let mut p = match r.open_partition(e.clone()) {
            Ok(p) => p,
            Err(e) => {
                let _ = format!("{e} {e:?}");
                s.part_refused += 1;
                continue;
            }
        };
        s.part_opened += 1;
        let _ = format!("{:?} {:?} {} {:?}", p.get_partition_header(), p.get_encrypted_header(), p.get_partition_offset(), p.get_partition_type());
        tally(&mut s, p.read_tmd(&mut r));
        tally(&mut s, p.read_certificates(&mut r));
        tally(&mut s, p.read_bi2(&mut r));
        tally(&mut s, p.read_apploader(&mut r));
        tally(&mut s, p.read_dol(&mut r));
        let mut n = 0u64;
        let _ = p.get_fst().callback_all_files::<Infallible, _>(&mut |names, _| {
            n += names.len() as u64;
            Ok(())
        });
        let copy = p.get_fst().clone();
        let mut files = vec![];
        collect(copy.get_entries(), "", &mut files);
        let _ = p.get_fst().find_node_path("a/b");
        for _ in 0..4.min(files.len()) {
            let (path, off, len) = files[ctx.src.usize(0, files.len() - 1)].clone();
            let mut buf = vec![];
            tally(&mut s, p.get_crypto_reader(&mut r).read_into_vec(off, len as u64, &mut buf));
            if let Some(mut f) = p.open_file(&mut r, &path) {
                let mut b = vec![0u8; 0x9000];
                tally(&mut s, f.read(&mut b));
                let _ = f.seek(SeekFrom::End(-(b.len() as i64)));
                tally(&mut s, f.read(&mut b));
                let _ = f.seek(SeekFrom::Current(i64::MAX));
                tally(&mut s, f.read(&mut b));
                let _ = f.seek(SeekFrom::Start(len as u64 / 2));
                let mut rest = vec![];
                tally(&mut s, f.take(1 << 22).read_to_end(&mut rest));
            }
        }
        let mut c = p.get_crypto_reader(&mut r);
        let at = ctx.src.int(35);
        let _ = c.seek(SeekFrom::Start(at));
        let mut b = vec![0u8; 0x8001];
        tally(&mut s, c.read(&mut b));
        if ctx.src.chance(1, 4) {
            let d = ctx.fresh_dir();
            tally(&mut s, p.extract_system_files(&d, &mut r));
        }
    }
    s
}

pub struct Lab {
    img: Vec<u8>,
    undo: Vec<(usize, Vec<u8>)>,
    cut: Option<usize>,
    /// absolute data offset, key, groups
    parts: Vec<(usize, [u8; 16], usize)>,
}

impl Lab {
    pub fn new(img: &RefImage) -> Self {
        let parts = img.parts.iter().map(|p| ((p.off + p.data_off) as usize, p.key, p.groups as usize)).collect();
        Lab { img: img.to_vec(), undo: vec![], cut: None, parts }
    }
    fn poke(&mut self, at: usize, d: &[u8]) {
        if at >= self.img.len() {
            return;
        }
        let n = d.len().min(self.img.len() - at);
        self.undo.push((at, self.img[at..at + n].to_vec()));
        self.img[at..at + n].copy_from_slice(&d[..n]);
    }
    fn reset(&mut self) {
        while let Some((at, d)) = self.undo.pop() {
            self.img[at..at + d.len()].copy_from_slice(&d);
        }
        self.cut = None;
    }
    pub fn view(&self) -> &[u8] {
        &self.img[..self.cut.unwrap_or(self.img.len())]
    }
    /// edit partition plaintext, re-encrypting the blocks it touches under their stored IV
    fn poke_plain(&mut self, p: usize, off: u64, d: &[u8]) {
        let (base, key, groups) = self.parts[p];
        let mut off = off;
        let mut d = d;
        while !d.is_empty() {
            let b = (off / BDATA as u64) as usize;
            if b >= groups * 64 {
                return;
            }
            let at = base + b * BLOCK;
            let o = (off % BDATA as u64) as usize;
            let n = d.len().min(BDATA - o);
            let iv: [u8; 16] = arr(&self.img, at + 0x3D0);
            let mut data = self.img[at + BHDR..at + BLOCK].to_vec();
            cbc_dec(&key, &iv, &mut data);
            data[o..o + n].copy_from_slice(&d[..n]);
            cbc_enc(&key, &iv, &mut data);
            self.poke(at + BHDR, &data);
            off += n as u64;
            d = &d[n..];
        }
    }
}

fn edge(ctx: &mut Ctx, hints: &[u64]) -> u32 {
    match ctx.src.weighted(&[3, 3, 4]) {
        0 => *ctx.src.pick(&[0u32, 1, 2, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFFE, 0x3FFF_FFFF, 0x4000_0000, 0x00FF_FFFF, 0x0100_0000, 0x10000, 0xC233_9F3D, 0x5D1C_9EA3]),
        1 if !hints.is_empty() => {
            let h = *ctx.src.pick(hints);
            let d = *ctx.src.pick(&[0i64, 1, -1, 2, -2, 0x20, -0x20]);
            (h as i64).wrapping_add(d) as u32
        }
        _ => ctx.src.int(32) as u32,
    }
}

/// apply one mutation and say which
pub fn mutate(ctx: &mut Ctx, lab: &mut Lab, img: &RefImage) -> (&'static str, String) {
    let pi = ctx.src.usize(0, img.parts.len() - 1);
    let p = &img.parts[pi];
    let len = lab.img.len() as u64;
    let off = p.off as usize;
    match ctx.src.weighted(&[3, 4, 4, 2, 2, 4, 8, 4, 3, 3, 2]) {
        0 => {
            // partition tables
            let w = ctx.src.usize(0, 7);
            let hints = [len >> 2, p.off >> 2, 4, 0x10000, 0x10008];
            let v = edge(ctx, &hints);
            if ctx.src.bool() {
                lab.poke(0x40000 + 4 * w, &v.to_be_bytes());
                ("partition table header", format!("table word {w} = {v:#x}"))
            } else {
                let t = (get32(&lab.img, 0x40004) as u64) << 2;
                let w = ctx.src.usize(0, 3);
                lab.poke(t as usize + 4 * w, &v.to_be_bytes());
                ("partition table entry", format!("entry word {w} = {v:#x}"))
            }
        }
        1 => {
            // offsets and sizes of the partition header
            let f = *ctx.src.pick(&[0x2A4usize, 0x2A8, 0x2AC, 0x2B0, 0x2B4, 0x2B8, 0x2BC, 0x2BC, 0x2B8]);
            let hints = [(len - p.off) >> 2, p.data_off >> 2, p.data_size >> 2, 0x2C0 >> 2, 0x7C00 >> 2, 0x1F0000 >> 2];
            let v = edge(ctx, &hints);
            lab.poke(off + f, &v.to_be_bytes());
            ("partition header", format!("partition header {f:#x} = {v:#x}"))
        }
        2 => {
            // ticket
            let f = *ctx.src.pick(&[0x1F1usize, 0x1F1, 0, 3, 0x1BF, 0x1DC, 0x1D0]);
            let v = ctx.src.int(8) as u8;
            lab.poke(off + f, &[v]);
            ("ticket", format!("ticket byte {f:#x} = {v:#x}"))
        }
        3 => {
            let t = off + ((get32(&lab.img, off + 0x2A8) as usize) << 2);
            if ctx.src.bool() {
                let v = ctx.src.int(16) as u16;
                lab.poke(t + 0x1DE, &v.to_be_bytes());
                ("TMD", format!("TMD contents = {v}"))
            } else {
                let v = edge(ctx, &[0x10000, 0x10001, 0x10002]);
                lab.poke(t, &v.to_be_bytes());
                ("TMD", format!("TMD signature type = {v:#x}"))
            }
        }
        4 => {
            let t = off + ((get32(&lab.img, off + 0x2B0) as usize) << 2);
            let v = edge(ctx, &[0x10000, 0x10001, 0x10002, 0, 1, 2]);
            let f = *ctx.src.pick(&[0usize, 0x180, 0x240, 0x280, 0x300, 0x340, 0x380]);
            lab.poke(t + f, &v.to_be_bytes());
            ("certificates", format!("certificates {f:#x} = {v:#x}"))
        }
        5 => {
            // partition boot header
            let f = *ctx.src.pick(&[0x420usize, 0x424, 0x428, 0x42C, 0x424, 0x420, 0x18, 0x1C, 0x20, 0x60]);
            let h = [p.readable() >> 2, p.hdr.dol_off as u64 >> 2, p.hdr.fst_off as u64 >> 2, p.plain.size >> 2];
            let v = edge(ctx, &h);
            lab.poke_plain(pi, f as u64, &v.to_be_bytes());
            ("boot header", format!("boot header {f:#x} = {v:#x}"))
        }
        6 => {
            // file table
            let fo = p.hdr.fst_off as u64;
            let n = get32(&p.fst_bytes, 8) as u64;
            let e = if ctx.src.chance(1, 4) { 0 } else { ctx.src.below(n) };
            let k = ctx.src.below(5);
            let strings = 12 * n;
            let slen = (p.fst_bytes.len() as u64).saturating_sub(strings);
            let hints = [e, n, 0, slen, p.readable() >> 2, p.plain.size, p.fst_bytes.len() as u64];
            let v = edge(ctx, &hints);
            match k {
                0 => lab.poke_plain(pi, fo + 12 * e, &[v as u8]),
                1 => lab.poke_plain(pi, fo + 12 * e + 1, &v.to_be_bytes()[1..]),
                2 => lab.poke_plain(pi, fo + 12 * e + 4, &v.to_be_bytes()),
                3 => lab.poke_plain(pi, fo + 12 * e + 8, &v.to_be_bytes()),
                _ => {
                    let o = ctx.src.below(slen.max(1));
                    let mut b = vec![0u8; ctx.src.usize(1, 24)];
                    ctx.src.fill(&mut b);
                    lab.poke_plain(pi, fo + strings + o, &b);
                }
            }
            ("file table", format!("file table entry {e} of {n}, part {k} = {v:#x}"))
        }
        7 => {
            // DOL header
            let f = 4 * ctx.src.below(0x40);
            let v = edge(ctx, &[p.def.dol.len() as u64, p.readable(), 0x100, 0xFFFF_FF00]);
            lab.poke_plain(pi, p.hdr.dol_off as u64 + f, &v.to_be_bytes());
            ("DOL header", format!("DOL header {f:#x} = {v:#x}"))
        }
        8 => {
            let f = *ctx.src.pick(&[0x2454u64, 0x2458, 0x2450, 0x2440]);
            let v = edge(ctx, &[p.def.app.len() as u64, p.readable()]);
            lab.poke_plain(pi, f, &v.to_be_bytes());
            ("apploader", format!("apploader {f:#x} = {v:#x}"))
        }
        9 => {
            let h = [0u64, 1, 0x43F, 0x440, 0x40000, 0x40008, 0x40020, 0x4E000, 0x4E01F, 0x4E020, p.off, p.off + 0x2BF, p.off + 0x2C0, p.off + p.data_off, p.off + p.data_off + 0x200000, len - 1];
            let c = if ctx.src.bool() { *ctx.src.pick(&h) } else { ctx.src.below(len) };
            lab.cut = Some(c.min(len) as usize);
            ("truncation", format!("cut at {c:#x}"))
        }
        _ => {
            // arbitrary bytes anywhere in the interesting areas
            let areas = [(0usize, 0x440usize), (0x40000, 0x100), (0x4E000, 0x20), (off, 0x2C0), (off + 0x2C0, 0x2000), (off + p.data_off as usize, 0x10000)];
            let (a, n) = *ctx.src.pick(&areas);
            let at = a + ctx.src.usize(0, n - 1);
            let mut b = vec![0u8; ctx.src.usize(1, 64)];
            ctx.src.fill(&mut b);
            lab.poke(at, &b);
            ("random bytes", format!("{} bytes at {at:#x}", b.len()))
        }
    }
}

fn images(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { max_groups: 1, tree: TreeOpts { max_nodes: 10, max_depth: 3, no_case_collisions: false, big: false }, max_contents: 3, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    let mut lab = Lab::new(&img);
    ctx.describe(img.describe());
    let n = 24;
    for _ in 0..n {
        let k = ctx.src.weighted(&[6, 2, 1]) + 1;
        let mut what = vec![];
        for _ in 0..k {
            let (l, d) = mutate(ctx, &mut lab, &img);
            ctx.label(l);
            what.push(d);
        }
        ctx.subcases += 1;
        let view = lab.view().to_vec();
        alloc::reset();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exercise(ctx, &view)));
        let big = alloc::largest();
        match r {
            Err(_) => return Err(format!("{} after: {}", last_panic(), what.join("; "))),
            Ok(s) => {
                ctx.label(if !s.opened { "image refused" } else if s.part_opened == 0 { "all partitions refused" } else if s.refused > 0 { "partition opened, some reads refused" } else { "everything readable" });
                if s.part_opened + s.part_refused > 0 {
                    ctx.nontrivial();
                }
            }
        }
        if big > allowance(view.len()) {
            return Err(format!("a single allocation of {big} bytes for an image of {} bytes after: {}", view.len(), what.join("; ")));
        }
        if ctx.desc.len() < 4 {
            ctx.describe(what.join("; "));
        }
        lab.reset();
    }
    Ok(())
}

fn parse_all(b: &[u8], k: u64) -> bool {
    fn ok<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> bool
    where
        T: std::fmt::Debug,
    {
        match r {
            Ok(v) => {
                let _ = format!("{v:?}");
                true
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
                false
            }
        }
    }
    let mut c = Cursor::new(b);
    match k {
        0 => ok(c.read_be::<Ticket>()),
        1 => ok(c.read_be::<TMD>()),
        2 => ok(c.read_be::<Certificate>()),
        3 => ok(c.read_be::<DiscHeader>()),
        4 => ok(c.read_be::<DOLHeader>()),
        5 => ok(c.read_be::<ApploaderHeader>()),
        6 => ok(c.read_be::<WiiPartitionHeader>()),
        7 => ok(c.read_be::<WiiPartTableEntry>()),
        8 => ok(c.read_be::<[Certificate; 3]>()),
        _ => ok(WiiIsoReader::open(c).map(|r| r.partitions().len())),
    }
}

/// arbitrary bytes, or a valid encoding with some bytes changed or cut
fn structs(ctx: &mut Ctx) -> Result<(), String> {
    let mut accepted = 0;
    for _ in 0..20 {
        let k = ctx.src.below(10);
        let valid = ctx.src.chance(2, 3);
        let mut b = if valid {
            match k {
                0 => gen_ticket(&mut ctx.src).encode(),
                1 => gen_tmd(&mut ctx.src, 5).encode(),
                2 => gen_cert(&mut ctx.src).encode(),
                3 => gen_hdr(&mut ctx.src).encode(),
                4 => gen_dol(&mut ctx.src, false),
                5 => gen_app(&mut ctx.src),
                6 => {
                    let mut v = gen_ticket(&mut ctx.src).encode();
                    let a: [u8; 0x1C] = ctx.src.arr();
                    v.extend_from_slice(&a);
                    v
                }
                8 => (0..3).flat_map(|_| gen_cert(&mut ctx.src).encode()).collect(),
                9 => {
                    let mut v = vec![0u8; 0x40020];
                    for i in 0..8 {
                        let h = [4u64, 0x10008, 0x10000, 1];
                        let w = edge(ctx, &h);
                        put32(&mut v, 0x40000 + 4 * i, w);
                    }
                    let mut t = vec![0u8; ctx.src.usize(0, 0x100)];
                    ctx.src.fill(&mut t);
                    v.extend_from_slice(&t);
                    v
                }
                _ => vec![0; 8],
            }
        } else {
            let n = ctx.src.usize(0, 0x600);
            let mut v = vec![0u8; n];
            ctx.src.fill(&mut v);
            v
        };
        for _ in 0..ctx.src.below(4) {
            if b.is_empty() {
                break;
            }
            let at = ctx.src.usize(0, b.len() - 1);
            let v = edge(ctx, &[0x10000, 0x10001, 0x10002, 2]).to_be_bytes();
            let n = ctx.src.usize(1, 4).min(b.len() - at);
            b[at..at + n].copy_from_slice(&v[..n]);
        }
        if ctx.src.chance(1, 4) {
            let n = ctx.src.usize(0, b.len());
            b.truncate(n);
        }
        alloc::reset();
        ctx.subcases += 1;
        let r = std::panic::catch_unwind(|| parse_all(&b, k));
        match r {
            Err(_) => return Err(format!("{} while parsing structure {k} from {} bytes: {:02x?}", last_panic(), b.len(), &b[..b.len().min(700)])),
            Ok(true) => accepted += 1,
            Ok(false) => (),
        }
        if alloc::largest() > allowance(b.len()) {
            return Err(format!("structure {k}: a single allocation of {} bytes from {} bytes of input", alloc::largest(), b.len()));
        }
    }
    ctx.label_if(accepted > 0, "some structure accepted");
    ctx.label_if(accepted < 20, "some structure refused");
    if accepted < 20 {
        ctx.nontrivial();
    }
    Ok(())
}

fn run_fst(ctx: &mut Ctx, b: &[u8], at: u64, what: &str) -> Result<bool, String> {
    alloc::reset();
    ctx.subcases += 1;
    let r = std::panic::catch_unwind(|| {
        let mut c = Cursor::new(b);
        match Fst::read(&mut c, at) {
            Ok(mut f) => {
                let mut n = 0usize;
                let _ = f.callback_all_files::<Infallible, _>(&mut |names, _| {
                    n += names.len();
                    Ok(())
                });
                let c = f.clone();
                drop(f);
                f = c;
                f.get_entries_mut().clear();
                true
            }
            Err(e) => {
                let _ = format!("{e} {e:?}");
                false
            }
        }
    });
    let big = alloc::largest();
    match r {
        Err(_) => Err(format!("{}: {what}", last_panic())),
        Ok(_) if big > allowance(b.len()) => Err(format!("a single allocation of {big} bytes for a table of {} bytes: {what}", b.len())),
        Ok(a) => Ok(a),
    }
}

fn tables(ctx: &mut Ctx) -> Result<(), String> {
    let mut acc = 0;
    for i in 0..12 {
        let (mut b, kind) = if ctx.src.chance(1, 6) {
            let mut v = vec![0u8; ctx.src.usize(0, 400)];
            ctx.src.fill(&mut v);
            if v.len() >= 12 && ctx.src.bool() {
                v[..8].copy_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0]);
                put32(&mut v, 8, 3);
            }
            (v, "arbitrary bytes")
        } else {
            let d = gen_part(&mut ctx.src, &TreeOpts { max_nodes: 14, max_depth: 5, no_case_collisions: false, big: false }, 1);
            let o = ImgOpts { max_groups: 1, ..IMG };
            let style = place(&mut ctx.src, d, &o);
            (style.fst_bytes.clone(), "mutated table")
        };
        let mut what = String::new();
        if b.len() >= 12 && kind == "mutated table" {
            let n = get32(&b, 8) as u64;
            for _ in 0..ctx.src.range(1, 4) {
                let e = if ctx.src.chance(1, 4) { 0 } else { ctx.src.below(n) } as usize;
                let k = ctx.src.usize(0, 3);
                let hints = [e as u64, n, (b.len() as u64).saturating_sub(12 * n)];
                let v = edge(ctx, &hints).to_be_bytes();
                match k {
                    0 => b[12 * e] = v[3],
                    1 => b[12 * e + 1..12 * e + 4].copy_from_slice(&v[1..]),
                    2 => b[12 * e + 4..12 * e + 8].copy_from_slice(&v),
                    _ => b[12 * e + 8..12 * e + 12].copy_from_slice(&v),
                }
                what += &format!("entry {e}/{n} part {k} = {v:02x?}; ");
            }
        }
        if ctx.src.chance(1, 6) {
            let n = ctx.src.usize(0, b.len());
            b.truncate(n);
            what += &format!("cut to {n}");
        }
        let at = if ctx.src.chance(1, 5) { ctx.src.int(34) } else { 0 };
        if i == 0 {
            ctx.describe(format!("{kind}: {what}"));
        }
        let what = format!("{kind}: {what} at {at:#x}; bytes {:02x?}", &b[..b.len().min(600)]);
        if run_fst(ctx, &b, at, &what)? {
            acc += 1;
        }
        ctx.label(kind);
    }
    ctx.label_if(acc > 0, "some table accepted");
    ctx.label_if(acc < 12, "some table refused");
    if acc < 12 {
        ctx.nontrivial();
    }
    Ok(())
}

/// large or degenerate tables
fn extremes(ctx: &mut Ctx) -> Result<(), String> {
    let k = ctx.src.below(18);
    let chain = |n: usize, next: &dyn Fn(usize) -> u32, parent: &dyn Fn(usize) -> u32, dir: &dyn Fn(usize) -> u8| {
        let mut b = vec![0u8; 12 * (n + 1) + 8];
        b[0] = 1;
        put32(&mut b, 8, n as u32 + 1);
        for i in 1..=n {
            b[12 * i] = dir(i);
            put32(&mut b, 12 * i + 4, parent(i));
            put32(&mut b, 12 * i + 8, next(i));
        }
        b[12 * (n + 1)] = b'a';
        b
    };
    let all = |_: usize| 1u8;
    let (what, b, big) = match k {
        0..=5 => {
            // a proper nested chain: every directory ends at the end of the table
            let n = [100usize, 511, 600, 5_000, 40_000, 160_000][k as usize];
            (format!("chain of {n} nested directories"), chain(n, &|_| n as u32 + 1, &|i| i as u32 - 1, &all), n)
        }
        6 => ("directories that end at themselves".into(), chain(20_000, &|i| i as u32, &|_| 0, &all), 0),
        7 => ("directories that end before themselves".into(), chain(20_000, &|i| i as u32 - 1, &|_| 0, &all), 0),
        8 => ("directories that end at 0".into(), chain(20_000, &|_| 0, &|_| 0, &all), 0),
        9 => ("directories that end far beyond".into(), chain(20_000, &|_| u32::MAX, &|_| u32::MAX, &all), 0),
        10 => ("flat empty directories".into(), chain(100_000, &|i| i as u32 + 1, &|_| 0, &all), 0),
        11 => ("flat files".into(), chain(150_000, &|_| u32::MAX, &|_| u32::MAX, &|_| 0), 0),
        12 => ("ends beyond the parent's end".into(), chain(30_000, &|i| (2 * i) as u32, &|i| i as u32 / 2, &all), 0),
        13 => {
            let mut b = chain(10, &|i| i as u32 + 1, &|_| 0, &all);
            put32(&mut b, 8, u32::MAX);
            ("root count 2^32-1".into(), b, 0)
        }
        14 => ("alternating files and nested directories".into(), chain(60_000, &|_| 60_001, &|i| i as u32 - 1, &|i| (i % 2) as u8), 0),
        15 => ("type byte 0xFF".into(), chain(3_000, &|i| i as u32 + 1, &|_| 0, &|_| 0xFF), 0),
        16 => {
            // all entries share one long name: the decoded names would take far more memory than the table
            let mut b = chain(2_500, &|_| 0, &|_| 0, &|_| 0);
            b.truncate(12 * 2_501);
            b.extend(std::iter::repeat(b'n').take(1 << 20));
            b.push(0);
            ("2500 files that share a name of 1 MiB".into(), b, 0)
        }
        _ => {
            let mut b = chain(2_000, &|_| 0, &|_| 0, &|_| 0);
            b.truncate(12 * 2_001);
            for i in 1..=2_000usize {
                b[12 * i + 2] = (i >> 8) as u8;
                b[12 * i + 3] = i as u8;
            }
            b.extend(std::iter::repeat(b'n').take(1 << 20));
            ("names that never end".into(), b, 0)
        }
    };
    let _ = big;
    ctx.describe(what.clone());
    ctx.nontrivial();
    let at = 0;
    let before = alloc::live();
    alloc::reset();
    let accepted = run_fst(ctx, &b, at, &what)?;
    if alloc::peak() > before + 512 * (1 << 20) {
        return Err(format!("{} bytes in use at once for a table of {} bytes: {what}", alloc::peak() - before, b.len()));
    }
    ctx.label(if accepted { "accepted" } else { "refused" });
    // the same table inside an image
    let o = ImgOpts { max_groups: 1, max_parts: 1, tree: TreeOpts { max_nodes: 3, max_depth: 2, no_case_collisions: true, big: false }, max_contents: 1, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    let mut lab = Lab::new(&img);
    let at = 0x60000u64;
    if (at as usize + b.len()) < GDATA {
        lab.poke_plain(0, 0x424, &((at >> 2) as u32).to_be_bytes());
        lab.poke_plain(0, at, &b);
        let view = lab.view().to_vec();
        ctx.subcases += 1;
        alloc::reset();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exercise(ctx, &view))).map_err(|_| format!("{} in an image with {what}", last_panic()))?;
        if alloc::largest() > allowance(view.len()) {
            return Err(format!("a single allocation of {} bytes for an image with {what}", alloc::largest()));
        }
    }
    Ok(())
}

/// the copy builder on mutated images
fn copying(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { max_groups: 1, max_parts: 2, tree: TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: false, big: false }, max_contents: 3, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    let mut lab = Lab::new(&img);
    ctx.describe(img.describe());
    let dir = ctx.fresh_dir();
    let (a, b) = (dir.join("source.iso"), dir.join("dest.iso"));
    for _ in 0..6 {
        let mut what = vec![];
        if ctx.src.chance(2, 3) {
            what.push(same_name(ctx, &mut lab, &img));
        }
        for _ in 0..ctx.src.weighted(&[2, 2, 1]) {
            let (l, d) = mutate(ctx, &mut lab, &img);
            ctx.label(l);
            what.push(d);
        }
        ctx.subcases += 1;
        let io = |r: std::io::Result<()>| r.map_err(|e| format!("HARNESS: {e}"));
        io(std::fs::write(&a, lab.view()))?;
        io(std::fs::write(&b, []))?;
        alloc::reset();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| disc_riider::builder::build_copy(&a, &b).map_err(|e| format!("{e} {e:?}")))) {
            Err(_) => return Err(format!("{} when copying an image after: {}", last_panic(), what.join("; "))),
            Ok(r) => ctx.label(if r.is_ok() { "copied" } else { "copy refused" }),
        }
        if alloc::largest() > allowance(lab.view().len()) {
            return Err(format!("a single allocation of {} bytes when copying an image after: {}", alloc::largest(), what.join("; ")));
        }
        ctx.nontrivial();
        if ctx.desc.len() < 4 {
            ctx.describe(what.join("; "));
        }
        lab.reset();
    }
    Ok(())
}

/// give one entry of the table the name of another
fn same_name(ctx: &mut Ctx, lab: &mut Lab, img: &RefImage) -> String {
    let pi = ctx.src.usize(0, img.parts.len() - 1);
    let p = &img.parts[pi];
    let n = get32(&p.fst_bytes, 8) as u64;
    if n < 2 {
        return "nothing to rename".into();
    }
    let (x, y) = (ctx.src.range(1, n - 1), ctx.src.range(1, n - 1));
    let name = p.fst_bytes[12 * x as usize + 1..][..3].to_vec();
    lab.poke_plain(pi, p.hdr.fst_off as u64 + 12 * y + 1, &name);
    format!("entry {y} named like entry {x}")
}

/// the Python extractor on mutated images, as a user who owns nothing else
fn python(ctx: &mut Ctx) -> Result<(), String> {
    let o = ImgOpts { max_groups: 1, max_parts: 2, tree: TreeOpts { max_nodes: 8, max_depth: 3, no_case_collisions: false, big: false }, max_contents: 3, ..IMG };
    let img = gen_image(&mut ctx.src, &o);
    let mut lab = Lab::new(&img);
    ctx.describe(img.describe());
    for _ in 0..6 {
        let mut what = vec![];
        if ctx.src.chance(1, 4) {
            what.push(same_name(ctx, &mut lab, &img));
        }
        for _ in 0..ctx.src.usize(1, 3) {
            let (l, d) = mutate(ctx, &mut lab, &img);
            ctx.label(l);
            what.push(d);
        }
        ctx.subcases += 1;
        let dir = ctx.fresh_dir();
        let iso = dir.join("image.iso");
        let dest = dir.join("out");
        std::fs::write(&iso, lab.view()).and_then(|_| std::fs::create_dir(&dest)).map_err(|e| format!("HARNESS: {e}"))?;
        crate::pyworker::chown(&dest, 65534);
        let mut ops = vec![json!(["open", iso.to_str().unwrap()])];
        for n in ["DATA", "UPDATE", "CHANNEL"] {
            ops.push(json!(["prepare", n]));
            ops.push(json!(["hash", n]));
        }
        ops.push(json!(["extract", dest.to_str().unwrap(), "plain"]));
        let r = crate::pyworker::py_unpriv(ctx, serde_json::Value::Array(ops)).map_err(|e| format!("{e} after: {}", what.join("; ")))?;
        let fine = r.iter().filter(|x| crate::pyworker::ok(x)).count();
        ctx.label(if fine == 0 { "image refused" } else if !r.last().is_some_and(crate::pyworker::ok) { "extraction refused" } else { "something was extracted" });
        if fine > 0 {
            ctx.nontrivial();
        }
        if ctx.desc.len() < 4 {
            ctx.describe(what.join("; "));
        }
        lab.reset();
    }
    Ok(())
}

/// streams that are no images at all
fn streams(ctx: &mut Ctx) -> Result<(), String> {
    let n = match ctx.src.weighted(&[1, 2, 2, 2]) {
        0 => 0,
        1 => ctx.src.usize(0, 0x500),
        2 => 0x4E020 + ctx.src.usize(0, 0x3000),
        _ => 0x50000 + ctx.src.usize(0, 0x20000),
    };
    let mut v = vec![0u8; n];
    ctx.src.fill(&mut v);
    if ctx.src.chance(3, 4) && v.len() >= 0x440 {
        let h = gen_hdr(&mut ctx.src).encode();
        put(&mut v, 0, &h);
        if v.len() >= 0x40020 && ctx.src.chance(3, 4) {
            for i in 0..4 {
                let c = if ctx.src.chance(1, 5) { edge(ctx, &[1, 2]) } else { ctx.src.weighted(&[6, 1, 1]) as u32 };
                let o = if ctx.src.chance(1, 6) { edge(ctx, &[n as u64 >> 2, 0x10008]) } else { 0x10008 };
                put32(&mut v, 0x40000 + 8 * i, c);
                put32(&mut v, 0x40004 + 8 * i, o);
            }
            if v.len() >= 0x40040 && ctx.src.chance(3, 4) {
                for i in 0..3 {
                    let o = edge(ctx, &[n as u64 >> 2, 0x10008, 0]);
                    put32(&mut v, 0x40020 + 8 * i, o);
                    put32(&mut v, 0x40024 + 8 * i, ctx.src.weighted(&[1, 1, 1]) as u32);
                }
            }
        }
    }
    ctx.describe(format!("{n:#x} bytes"));
    alloc::reset();
    let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exercise(ctx, &v))).map_err(|_| format!("{} on a stream of {n:#x} bytes", last_panic()))?;
    if alloc::largest() > allowance(n) {
        return Err(format!("a single allocation of {} bytes for a stream of {n} bytes", alloc::largest()));
    }
    ctx.label(if s.opened { "stream opened" } else { "stream refused" });
    if s.opened || n > 0x440 {
        ctx.nontrivial();
    }
    Ok(())
}

pub fn c10() -> Property {
    let mut p = Property::new(
        "C10",
        "an image case counts when at least one mutated image was opened far enough to try a partition; a structure or table case when at least one input was refused; every extreme table counts",
        vec![
            Suite::enumerate("extremes", 18, extremes),
            Suite::new("images", 2_000, 20_000, images),
            Suite::new("tables", 60_000, 300_000, tables),
            Suite::new("structs", 60_000, 600_000, structs),
            Suite::new("streams", 3_000, 60_000, streams),
            Suite::new("copies", 600, 8_000, copying),
            Suite::new("python", 400, 6_000, python),
        ],
    );
    p.stack = 8 << 20;
    p.address_space = Some(8 << 30);
    p.assumptions = &[
        "a single allocation above 64 MiB + 16 times the stream length counts as sized by an untrusted field",
        "arithmetic is checked (overflow panics), as in a debug build of the library",
        "a table of a few MiB that takes more than 512 MiB of memory at once counts as unbounded",
        "the Python module is used as built by its own release profile; the extraction runs as user 65534",
        "a worker stack of 8 MiB, the usual main-thread stack, must suffice",
    ];
    p
}
