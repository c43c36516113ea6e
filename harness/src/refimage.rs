//! Well-formed images in arbitrary layouts, produced by the reference encoder without the library under test.
use crate::blob::Blob;
use crate::engine::Src;
use crate::model::*;
use crate::wiiref::*;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Seg {
    Bytes(Arc<Vec<u8>>),
    Blob(Blob),
}

impl Seg {
    pub fn len(&self) -> u64 {
        match self {
            Seg::Bytes(b) => b.len() as u64,
            Seg::Blob(b) => b.len,
        }
    }
    fn fill(&self, off: u64, out: &mut [u8]) {
        match self {
            Seg::Bytes(b) => out.copy_from_slice(&b[off as usize..off as usize + out.len()]),
            Seg::Blob(b) => b.fill(off, out),
        }
    }
}

/// plaintext of a partition: segments over a unique background
#[derive(Clone, Debug)]
pub struct Plain {
    pub size: u64,
    pub segs: Vec<(u64, Seg)>,
    pub background: Blob,
}

impl Plain {
    pub fn fill(&self, off: u64, out: &mut [u8]) {
        let end = off + out.len() as u64;
        self.background.fill(off, out);
        for (s, seg) in &self.segs {
            let a = off.max(*s);
            let b = end.min(s + seg.len());
            if a < b {
                seg.fill(a - s, &mut out[(a - off) as usize..(b - off) as usize]);
            }
        }
    }
    pub fn slice(&self, off: u64, len: u64) -> Vec<u8> {
        let off = off.min(self.size);
        let len = len.min(self.size - off);
        let mut v = vec![0; len as usize];
        self.fill(off, &mut v);
        v
    }
}

#[derive(Clone, Debug)]
pub struct RefPart {
    pub def: PartDef,
    /// header as stored (with offsets)
    pub hdr: RHdr,
    pub fst: Vec<FNode>,
    pub fst_bytes: Vec<u8>,
    pub plain: Arc<Plain>,
    pub groups: u64,
    pub off: u64,
    pub data_off: u64,
    /// data size field of the partition header
    pub data_size: u64,
    pub part_header: Vec<u8>,
    pub key: [u8; 16],
}

impl RefPart {
    /// bytes that a read at `off` may return: bounded by the data size
    pub fn readable(&self) -> u64 {
        self.plain.size.min(self.data_size)
    }
}

#[derive(Clone, Debug)]
pub struct RefImage {
    pub hdr: RHdr,
    pub region: [u8; 32],
    pub parts: Vec<RefPart>,
    pub segs: Vec<(u64, Arc<Vec<u8>>)>,
    pub len: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct ImgOpts {
    pub tree: TreeOpts,
    pub max_parts: usize,
    /// allow virtual offsets beyond 4 GiB
    pub giant: bool,
    pub max_groups: u64,
    /// layouts that only differ in placement: files may alias, data size convention, odd alignments
    pub wild: bool,
    pub unique_types: bool,
    pub max_contents: usize,
    /// all files share the data of the first
    pub share: bool,
    /// now and then a partition table of up to 70 entries
    pub many: bool,
    /// one file of each partition has 2 GiB or more, filled with the background
    pub huge: bool,
}

pub const IMG: ImgOpts = ImgOpts { tree: TreeOpts { max_nodes: 16, max_depth: 4, no_case_collisions: true, big: true }, max_parts: 2, giant: false, max_groups: 6, wild: true, unique_types: false, max_contents: 40, share: false, many: false, huge: false };

struct Space {
    used: Vec<(u64, u64)>,
}

impl Space {
    fn free(&self, off: u64, len: u64) -> bool {
        let len = len.max(1);
        self.used.iter().all(|(a, b)| off + len <= *a || off >= *b)
    }
    fn take(&mut self, off: u64, len: u64) {
        if len > 0 {
            self.used.push((off, off + len));
        }
    }
    fn end(&self) -> u64 {
        self.used.iter().map(|u| u.1).max().unwrap_or(0)
    }
    /// choose a place
    fn place(&mut self, src: &mut Src, len: u64, align: u64, limit: u64, far: u64) -> u64 {
        let mut off = match src.weighted(&[6, 2, 2, 1, if far > 0 { 2 } else { 0 }]) {
            0 => al(self.end(), align),
            1 => al(self.end() + src.below(0x1000), align),
            2 => {
                // so that the end or the start meets a boundary
                let step = if src.bool() { BDATA as u64 } else { GDATA as u64 };
                let t = al(self.end() + len + 1, step);
                let d = src.below(3);
                let o = match d {
                    0 => t - len,
                    1 => t,
                    _ => t.saturating_sub(len / 2),
                };
                o / align * align
            }
            3 => al(self.end(), GDATA as u64),
            _ => (far + src.below(1 << 28)) / align * align,
        };
        let is_far = far > 0 && off >= far;
        if off < 0x2440 || (!is_far && off + len > limit) || !self.free(off, len) {
            off = al(self.end(), align);
        }
        self.take(off, len);
        off
    }
}

/// give a definition a concrete random layout
pub fn place(src: &mut Src, def: PartDef, o: &ImgOpts) -> RefPart {
    let mut sp = Space { used: vec![] };
    let mut segs: Vec<(u64, Seg)> = vec![];
    let far = if o.giant && src.chance(1, 2) { (4u64 << 30) + (src.below(3) << 31) } else { 0 };
    let limit = o.max_groups * GDATA as u64;
    sp.take(0, 0x2440);
    let mut bi2 = def.bi2.clone();
    bi2.resize(0x2000, 0x5A);
    segs.push((0x440, Seg::Bytes(Arc::new(bi2.clone()))));
    let mut def = def;
    def.bi2 = bi2;
    sp.take(0x2440, def.app.len() as u64);
    segs.push((0x2440, Seg::Bytes(Arc::new(def.app.clone()))));
    let align = |src: &mut Src| if o.wild { *src.pick(&[0x20u64, 4, 0x40, 0x8000]) } else { 0x20 };
    let n_entries = { let (a, b) = count(&def.tree); a + b + 1 };
    fn strs(t: &[Node]) -> u64 {
        t.iter().map(|x| sjis_encode(x.name()).map_or(0, |b| b.len() as u64) + 1 + if let Node::Dir { kids, .. } = x { strs(kids) } else { 0 }).sum()
    }
    let fst_room = al(n_entries as u64 * 12 + strs(&def.tree) + 16, 4);
    let style = if o.wild { src.below(3) } else { 0 };
    let dol_first = src.bool();
    let fst_last = o.wild && src.chance(1, 5);
    let mut dol_off = 0;
    let mut fst_off = 0;
    for k in 0..2 {
        if (k == 0) == dol_first {
            let a = align(src);
            dol_off = sp.place(src, def.dol.len() as u64, a, limit, 0);
        } else if !fst_last {
            let a = align(src);
            fst_off = sp.place(src, fst_room, a, limit, far);
        }
    }
    segs.push((dol_off, Seg::Bytes(Arc::new(def.dol.clone()))));
    // files, possibly in another order than the tree
    let fl = files(&def.tree);
    let mut order: Vec<usize> = (0..fl.len()).collect();
    if o.wild && src.bool() {
        for i in (1..order.len()).rev() {
            let j = src.usize(0, i);
            order.swap(i, j);
        }
    }
    let mut offs = vec![0u64; fl.len()];
    let mut lens: Vec<u64> = fl.iter().map(|f| f.1.len).collect();
    let huge = if o.huge && !fl.is_empty() { Some(src.usize(0, fl.len() - 1)) } else { None };
    for (n, k) in order.iter().enumerate() {
        let b = &fl[*k].1;
        if huge == Some(*k) {
            lens[*k] = match src.below(3) {
                0 => *src.pick(&[1u64 << 31, (1 << 31) - 1, (1 << 31) + 1, 3 << 30, (1 << 32) - 1, (1 << 32) - 0x8000]),
                1 => (1 << 31) + src.below(1 << 31),
                _ => (1 << 31) + src.below(1 << 24),
            };
            offs[*k] = sp.place(src, lens[*k], 0x20, limit, far);
            continue;
        }
        if n > 0 && (o.share || o.wild && src.chance(1, 10)) {
            // share the data of an earlier file
            let j = order[src.usize(0, n - 1)];
            if huge != Some(j) {
                offs[*k] = offs[j];
                lens[*k] = b.len.min(lens[j]);
                continue;
            }
        }
        let a = align(src);
        let off = sp.place(src, b.len, a, limit, far);
        offs[*k] = off;
        segs.push((off, Seg::Blob(b.clone())));
    }
    if fst_last {
        fst_off = sp.place(src, fst_room, 4, limit, 0);
    }
    let mut i = 0;
    fn conv(t: &[Node], offs: &[u64], lens: &[u64], i: &mut usize) -> Vec<FNode> {
        t.iter()
            .map(|n| match n {
                Node::File { name, .. } => {
                    let k = *i;
                    *i += 1;
                    FNode::File { name: name.clone(), off: offs[k], len: lens[k] as u32 }
                }
                Node::Dir { name, kids } => FNode::Dir { name: name.clone(), kids: conv(kids, offs, lens, i) },
            })
            .collect()
    }
    let fst = conv(&def.tree, &offs, &lens, &mut i);
    let mut fst_bytes = encode_fst(&fst, style);
    while fst_bytes.len() % 4 != 0 {
        fst_bytes.push(0);
    }
    assert!(fst_bytes.len() as u64 <= fst_room);
    segs.push((fst_off, Seg::Bytes(Arc::new(fst_bytes.clone()))));
    let end = sp.end().max(0x2440);
    let slack = if o.wild { src.below(2) } else { 0 };
    let groups = al(end.max(1), GDATA as u64) / GDATA as u64 + slack;
    let size = groups * GDATA as u64;
    let data_size = if !o.wild {
        size
    } else {
        match src.weighted(&[3, 1, 1]) {
            0 => size,
            // retail convention: size of the encrypted data
            1 => groups * GROUP as u64,
            // ends before the last group does
            _ => al(end, BDATA as u64),
        }
    };
    let mut hdr = def.hdr.clone();
    hdr.dol_off = dol_off;
    hdr.fst_off = fst_off;
    hdr.fst_sz = fst_bytes.len() as u64;
    hdr.fst_max = hdr.fst_sz + if o.wild { 4 * src.below(100) } else { 0 };
    segs.push((0, Seg::Bytes(Arc::new(hdr.encode()))));
    let bg_kind = if src.chance(1, 4) { 1 } else { 0 };
    let background = Blob::new(size, bg_kind, 0xBACC + src.below(1000));
    let plain = Arc::new(Plain { size, segs, background });
    let key = def.ticket.title_key;
    // sizes after aliasing
    RefPart { def, hdr, fst, fst_bytes, plain, groups, off: 0, data_off: 0, data_size, part_header: vec![], key }
}

/// finish partitions and lay out the whole image
pub fn assemble(src: &mut Src, hdr: RHdr, region: [u8; 32], mut parts: Vec<RefPart>, o: &ImgOpts) -> RefImage {
    let mut segs: Vec<(u64, Arc<Vec<u8>>)> = vec![];
    segs.push((0, Arc::new(hdr.encode())));
    segs.push((0x4E000, Arc::new(region.to_vec())));
    let mut at = 0x50000u64;
    let mut order: Vec<usize> = (0..parts.len()).collect();
    if o.wild && src.bool() {
        order.reverse();
    }
    let mut dropped = vec![];
    for i in order {
        let p = &mut parts[i];
        if o.wild {
            at += match src.weighted(&[4, 1, 1]) {
                0 => 0,
                1 => 0x8000 * src.below(4),
                _ => 4 * src.below(0x4000),
            };
            if o.giant && src.chance(1, 2) {
                at = at.max((4u64 << 30) + 0x8000 * src.below(1 << 17));
            }
            if o.giant && src.chance(1, 10) {
                // just below the last address
                at = at.max((1u64 << 34) - 4 - 4 * src.below(0x20000));
            }
        }
        if at >= 1 << 34 {
            // cannot be addressed by a partition table
            dropped.push(i);
            continue;
        }
        p.off = at;
        // metadata areas in some order
        let certs: Vec<u8> = p.def.certs.iter().flat_map(|c| c.encode()).collect();
        let tmd_len = 0x1E4 + 36 * p.def.tmd.contents.len() as u64;
        let mut cur = 0x2C0u64;
        let mut offs = [0u64; 3];
        let lens = [tmd_len, certs.len() as u64, 0x18000];
        let perms = [[0, 1, 2], [1, 0, 2], [2, 0, 1], [0, 2, 1], [1, 2, 0], [2, 1, 0]];
        let pm = if o.wild { perms[src.below(6) as usize] } else { perms[0] };
        for k in pm {
            let a = if k == 2 && !o.wild { 0x8000 } else if o.wild { *src.pick(&[0x20u64, 4, 0x8000]) } else { 0x20 };
            cur = al(cur, a);
            offs[k] = cur;
            cur += lens[k];
        }
        p.data_off = if o.wild { al(cur, *src.pick(&[0x8000u64, 4, 0x20000])) } else { 0x20000.max(al(cur, 0x8000)) };
        let mut h3 = vec![0u8; 0x18000];
        if p.groups <= 64 {
            for g in 0..p.groups {
                let pl = p.plain.slice(g * GDATA as u64, GDATA as u64);
                let h = h3_of(&pl);
                h3[g as usize * 20..g as usize * 20 + 20].copy_from_slice(&h);
            }
        }
        if let Some(c) = p.def.tmd.contents.first_mut() {
            c.hash = sha(&h3);
            c.size = p.groups * GDATA as u64;
        }
        let mut ph = p.def.ticket.encode();
        ph.resize(0x2C0, 0);
        put32(&mut ph, 0x2A4, tmd_len as u32);
        put32(&mut ph, 0x2A8, (offs[0] >> 2) as u32);
        put32(&mut ph, 0x2AC, certs.len() as u32);
        put32(&mut ph, 0x2B0, (offs[1] >> 2) as u32);
        put32(&mut ph, 0x2B4, (offs[2] >> 2) as u32);
        put32(&mut ph, 0x2B8, (p.data_off >> 2) as u32);
        put32(&mut ph, 0x2BC, (p.data_size >> 2) as u32);
        p.part_header = ph.clone();
        segs.push((at, Arc::new(ph)));
        segs.push((at + offs[0], Arc::new(p.def.tmd.encode())));
        segs.push((at + offs[1], Arc::new(certs)));
        segs.push((at + offs[2], Arc::new(h3)));
        at += p.data_off + p.groups * GROUP as u64;
    }
    dropped.sort_unstable();
    for i in dropped.into_iter().rev() {
        parts.remove(i);
    }
    // partition tables
    let mut len = at;
    let mut head = vec![0u8; 32];
    let mut per: Vec<Vec<usize>> = vec![vec![]; 4];
    for i in 0..parts.len() {
        let t = if o.wild { src.below(4) as usize } else { 0 };
        per[t].push(i);
    }
    let mut tcur = 0x40020u64;
    let mut listed = vec![];
    for (t, ps) in per.iter().enumerate() {
        put32(&mut head, t * 8, ps.len() as u32);
        if ps.is_empty() {
            if o.wild && src.chance(1, 4) {
                put32(&mut head, t * 8 + 4, src.int(32) as u32);
            }
            continue;
        }
        let mut b = vec![];
        for i in ps {
            b.extend(((parts[*i].off >> 2) as u32).to_be_bytes());
            b.extend(parts[*i].def.ptype.to_be_bytes());
            listed.push(*i);
        }
        // usually right behind the list of tables, but anywhere outside the other areas is fine
        let slot = match if o.wild { src.weighted(&[6, 1, 1, 1]) } else { 0 } {
            3 if len >= (1 << 34) - 0x10000 => 0,
            k => k,
        };
        let base = match slot {
            0 => tcur,
            1 => 0x1000 + 0x1000 * t as u64,
            2 => 0x4E100 + 0x400 * t as u64,
            _ => al(len, 4),
        };
        let where_ = if o.wild && src.chance(1, 3) { base + 4 * src.below(64) } else { base };
        put32(&mut head, t * 8 + 4, (where_ >> 2) as u32);
        match slot {
            0 => tcur = where_ + b.len() as u64,
            3 => len = where_ + b.len() as u64,
            _ => {}
        }
        segs.push((where_, Arc::new(b)));
    }
    segs.push((0x40000, Arc::new(head)));
    // parts in table order
    let parts: Vec<RefPart> = listed.into_iter().map(|i| parts[i].clone()).collect();
    if o.wild && src.chance(1, 4) {
        len += src.below(0x10000);
    }
    RefImage { hdr, region, parts, segs, len: len.max(0x50000) }
}

fn h3_of(plain: &[u8]) -> [u8; 20] {
    group_h3(plain)
}

pub fn gen_image(src: &mut Src, o: &ImgOpts) -> RefImage {
    let n = src.usize(1, o.max_parts.max(1));
    let hdr = gen_hdr(src);
    let region = src.arr();
    let mut parts = vec![];
    let mut types = vec![];
    if o.many && src.chance(1, 50) {
        // a long partition table; the partitions have equal contents
        let mut d = gen_part(src, &TreeOpts { big: false, ..o.tree }, 1);
        d.ptype = 2;
        let p = place(src, d, &ImgOpts { max_groups: 1, giant: false, ..*o });
        for _ in 0..src.usize(5, 70) {
            let mut q = p.clone();
            q.def.ptype = src.below(3) as u32;
            parts.push(q);
        }
        return assemble(src, hdr, region, parts, &ImgOpts { giant: false, ..*o });
    }
    for _ in 0..n {
        let mut d = gen_part(src, &o.tree, o.max_contents);
        if o.unique_types {
            while types.contains(&d.ptype) {
                d.ptype = (d.ptype + 1) % 3;
            }
            types.push(d.ptype);
        }
        parts.push(place(src, d, o));
    }
    assemble(src, hdr, region, parts, o)
}

impl RefImage {
    /// encrypted bytes of a group
    pub fn group(&self, p: usize, g: u64) -> Vec<u8> {
        let part = &self.parts[p];
        encrypt_group(&part.plain.slice(g * GDATA as u64, GDATA as u64), &part.key).0
    }
    pub fn describe(&self) -> String {
        self.parts
            .iter()
            .map(|p| format!("[{:#x} groups {} data_size {:#x} fst {:#x} dol {:#x} {}]", p.off, p.groups, p.data_size, p.hdr.fst_off, p.hdr.dol_off, describe_part(&p.def)))
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len as usize];
        for (i, p) in self.parts.iter().enumerate() {
            for g in 0..p.groups {
                let at = (p.off + p.data_off + g * GROUP as u64) as usize;
                v[at..at + GROUP].copy_from_slice(&self.group(i, g));
            }
        }
        for (o, b) in &self.segs {
            v[*o as usize..*o as usize + b.len()].copy_from_slice(b);
        }
        v
    }
    /// what a file of the image holds: everything, but of very large partitions only the groups with content
    fn pieces(&self, mut f: impl FnMut(u64, &[u8]) -> io::Result<()>) -> io::Result<()> {
        for (i, p) in self.parts.iter().enumerate() {
            for g in 0..p.groups {
                let (a, b) = (g * GDATA as u64, (g + 1) * GDATA as u64);
                if p.groups > 64 && !p.plain.segs.iter().any(|(o, s)| *o < b && o + s.len() > a) {
                    continue;
                }
                f(p.off + p.data_off + g * GROUP as u64, &self.group(i, g))?;
            }
        }
        for (o, b) in &self.segs {
            f(*o, b)?;
        }
        Ok(())
    }
    /// sparse file
    pub fn write_file(&self, path: &std::path::Path) -> io::Result<()> {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(path)?;
        f.set_len(self.len)?;
        self.pieces(|o, b| f.write_all_at(b, o))
    }
    /// whether the file still holds what write_file wrote
    pub fn same_file(&self, path: &std::path::Path) -> io::Result<bool> {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::open(path)?;
        let mut same = f.metadata()?.len() == self.len;
        if same {
            self.pieces(|o, b| {
                let mut v = vec![0; b.len()];
                f.read_exact_at(&mut v, o)?;
                same &= v == b;
                Ok(())
            })?;
        }
        Ok(same)
    }
    pub fn is_giant(&self) -> bool {
        self.len > u32::MAX as u64
    }
}

/// Read + Seek over an image without materialising it.
pub struct VReader {
    pub img: Arc<RefImage>,
    pub pos: u64,
    cache: Option<(usize, u64, Vec<u8>)>,
}

impl VReader {
    pub fn new(img: Arc<RefImage>) -> Self {
        VReader { img, pos: 0, cache: None }
    }
    /// number of bytes from `off` that can be served in one go
    fn read_some(&mut self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.img.len {
            return 0;
        }
        let mut n = (buf.len() as u64).min(self.img.len - off);
        for (o, b) in &self.img.segs {
            let e = o + b.len() as u64;
            if off >= *o && off < e {
                let n = n.min(e - off) as usize;
                buf[..n].copy_from_slice(&b[(off - o) as usize..(off - o) as usize + n]);
                return n;
            }
            if *o > off {
                n = n.min(*o - off);
            }
        }
        let img = self.img.clone();
        for (i, p) in img.parts.iter().enumerate() {
            let s = p.off + p.data_off;
            let e = s + p.groups * GROUP as u64;
            if off >= s && off < e {
                let g = (off - s) / GROUP as u64;
                let o = ((off - s) % GROUP as u64) as usize;
                let n = n.min((GROUP - o) as u64) as usize;
                let hit = matches!(&self.cache, Some((a, b, _)) if *a == i && *b == g);
                if !hit {
                    self.cache = Some((i, g, img.group(i, g)));
                }
                let c = &self.cache.as_ref().unwrap().2;
                buf[..n].copy_from_slice(&c[o..o + n]);
                return n;
            }
            if s > off {
                n = n.min(s - off);
            }
        }
        buf[..n as usize].fill(0);
        n as usize
    }
}

impl Read for VReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut done = 0;
        while done < buf.len() {
            let n = self.read_some(self.pos, &mut buf[done..]);
            if n == 0 {
                break;
            }
            done += n;
            self.pos += n as u64;
        }
        Ok(done)
    }
}
impl Seek for VReader {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
            SeekFrom::End(o) => self.img.len as i128 + o as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
impl Write for VReader {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Err(io::ErrorKind::Unsupported.into())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
